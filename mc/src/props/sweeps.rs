//! Domain sweeps of the state machine: the explorations vary the order of a few events, these vary
//! one quantity over its whole domain (or over all its bit boundaries) in fixed short histories.
use super::*;
use crate::choose::explore;
use crate::sm::*;
use crate::spec::*;
use s2protocol::game_events::*;
use s2protocol::tracker_events::*;
use serde_json::json;

pub type Story = (String, Vec<(i64, Ev)>);

fn steps(evs: Vec<Ev>) -> Vec<(i64, Ev)> {
    evs.into_iter().enumerate().map(|(i, e)| (i as i64 * 7, e)).collect()
}
fn opening() -> Vec<Ev> {
    vec![
        setup(1, Some(0), Some(0)),
        setup(2, Some(3), Some(1)),
        born(1, 1, "Probe", 1, (10, 20), None, None),
        born(2, 1, "Marine", 1, (255, 0), Some(1), Some("Train")),
        born(3, 1, "Marine", 2, (5, 5), None, None),
        select(0, 10, &[tag(1, 1), tag(2, 1)]),
        select(3, 10, &[tag(3, 1)]),
    ]
}
fn after(evs: Vec<Ev>) -> Vec<(i64, Ev)> {
    steps(opening().into_iter().chain(evs).collect())
}
/// A state where every part holds something: cameras, groups, commands, an unfinished building, a dead unit.
fn busy() -> Vec<Ev> {
    let mut v = opening();
    v.extend([
        cam_save(0, 31, 37),
        cam_save(3, 41, 43),
        group(0, 2, ESet),
        group(3, 4, ESet),
        cmd(0, Some((10, 0)), GameSCmdData::TargetPoint(coord(4096, 8192, 5)), 1),
        cmd(3, Some((10, 0)), GameSCmdData::TargetUnit(target(tag(1, 1), 1)), 2),
        uinit(5, "Nexus", 1, (9, 9)),
        born(6, 1, "Zergling", 2, (8, 8), None, None),
        died(6, Some(1)),
    ]);
    v
}
fn after_busy(evs: Vec<Ev>) -> Vec<(i64, Ev)> {
    steps(busy().into_iter().chain(evs).collect())
}
use GameEControlGroupUpdate::*;

/// Every unit index with every recycle boundary.
fn indexes(thorough: bool) -> Vec<Story> {
    let mut out = vec![];
    for i in 0..=0x3fffu32 {
        for r in if thorough { vec![0u32, 1, 2, 0x20000, 0x15555, 0x3ffff] } else { vec![1u32, 0x3ffff] } {
            // The neighbours one bit away are there too.
            let n = i ^ (1 << (i % 14));
            let t = tag(i, r);
            out.push((
                format!("unit index {i} recycle {r}"),
                after(vec![
                    born(n, 1, "Marine", 2, (1, 1), None, None),
                    uinit(i, "Nexus", 1, (9, 8)),
                    born(i, r, "Probe", 2, (7, 6), Some(n), Some("Warp")),
                    select(0, 10, &[t, tag(n, 1)]),
                    group(0, 5, ESet),
                    select(0, 10, &[t]),
                    cmd(0, Some((10, 0)), GameSCmdData::TargetUnit(target(t, 1)), 1),
                    upd_unit(3, target(t, 2)),
                    positions(i, &[0, 40, 50]),
                    owner(i, 1),
                    change(i, "Marine"),
                    group(0, 5, ERecall),
                    done(i),
                    died(n, Some(i)),
                    died(i, None),
                    born(i, r.wrapping_add(1) & 0x3ffff, "Probe", 2, (7, 6), None, None),
                    group(0, 5, ERecall),
                ]),
            ));
        }
    }
    out
}

fn people() -> Vec<Story> {
    let mut out = vec![];
    for p in 0..=255u8 {
        for u in [0i64, 3, 7] {
            // Two users of one player: whose name it is would be undefined.
            if p == 1 && u == 3 || p == 2 && u == 0 {
                continue;
            }
            out.push((
                format!("player {p} user {u}"),
                after(vec![
                    born(4, 1, "Marine", p, (1, 1), None, None),
                    upgrade(p),
                    setup(p, Some(u as u32), Some(p as u32)),
                    born(5, 1, "Marine", p, (1, 1), None, None),
                    uinit(6, "Zergling", p, (1, 1)),
                    owner(1, p),
                    upgrade(p),
                    change(5, "Probe"),
                    Ev::T(ReplayTrackerEvent::UnitDied(UnitDiedEvent { unit_tag_index: 5, unit_tag_recycle: 1, killer_player_id: Some(p), x: p, y: 255 - p, killer_unit_tag_index: Some(4), killer_unit_tag_recycle: Some(1) })),
                ]),
            ));
        }
    }
    for u in (0..64).chain([127, 128, 255, 256, 65535, 65536, u32::MAX as i64]) {
        let mut v = vec![setup(9, u32::try_from(u).ok(), Some(4)), cam_save(u, 1, 2), cam_upd(u, Some((3, 4)))];
        v.push(select(u, 10, &[tag(3, 1)]));
        v.push(group(u, 2, ESet));
        v.push(cmd(u, Some((10, 0)), GameSCmdData::TargetPoint(coord(1, 2, 3)), 4));
        v.push(upd_point(u, coord(4, 5, 6)));
        v.push(upd_unit(u, target(tag(1, 1), 6)));
        v.push(group(u, 2, ERecall));
        v.push(upgrade(9));
        out.push((format!("user {u}"), after(v)));
    }
    for s in (0..40).chain([255, 256, 65535, u32::MAX]) {
        out.push((format!("slot {s}"), after(vec![setup(1, Some(3), Some(s)), setup(2, Some(0), None), upgrade(1), upgrade(2)])));
    }
    out
}

/// Selections and groups of every size, and every group number.
fn groups(thorough: bool) -> Vec<Story> {
    let mut out = vec![];
    let many = |n: usize| -> Vec<u32> { (0..n as u32).map(|i| tag(10 + (i * 37) % 700, 1 + i)).collect() };
    let sizes: Vec<usize> = if thorough { (0..=511).collect() } else { (0..=70).chain([127, 128, 200, 254, 255, 256, 257, 500, 510, 511]).collect() };
    for n in sizes {
        let t = many(n);
        let half: Vec<u32> = t.iter().copied().skip(n / 2).chain([tag(1, 1), tag(3, 1)]).collect();
        let known: Vec<Ev> = t.iter().step_by(5.max(n / 12)).map(|t| born(t >> 18, t & 0x3ffff, "Marine", 1, (1, 2), None, None)).collect();
        let mut v = known;
        v.extend([
            select(0, 10, &t),
            cmd(0, Some((10, 0)), GameSCmdData::TargetPoint(coord(4096, 8192, 0)), 1),
            group(0, 1, ESet),
            group(0, 9, EAppend),
            select(0, 10, &half),
            group(0, 1, EAppend),
            group(0, 2, ESet),
            group(0, 9, ERecall),
            group(0, 9, ERecall),
            select(0, 10, &half),
            group(0, 3, EAppendAndSteal),
            group(0, 4, ESetAndSteal),
            group(0, 1, ERecall),
            upd_point(0, coord(1, 1, 1)),
            upd_unit(0, target(tag(1, 1), 3)),
        ]);
        for t in [t.first(), t.get(n / 2), t.last()].into_iter().flatten() {
            v.push(died(t >> 18, Some(1)));
        }
        v.extend([group(0, 9, ERecall), group(0, 4, ERecall), select(0, 10, &[])]);
        out.push((format!("selection of {n}"), after(v)));
    }
    let (a, b, c) = (tag(1, 1), tag(2, 1), tag(3, 1));
    for g in 0..=255u8 {
        for k in KINDS {
            out.push((
                format!("group {g} {k:?}"),
                after(vec![select(0, g, &[c, a]), select(0, 10, &[a, b]), group(0, g, k.clone()), group(0, 0, ERecall), select(0, g, &[b]), group(0, g, ERecall), died(2, None), group(0, g, k)]),
            ));
        }
    }
    // Every pair of groups.
    for g in 0..=10u8 {
        for h in 0..=10u8 {
            for k in KINDS {
                for l in KINDS {
                    out.push((
                        format!("group {g} {k:?} then {h} {l:?}"),
                        after(vec![
                            select(0, g, &[a]),
                            select(0, h, &[a, c]),
                            group(0, g, k.clone()),
                            select(0, 10, &[b, c]),
                            group(0, h, l.clone()),
                            group(0, g, ERecall),
                            group(0, h, l),
                            died(3, None),
                            group(0, h, ERecall),
                        ]),
                    ));
                }
            }
        }
    }
    out
}

/// Many units at once, all of them registered: in a selection, a group, a command, a list of
/// positions.
fn crowds(thorough: bool) -> Vec<Story> {
    let mut out = vec![];
    let mut sizes = vec![1usize, 2, 3, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300, 400, 500, 511];
    if thorough {
        sizes = (1..=511).collect();
    }
    for n in sizes {
        for stride in [1u32, 3, 31] {
            let ix = |i: u32| 10 + i * stride;
            let all: Vec<u32> = (0..n as u32).collect();
            let tags: Vec<u32> = all.iter().map(|i| tag(ix(*i), 1)).collect();
            let other: Vec<u32> = all.iter().map(|i| tag(ix(*i) + 600 * stride, 1)).collect();
            let mut v: Vec<Ev> = vec![];
            for t in tags.iter().chain(&other) {
                v.push(born(t >> 18, 1, "Marine", 1 + (t >> 18 & 1) as u8, (1, 2), None, None));
            }
            let list = |from: i32| -> Vec<i32> { all.iter().flat_map(|i| [if *i == 0 { 0 } else { stride as i32 }, from + *i as i32 % 200, from / 2 + *i as i32 % 100]).collect() };
            v.extend([
                select(0, 10, &tags),
                group(0, 1, ESet),
                cmd(0, Some((10, 0)), GameSCmdData::TargetPoint(coord(4096, 8192, 0)), 1),
                positions(ix(0), &list(4)),
                upd_point(0, coord(1, 1, 1)),
                cmd(0, Some((10, 0)), GameSCmdData::TargetUnit(target(other[0], 1)), 2),
                upd_unit(0, target(tags[n / 2], 3)),
                select(0, 10, &other),
                group(0, 1, EAppend),
                positions(ix(0) + 600 * stride, &list(40)),
                group(0, 1, ERecall),
                cmd(0, Some((10, 0)), GameSCmdData::None, 3),
                select(3, 10, &tags),
                group(3, 5, ESetAndSteal),
                died(tags[n - 1] >> 18, Some(other[n - 1] >> 18)),
                group(3, 5, ERecall),
                group(0, 1, ERecall),
                select(0, 10, &tags[..1]),
                group(0, 2, EAppendAndSteal),
                group(0, 1, ERecall),
                group(0, 1, EClear),
                select(0, 10, &[]),
            ]);
            out.push((format!("crowd of {n}, {stride} apart"), after(v)));
        }
    }
    out
}

/// As many units as there can be; the state is compared now and then.
fn multitudes() -> Vec<Story> {
    let mut out = vec![];
    for n in [1030u32, 4100, 16_300] {
        let mut v: Vec<Ev> = (0..n).map(|i| born(10 + i, 1, ["Marine", "Probe"][i as usize % 2], 1 + (i & 1) as u8, (i as u8, (i / 256) as u8), (i % 5 == 0).then_some(i / 2), None)).collect();
        let some = |k: u32| -> Vec<u32> { (0..500).map(|i| tag(10 + (i * 31 + k * 97) % n, 1)).collect() };
        for k in 0..8u32 {
            v.push(select(0, 10, &some(k)));
            v.push(group(0, 1, EAppend));
            v.push(cmd(0, Some((10, 0)), GameSCmdData::TargetPoint(coord(4096 * k as i64, 8192, 0)), k as i64));
        }
        v.push(positions(10, &(0..n).flat_map(|i| [(i > 0) as i32, i as i32 % 250, i as i32 / 250]).collect::<Vec<_>>()));
        v.push(group(0, 1, ERecall));
        v.push(cmd(0, Some((10, 0)), GameSCmdData::TargetUnit(target(tag(10 + n / 2, 1), 1)), 2));
        v.push(group(3, 4, ESetAndSteal));
        for i in 0..n {
            match i % 4 {
                0 => v.push(died(10 + i, Some(10 + (i + 1) % n))),
                1 if i % 64 == 1 => v.push(change(10 + i, "Nexus")),
                2 if i % 64 == 2 => v.push(owner(10 + i, 2)),
                _ => {}
            }
        }
        v.push(positions(10, &(0..n).flat_map(|i| [(i > 0) as i32, i as i32 / 250, i as i32 % 250]).collect::<Vec<_>>()));
        v.push(group(0, 1, ERecall));
        v.push(cmd(0, Some((10, 0)), GameSCmdData::None, 3));
        v.push(select(0, 10, &[]));
        out.push((format!("{n} units"), after(v)));
    }
    out
}

fn bounds64() -> Vec<i64> {
    let mut v = vec![0i64];
    for b in 0..32 {
        v.extend([1i64 << b, (1 << b) - 1, -(1i64 << b)]);
    }
    v
}

fn numbers() -> Vec<Story> {
    let mut out = vec![];
    for x in 0..=255u8 {
        for y in [0u8, 1, 128, 255, x] {
            out.push((
                format!("birth at {x} {y}"),
                after(vec![born(8, 1, "Probe", 1, (x, y), None, None), uinit(9, "Nexus", 2, (y, x)), born(8, 2, "Marine", 2, (y, x), None, None), uinit(8, "Marine", 1, (x, y))]),
            ));
        }
    }
    for b in bounds64() {
        for axis in 0..3 {
            let c = coord(if axis == 0 { b } else { 9 }, if axis == 1 { b } else { 77 }, if axis == 2 { b as i32 } else { -5 });
            let mut t = target(tag(3, 1), 1);
            t.m_snapshot_point = c.clone();
            out.push((
                format!("coordinate {b} axis {axis}"),
                after(vec![
                    cmd(0, Some((10, 0)), GameSCmdData::TargetPoint(c.clone()), 1),
                    cmd(3, Some((10, 0)), GameSCmdData::TargetUnit(t.clone()), 2),
                    upd_point(3, c),
                    upd_unit(0, t),
                ]),
            ));
        }
        // Every choice of the fields a camera update has.
        for have in 0..64u8 {
            let on = |i: u8| have >> i & 1 == 1;
            let e = CameraUpdateEvent {
                m_target: on(0).then_some(GameSPointMini { x: b, y: 6 }),
                m_distance: on(1).then_some(b),
                m_pitch: on(2).then_some(b),
                m_yaw: on(3).then_some(b),
                m_reason: on(4).then_some(b as i8),
                m_follow: on(5),
            };
            out.push((format!("camera update {have} {b}"), after_busy(vec![Ev::G(0, ReplayGameEvent::CameraUpdate(e.clone())), Ev::G(3, ReplayGameEvent::CameraUpdate(e)), upgrade(1)])));
        }
        out.push((format!("camera {b}"), after(vec![cam_save(0, b, 5), cam_upd(3, Some((6, b))), cam_upd(0, Some((b, b))), cam_save(3, 1, b)])));
        // The loop of the events, several at the same one.
        if b >= 0 {
            let mut v: Vec<(i64, Ev)> = after(vec![]);
            for (d, l) in [(0i64, 100), (1, 100), (2, 101), (3, 101)] {
                let l = l + b * 4;
                v.extend([
                    (l, born(20 + d as u32, 1, "Probe", 1, (1, 1), Some(1), None)),
                    (l, change(2, "Nexus")),
                    (l, cmd(0, Some((10, 0)), GameSCmdData::None, 1)),
                    (l, select(0, 10, &[tag(2, 1), tag(20, 1)])),
                    (l, positions(1, &[0, 4, 4])),
                    (l, died(3, None)),
                ]);
            }
            out.push((format!("loops around {b}"), v));
        }
    }
    out
}

/// Every name the colour table knows, names close to those, with every owner that has its own colour.
fn names() -> Vec<Story> {
    let mut out = vec![];
    let table = [
        "VespeneGeyser", "SpacePlatformGeyser", "LabMineralField", "LabMineralField750", "MineralField", "MineralField450", "MineralField750", "XelNagaTower", "RichMineralField",
        "RichMineralField750", "DestructibleRockEx1DiagonalHugeBLUR", "DestructibleDebris6x6", "UnbuildablePlatesDestructible", "Overlord", "Pylon", "SupplyDepot", "SCV", "Drone", "Probe",
        "Larva", "Egg", "Hatchery", "CommandCenter", "Nexus", "Broodling", "Infestor", "Zergling", "Baneling", "BanelingCocoon", "BeaconArmy", "", "ProbeX", "Prob", "Marine", "probe", "NEXUS",
        "LarvaEgg", "CreepTumorBurrowed", "WidowMineBurrowed", "SiegeTankSieged", "Ünit", "a unit with spaces",
    ];
    for n in table {
        for p in [0u8, 1, 2, 3, 4, 15, 255] {
            out.push((
                format!("name {n:?} player {p}"),
                after(vec![
                    born(8, 1, n, p, (1, 1), None, None),
                    uinit(9, n, p, (2, 2)),
                    done(9),
                    change(1, n),
                    owner(1, p),
                    change(3, n),
                    select(0, 10, &[tag(8, 1), tag(9, 1), tag(1, 1)]),
                    cmd(0, Some((10, 0)), GameSCmdData::TargetUnit(target(tag(3, 1), 1)), 1),
                    change(8, "Probe"),
                    change(9, n),
                    owner(8, p),
                    select(0, 10, &[]),
                    change(77, n),
                    born(77, 1, "Nexus", p, (1, 1), None, Some(n)),
                    died(8, Some(9)),
                ]),
            ));
        }
    }
    out
}

/// Abilities around those of the balance data, and every link.
fn abilities() -> Vec<Story> {
    let mut out = vec![];
    for link in 0..1024u16 {
        for i in if (9..=12).contains(&link) { (0..32).collect::<Vec<i64>>() } else { vec![0, 1] } {
            out.push((
                format!("ability {link} {i}"),
                after(vec![
                    born(4, 1, "Nexus", 1, (1, 1), None, None),
                    select(0, 10, &[tag(1, 1), tag(2, 1), tag(4, 1)]),
                    cmd(0, Some((link, i)), GameSCmdData::None, 1),
                    change(1, "Nexus"),
                    cmd(0, Some((link, i)), GameSCmdData::Data(1), 2),
                ]),
            ));
        }
    }
    out
}

/// Single deviations (two for commands) of every event, after a short history.
fn fields() -> Vec<Story> {
    let mut out = vec![];
    let m = aligned();
    for i in 0..m.variants("ReplayTrackerEEventId").len() {
        for rich in [false, true] {
            for hit in [false, true] {
                explore(1, |c| {
                    let mut v = Gen::new(rich, true).gen_variant(m, c, "ReplayTrackerEEventId", i);
                    if let V::Enum(_, n, Some(p)) = &mut v
                        && hit
                    {
                        match n.as_str() {
                            "EPlayerStats" | "EUpgrade" => return,
                            "EPlayerSetup" => p.set("m_user_id", V::Opt(Some(Box::new(V::Int(3))))),
                            "EUnitPosition" => p.set("m_first_unit_index", V::Int(1)),
                            _ => p.set("m_unit_tag_index", V::Int(1)),
                        }
                    }
                    if let Some(e) = p03::agnostic(&v).and_then(|j| serde_json::from_value::<ReplayTrackerEvent>(j).ok()) {
                        if let ReplayTrackerEvent::UnitPosition(p) = &e {
                            // Sums beyond 32 bits mean nothing.
                            if p.items.iter().any(|i| i.unsigned_abs() >= 1 << 28) || p.first_unit_index >= 1 << 28 {
                                return;
                            }
                        }
                        out.push((format!("{e:?}"), after_busy(vec![Ev::T(e), change(1, "Nexus"), owner(2, 7)])));
                    }
                });
            }
        }
    }
    for build in [87702u32, 75689] {
        let m = crate::rp::module(build);
        for i in 0..m.variants("GameEEventId").len() {
            let cmd = m.variants("GameEEventId")[i].1 == "ECmd";
            for rich in [false, true] {
                explore(if cmd && !rich { 2 } else { 1 }, |c| {
                    let v = Gen::new(rich, true).gen_variant(m, c, "GameEEventId", i);
                    if let Some(mut e) = p04::agnostic(m, &v).and_then(|j| serde_json::from_value::<ReplayGameEvent>(j).ok()) {
                        match &mut e {
                            ReplayGameEvent::SelectionDelta(d) => d.m_delta.m_remove_mask = GameSSelectionMask::ZeroIndices(GameSelectionIndexArrayType { value: vec![] }),
                            ReplayGameEvent::ControlGroupUpdate(d) => d.m_mask = GameSSelectionMask::None,
                            _ => {}
                        }
                        for u in [0, 3] {
                            out.push((format!("user {u} {e:?}"), after_busy(vec![Ev::G(u, e.clone()), change(1, "Nexus"), cam_upd(u, None), died(3, None)])));
                        }
                    }
                });
            }
        }
    }
    out
}

pub fn run(cx: &Ctx, asp: &Aspects) {
    let base = initial(&[(0, "Ann"), (3, "Bob"), (16, "Cid")]);
    for (name, stories) in [
        ("indexes", indexes(cx.thorough)),
        ("people", people()),
        ("groups", groups(cx.thorough)),
        ("crowds", crowds(cx.thorough)),
        ("multitudes", multitudes()),
        ("numbers", numbers()),
        ("names", names()),
        ("abilities", abilities()),
        ("fields", fields()),
    ] {
        let n = stories.len();
        par_for(&stories, |(what, evs)| {
            let (mut r, mut m) = base.clone();
            cx.trace();
            cx.steps(evs.len() as u64);
            for (k, (l, e)) in evs.iter().enumerate() {
                let all = evs.len() < 3500 || k % 1000 == 999 || k + 8 > evs.len();
                if let Err((key, w)) = step_both_if(all, asp, &mut r, &mut m, e, *l) {
                    cx.violation(&format!("sweep-{name}/{key}"), &w, json!({"case": what, "events": evs[k.saturating_sub(60)..=k].iter().map(|e| trunc(&format!("{e:?}"))).collect::<Vec<_>>()}));
                    break;
                }
            }
        });
        cx.states_add(n as u64);
        cx.phase(&format!("sweep {name}"), json!({"histories": n}));
    }
}
