//! Flat rows: every short history through a file, the rows against those the model derives.
use super::*;

use crate::rp::*;
use crate::sm::*;
use s2protocol::game_events::*;
use s2protocol::tracker_events::*;
use s2protocol::{InitData, SC2EventIterator};
use serde_json::{Value as J, json};
use std::collections::HashMap;

pub type Rows = Vec<(&'static str, Vec<J>)>;
const FS_ID: u64 = 0xfedc_ba98_7654_3210;

/// The rows a history is to give.
pub fn expected(m: &mut Model, evs: &[(i64, Ev)], fs_id: u64) -> Rows {
    let each = each(m, evs, fs_id);
    together(each.iter().map(|(_, r)| r))
}
fn together<'a>(parts: impl Iterator<Item = &'a Rows>) -> Rows {
    let mut all: Rows = ["cmd_target_point", "cmd_target_unit", "stats", "upgrades", "unit_born", "unit_died"].map(|n| (n, vec![])).into();
    for p in parts {
        for ((_, a), (_, r)) in all.iter_mut().zip(p) {
            a.extend(r.iter().cloned());
        }
    }
    all
}

/// The rows of each event, in the order of the iteration, from the model's hints.
fn each<'a>(m: &mut Model, evs: &'a [(i64, Ev)], fs_id: u64) -> Vec<(&'a (i64, Ev), Rows)> {
    use ReplayTrackerEvent::*;
    let mut order: Vec<&(i64, Ev)> = evs.iter().collect();
    order.sort_by_key(|(l, e)| (*l, matches!(e, Ev::G(..))));
    let mut all = vec![];
    for le in order {
        let (l, e) = le;
        let (mut point, mut unit, mut stats, mut upg, mut born, mut died) = (vec![], vec![], vec![], vec![], vec![], vec![]);
        let hint = m.step(e, *l);
        let ext = |mut o: J, secs: u32| {
            o["ext_replay_loop"] = json!(l);
            o["ext_replay_seconds"] = json!(secs);
            o["ext_fs_id"] = json!(fs_id);
            o
        };
        let tsec = seconds(*l, s2protocol::convert_tracker_loop_to_seconds(*l));
        let gsec = seconds(*l, s2protocol::convert_game_loop_to_seconds(*l));
        let f = |x: f32| json!(x);
        match (e, hint) {
            (Ev::T(PlayerStats(e)), _) => {
                let mut o = serde_json::to_value(&e.stats).unwrap();
                o["player_id"] = json!(e.player_id);
                stats.push(ext(o, tsec));
            }
            (Ev::T(Upgrade(e)), _) => upg.push(ext(json!({"player_id": e.player_id, "name": e.upgrade_type_name, "count": e.count}), tsec)),
            (Ev::T(UnitBorn(e)), MHint::Registered(u, c)) => born.push(ext(
                json!({"unit_tag_index": e.unit_tag_index, "unit_tag_recycle": e.unit_tag_recycle, "unit_type_name": e.unit_type_name,
                    "control_player_id": e.control_player_id, "upkeep_player_id": e.upkeep_player_id, "x": f(e.x as f32), "y": f(e.y as f32),
                    "creator_unit_tag_index": e.creator_unit_tag_index, "creator_unit_tag_recycle": e.creator_unit_tag_recycle,
                    "creator_unit_type_name": c.map(|c| c.name), "creator_ability_name": e.creator_ability_name, "player_name": u.pname}),
                tsec,
            )),
            (Ev::T(UnitDone(UnitDoneEvent { unit_tag_index: i, unit_tag_recycle: r }) | UnitTypeChange(UnitTypeChangeEvent { unit_tag_index: i, unit_tag_recycle: r, .. })), MHint::Registered(u, c)) => {
                born.push(ext(
                    json!({"unit_tag_index": i, "unit_tag_recycle": r, "unit_type_name": u.name,
                    "control_player_id": u.owner, "upkeep_player_id": u.owner, "x": f(u.pos[0]), "y": f(u.pos[1]),
                    "creator_unit_tag_index": null, "creator_unit_tag_recycle": null,
                    "creator_unit_type_name": c.map(|c| c.name), "creator_ability_name": u.creator_ability, "player_name": u.pname}),
                    tsec,
                ))
            }
            (Ev::T(UnitDied(e)), MHint::Unregistered(k, d)) => died.push(ext(
                json!({"unit_died_name": d.name, "unit_tag_index": e.unit_tag_index, "unit_tag_recycle": e.unit_tag_recycle, "killer_player_id": e.killer_player_id,
                    "x": e.x, "y": e.y, "unit_killer_name": k.map(|k| k.name).unwrap_or_default(), "killer_unit_tag_index": e.killer_unit_tag_index,
                    "killer_unit_tag_recycle": e.killer_unit_tag_recycle}),
                tsec,
            )),
            (Ev::G(user, ReplayGameEvent::Cmd(e)), MHint::Abilities(units, _)) => {
                for u in units {
                    let mut o = json!({"user_id": user, "player_name": m.users.get(user).map(|u| u.name.clone()), "cmd_flags": e.m_cmd_flags,
                        "abil_link": e.m_abil.as_ref().map(|a| a.m_abil_link), "abil_cmd_index": e.m_abil.as_ref().map(|a| a.m_abil_cmd_index),
                        "ability": u.cmd.abil.as_ref().map(|a| a.1.clone()).unwrap_or_default(), "sequence": e.m_sequence, "unit_name": u.name});
                    match &e.m_data {
                        GameSCmdData::TargetPoint(p) => {
                            o["target_point_x"] = json!(p.x);
                            o["target_point_y"] = json!(p.y);
                            o["target_point_z"] = json!(p.z);
                            o["unit_group"] = json!(e.m_unit_group);
                            point.push(ext(o, gsec));
                        }
                        GameSCmdData::TargetUnit(t) => {
                            o["target_unit_flags"] = json!(t.m_target_unit_flags);
                            o["tag"] = json!(t.m_tag);
                            o["snapshot_unit_link"] = json!(t.m_snapshot_unit_link);
                            o["snapshot_control_player_id"] = json!(t.m_snapshot_control_player_id);
                            o["snapshot_upkeep_player_id"] = json!(t.m_snapshot_upkeep_player_id);
                            o["snapshot_point_x"] = json!(t.m_snapshot_point.x);
                            o["snapshot_point_y"] = json!(t.m_snapshot_point.y);
                            o["snapshot_point_z"] = json!(t.m_snapshot_point.z);
                            o["target_unit_name"] = json!(u.cmd.other_name.clone().unwrap_or_default());
                            unit.push(ext(o, gsec));
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
        all.push((le, vec![("cmd_target_point", point), ("cmd_target_unit", unit), ("stats", stats), ("upgrades", upg), ("unit_born", born), ("unit_died", died)]));
    }
    all
}

pub fn collected(init: &InitData, units: &HashMap<(u32, String), VersionedBalanceUnit>) -> Rows {
    rows_of(&|| SC2EventIterator::new(init, units.clone()).unwrap())
}
/// The rows of all that an iteration has left.
fn rows_of(it: &dyn Fn() -> SC2EventIterator) -> Rows {
    fn j<T: serde::Serialize>(v: Vec<T>) -> Vec<J> {
        v.iter().map(|r| serde_json::to_value(r).unwrap()).collect()
    }
    vec![
        ("cmd_target_point", j(it().collect_into_game_cmd_target_points_flat_rows())),
        ("cmd_target_unit", j(it().collect_into_game_cmd_target_units_flat_rows())),
        ("stats", j(it().collect_into_player_stats_flat_rows())),
        ("upgrades", j(it().collect_into_upgrades_flat_rows())),
        ("unit_born", j(it().collect_into_unit_born_flat_rows())),
        ("unit_died", j(it().collect_into_unit_died_flat_rows())),
    ]
}

/// Balance data of the version and of its neighbours, which say something else.
pub fn versions(build: u32) -> HashMap<(u32, String), VersionedBalanceUnit> {
    let mut out = HashMap::new();
    let (_, units) = book();
    for (n, u) in units {
        out.insert((build, n), u);
    }
    for (v, n) in [(build - 1, "Probe"), (build + 1, "Probe"), (0, "Marine"), (build + 1, "Zealot")] {
        let mut j = minimal_unit(n, Some(9.0));
        j["abilities"] = json!({"ability": [
            {"@id": "wrong", "@index": 10, "command": [{"@id": "Version", "@index": 0, "meta": {"@name": "1", "@tooltip": "2"}}]},
            {"@id": "wrong", "@index": 11, "command": [{"@id": "Version", "@index": 0, "meta": {"@name": "1", "@tooltip": "2"}}]}]});
        out.insert((v, n.to_string()), serde_json::from_value(j).unwrap());
    }
    out
}

pub fn model_of(players: &[(i64, &str)]) -> Model {
    initial(players).1
}

pub const PLAYERS: [(i64, &str); 2] = [(0, "Ann"), (3, "Obs")];

pub fn world() -> Vec<Ev> {
    vec![
        setup(1, Some(0), Some(0)),
        born(1, 1, "Probe", 1, (10, 20), None, None),
        born(2, 1, "Marine", 1, (255, 0), Some(1), Some("Train")),
        born(0x3fff, 0x3ffff, "Nexus", 2, (3, 3), Some(0x3ffe), None),
    ]
}
pub fn alphabet() -> Vec<Ev> {
    let (t1, t2, t3, t9) = (tag(1, 1), tag(2, 1), tag(0x3fff, 0x3ffff), tag(9, 1));
    vec![
        select(0, 10, &[t1]),
        select(0, 10, &[t2, t9, t1]),
        select(3, 10, &[t3]),
        cmd(0, Some((10, 0)), GameSCmdData::TargetPoint(coord(4096, 8191, -4096)), 1),
        cmd(0, Some((11, 0)), GameSCmdData::TargetUnit(target(t3, 1)), 2),
        cmd(0, Some((10, 1)), GameSCmdData::TargetUnit(target(t9, 2)), 3),
        cmd(3, Some((10, 1)), GameSCmdData::TargetUnit(target(t1, 3)), 4),
        cmd(3, None, GameSCmdData::TargetPoint(coord(1, 2, 3)), 5),
        cmd(0, Some((10, 0)), GameSCmdData::None, 6),
        cmd(0, Some((10, 0)), GameSCmdData::Data(77), 7),
        upd_unit(0, target(t2, 4)),
        born(5, 2, "Zergling", 2, (0, 255), Some(2), Some("Morph")),
        born(1, 3, "Marine", 2, (9, 8), None, None),
        uinit(6, "Nexus", 1, (7, 6)),
        select(0, 10, &[tag(6, 1)]),
        done(6),
        done(1),
        change(2, "Larva"),
        change(8, "Egg"),
        owner(1, 2),
        positions(1, &[0, 4, 5, 1, 6, 7, 4, 300, -70000]),
        died(1, Some(2)),
        died(2, None),
        died(0x3fff, Some(0x3ffe)),
        upgrade(1),
        setup(2, Some(3), Some(1)),
    ]
}

/// The seconds of a loop: the value the library gives, if it is one that rounding explains (single
/// precision is part of the interface no more than double precision is), else the exact one.
pub fn seconds(l: i64, got: u32) -> u32 {
    let ms = l as f64 * 68.58391;
    let at = |f: f64| (ms * f / 1000.0) as u32;
    if (at(1.0 - 3e-7)..=at(1.0 + 3e-7)).contains(&got) { got } else { at(1.0) }
}

fn compare(cx: &Ctx, key: &str, got: Result<Rows, String>, want: Rows, replay: impl Fn() -> J) {
    match got {
        Ok(got) => {
            for ((n, g), (_, w)) in got.iter().zip(&want) {
                if g == w {
                    continue;
                }
                let k = match g.iter().zip(w).find(|(g, w)| g != w) {
                    Some((g, w)) => format!("{n}/{}", p06::diff(g, w)),
                    None => format!("{n}/count"),
                };
                cx.violation(&format!("{key}/{k}"), &format!("got {} want {}", trunc(&json!(g).to_string()), trunc(&json!(w).to_string())), replay());
            }
        }
        Err(p) => cx.violation(&format!("{key}/panic"), &p, replay()),
    }
}

fn one(cx: &Ctx, scratch: &Scratch, key: &str, base: &Replay, init: &InitData, units: &HashMap<(u32, String), VersionedBalanceUnit>, evs: &[(i64, Ev)]) {
    let mut r = base.clone();
    r.push(evs);
    let p = scratch.file(&format!("{:?}.SC2Replay", std::thread::current().id()).replace(['(', ')'], ""), &r.bytes());
    let mut init = init.clone();
    init.ext_fs_file_name = p.to_str().unwrap().into();
    let want = expected(&mut model_of(&PLAYERS), evs, init.ext_fs_id);
    cx.steps(evs.len() as u64 * 6);
    cx.trace();
    for (n, w) in &want {
        for r in w {
            cx.state_bytes(format!("{n}{r}").as_bytes());
        }
    }
    compare(cx, key, guard(|| collected(&init, units)), want, || json!({"events": evs.iter().map(|e| format!("{e:?}")).collect::<Vec<_>>()}));
}

pub fn run(cx: &Ctx) {
    let scratch = Scratch::new();
    let a = alphabet();
    for build in [87702u32, 75689] {
        let base = Replay::new(build, &PLAYERS);
        let p = scratch.file(&format!("base{build}.SC2Replay"), &base.bytes());
        let init = InitData::try_from((p, FS_ID)).unwrap();
        let units = versions(build);
        // Every sequence after the opening.
        let depth = if build == 87702 { cx.pick(3, 4) } else { cx.pick(2, 3) };
        let mut seqs: Vec<Vec<usize>> = vec![vec![]];
        let mut level = seqs.clone();
        for _ in 0..depth {
            level = level.iter().flat_map(|s| (0..a.len()).map(move |i| s.iter().copied().chain([i]).collect())).collect();
            // Only the longest ones: their rows contain those of their prefixes.
            seqs = level.clone();
        }
        par_for(&seqs, |s| {
            let mut evs: Vec<(i64, Ev)> = world().into_iter().map(|e| (0, e)).collect();
            // Game events follow the tracker events of the same loop, so the loops advance; two steps share one.
            evs.extend(s.iter().enumerate().map(|(i, e)| ([14, 16, 1000, 1000][i], a[*e].clone())));
            one(cx, &scratch, "history", &base, &init, &units, &evs);
        });
        // Every sequence of two (three) in one long replay.
        let long = de_bruijn(a.len(), cx.pick(2, 3));
        let mut evs: Vec<(i64, Ev)> = world().into_iter().map(|e| (0, e)).collect();
        evs.extend(long.iter().enumerate().map(|(i, e)| (14 + i as i64 * 7 / 2, a[*e].clone())));
        one(cx, &scratch, "long", &base, &init, &units, &evs);
        cx.phase(&format!("histories {build}"), json!({"alphabet": a.len(), "depth": depth, "sequences": seqs.len()}));
        parts(cx, &scratch, &base, &init, &units);
        // Every field of the rows that come straight from the event.
        fields(cx, &scratch, &base, &init, &units);
    }
}

/// Deviations of every field of the events that rows are made of.
fn fields(cx: &Ctx, scratch: &Scratch, base: &Replay, init: &InitData, units: &HashMap<(u32, String), VersionedBalanceUnit>) {
    let jobs = field_jobs(base.build);
    par_for(&jobs, |s| one(cx, scratch, "fields", base, init, units, s));
    cx.phase(&format!("fields {}", base.build), json!({"events": jobs.len()}));
}
pub fn field_jobs(build: u32) -> Vec<Vec<(i64, Ev)>> {
    use crate::choose::explore;
    use crate::fx::with;
    use crate::spec::*;
    let m = aligned();
    let mut jobs: Vec<Vec<(i64, Ev)>> = vec![];
    let open = || world().into_iter().map(|e| (0, e)).collect::<Vec<(i64, Ev)>>();
    for (i, v) in m.variants("ReplayTrackerEEventId").iter().enumerate() {
        if !["EPlayerStats", "EUnitBorn", "EUnitDied", "EUpgrade", "EUnitDone", "EUnitTypeChange"].contains(&v.1.as_str()) {
            continue;
        }
        for rich in [false, true] {
            explore(1, |c| {
                let mut v = Gen::new(rich, true).gen_variant(m, c, "ReplayTrackerEEventId", i);
                // A food value is reported in whole numbers; only those go through the wire and back.
                if let V::Enum(_, n, Some(p)) = &mut v {
                    if n == "EPlayerStats" {
                        let mut s = p.field("m_stats").clone();
                        for k in ["m_score_value_food_used", "m_score_value_food_made"] {
                            let x = s.field(k).int() / 4096 * 4096;
                            s.set(k, V::Int(x));
                        }
                        **p = with((**p).clone(), &[("m_stats", s)]);
                    } else if n == "EUnitDied" || n == "EUnitDone" || n == "EUnitTypeChange" {
                        p.set("m_unit_tag_index", V::Int(1));
                    }
                }
                if let Some(e) = p03::agnostic(&v).and_then(|j| serde_json::from_value::<ReplayTrackerEvent>(j).ok()) {
                    let mut s = open();
                    s.push((c.picks().len() as i64 * 100, Ev::T(e)));
                    jobs.push(s);
                }
            });
        }
    }
    let g = module(build);
    let i = g.variants("GameEEventId").iter().position(|v| v.1 == "ECmd").unwrap();
    for rich in [false, true] {
        explore(if rich { 1 } else { 2 }, |c| {
            let v = Gen::new(rich, true).gen_variant(g, c, "GameEEventId", i);
            if let Some(e) = p04::agnostic(g, &v).and_then(|j| serde_json::from_value::<ReplayGameEvent>(j).ok()) {
                let mut s = open();
                s.push((1, select(3, 10, &[tag(0x3fff, 1), tag(1, 1)])));
                s.push((1 << 20, Ev::G(3, e)));
                jobs.push(s);
            }
        });
    }
    jobs
}

/// The rows of what is left after some events, and of what filters let through.
fn parts(cx: &Ctx, scratch: &Scratch, base: &Replay, init: &InitData, units: &HashMap<(u32, String), VersionedBalanceUnit>) {
    use s2protocol::filters::SC2ReplayFilters;
    let f = || SC2ReplayFilters { include_stats: true, ..Default::default() };
    let mut filters = vec![SC2ReplayFilters::default()];
    filters.extend((0..=8).map(|n| SC2ReplayFilters { max_events: Some(n), ..f() }));
    for (min_loop, max_loop) in [(Some(1), None), (Some(15), None), (None, Some(15)), (None, Some(0)), (Some(14), Some(15)), (Some(17), None)] {
        filters.push(SC2ReplayFilters { min_loop, max_loop, ..f() });
        filters.push(SC2ReplayFilters { min_loop, max_loop, max_events: Some(1), ..f() });
    }
    for p in [0u8, 1, 2, 3] {
        filters.push(SC2ReplayFilters { player_id: Some(p), ..f() });
        filters.push(SC2ReplayFilters { player_id: Some(p), max_events: Some(2), ..f() });
    }
    for n in ["Marine", "Probe", "Larva", "Zergling"] {
        filters.push(SC2ReplayFilters { unit_name: Some(n.into()), ..f() });
    }
    let a = alphabet();
    let jobs: Vec<usize> = (0..a.len().pow(2)).collect();
    par_for(&jobs, |&s| {
        let stats = with_stats();
        let mut evs: Vec<(i64, Ev)> = world().into_iter().map(|e| (0, e)).collect();
        evs.extend([(14, a[s / a.len()].clone()), (15, stats), (16, a[s % a.len()].clone())]);
        let mut r = base.clone();
        r.push(&evs);
        let p = scratch.file(&format!("{:?}.SC2Replay", std::thread::current().id()).replace(['(', ')'], ""), &r.bytes());
        let mut init = init.clone();
        init.ext_fs_file_name = p.to_str().unwrap().into();
        let each = each(&mut model_of(&PLAYERS), &evs, init.ext_fs_id);
        let new = || SC2EventIterator::new(&init, units.clone()).unwrap();
        for k in 0..=each.len() + 1 {
            let want = together(each.iter().skip(k).map(|(_, r)| r));
            let got = guard(|| {
                rows_of(&|| {
                    let mut it = new();
                    (0..k).for_each(|_| drop(it.next()));
                    it
                })
            });
            cx.steps(6);
            cx.trace();
            compare(cx, "rest", got, want, || json!({"after": k, "events": evs.iter().map(|e| format!("{e:?}")).collect::<Vec<_>>()}));
        }
        for f in &filters {
            let through: Vec<&Rows> = each.iter().filter(|((l, e), _)| p10::passes(f, *l, e)).take(f.max_events.unwrap_or(usize::MAX)).map(|(_, r)| r).collect();
            let want = together(through.into_iter());
            cx.steps(6);
            cx.trace();
            compare(cx, "filtered", guard(|| rows_of(&|| new().with_filters(f.clone()))), want, || json!({"filters": f, "events": evs.iter().map(|e| format!("{e:?}")).collect::<Vec<_>>()}));
        }
    });
    cx.phase(&format!("parts {}", base.build), json!({"histories": jobs.len(), "filters": filters.len(), "rest after": "every number of events"}));
}

/// An event with statistics.
fn with_stats() -> Ev {
    let mut e = crate::fx::default_of(crate::spec::aligned(), "ReplayTrackerSPlayerStatsEvent");
    e.set("m_player_id", crate::spec::V::Int(2));
    let v = crate::spec::V::Enum(0, "EPlayerStats".into(), Some(Box::new(e)));
    Ev::T(serde_json::from_value(p03::agnostic(&v).unwrap()).unwrap())
}
