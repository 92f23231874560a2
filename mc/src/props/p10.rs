//! Filters of the merged iteration: every combination of filter values on streams with all kinds.
use crate::ctx::*;
use crate::rp::*;
use crate::sm::*;
use s2protocol::filters::SC2ReplayFilters;
use s2protocol::game_events::*;
use s2protocol::tracker_events::*;
use s2protocol::{InitData, SC2EventIterator, SC2EventType};
use serde_json::{Value as J, json};
use std::collections::HashMap;

fn stats(p: u8) -> Ev {
    let mut e = crate::fx::default_of(crate::spec::aligned(), "ReplayTrackerSPlayerStatsEvent");
    e.set("m_player_id", crate::spec::V::Int(p as i128));
    let v = crate::spec::V::Enum(0, "EPlayerStats".into(), Some(Box::new(e)));
    let j = super::p03::agnostic(&v).unwrap();
    Ev::T(serde_json::from_value(j).unwrap())
}

/// Every kind of event, several players, in both streams, with ties.
fn story() -> Vec<(i64, Ev)> {
    let (t1, t2) = (tag(1, 1), tag(2, 1));
    vec![
        (0, setup(1, Some(1), Some(0))),
        (0, setup(2, Some(2), Some(1))),
        (0, born(1, 1, "Probe", 1, (3, 4), None, None)),
        (0, born(2, 1, "Marine", 2, (5, 6), None, None)),
        (0, select(1, 10, &[t1])),
        (1, stats(1)),
        (1, stats(2)),
        (1, select(2, 10, &[t2])),
        (2, uinit(3, "Nexus", 1, (7, 7))),
        (2, uinit(4, "Probe", 2, (8, 8))),
        (2, cmd(1, Some((10, 0)), GameSCmdData::TargetUnit(target(t2, 1)), 1)),
        (3, change(3, "Probe")),
        (3, owner(4, 1)),
        (3, owner(2, 2)),
        (3, upd_point(1, coord(1, 2, 3))),
        (4, upgrade(1)),
        (4, upgrade(2)),
        (4, group(2, 3, GameEControlGroupUpdate::ESet)),
        (5, done(3)),
        (5, positions(1, &[0, 4, 4])),
        (5, cam_save(1, 3, 4)),
        (5, cam_upd(2, None)),
        (6, Ev::T(ReplayTrackerEvent::UnitDied(UnitDiedEvent { killer_player_id: Some(1), ..dead(2) }))),
        (6, Ev::T(ReplayTrackerEvent::UnitDied(UnitDiedEvent { killer_player_id: Some(2), ..dead(3) }))),
        (7, Ev::T(ReplayTrackerEvent::UnitDied(dead(4)))),
        (7, stats(0)),
        (7, select(1, 10, &[])),
        (8, change(1, "Nexus")),
        (8, upd_unit(1, target(t1, 2))),
    ]
}
fn dead(i: u32) -> UnitDiedEvent {
    UnitDiedEvent { unit_tag_index: i, unit_tag_recycle: 1, killer_player_id: None, x: 1, y: 2, killer_unit_tag_index: None, killer_unit_tag_recycle: None }
}

/// Whether the filters let an event through, from what they are documented to select.
pub fn passes(f: &SC2ReplayFilters, l: i64, e: &Ev) -> bool {
    use ReplayTrackerEvent::*;
    if f.min_loop.is_some_and(|m| l < m) || f.max_loop.is_some_and(|m| l > m) {
        return false;
    }
    let player = |p: Option<u8>| f.player_id.is_none() || f.player_id == p;
    let name = |n: &str| f.unit_name.as_deref().is_none_or(|x| x == n);
    match e {
        Ev::G(u, _) => player(Some(*u as u8)),
        Ev::T(PlayerStats(e)) => f.include_stats && player(Some(e.player_id)),
        Ev::T(UnitBorn(e)) => player(Some(e.control_player_id)) && name(&e.unit_type_name),
        Ev::T(UnitInit(e)) => player(Some(e.control_player_id)) && name(&e.unit_type_name),
        Ev::T(UnitDied(e)) => player(e.killer_player_id),
        Ev::T(UnitOwnerChange(e)) => player(Some(e.control_player_id)),
        Ev::T(UnitTypeChange(e)) => name(&e.unit_type_name),
        Ev::T(Upgrade(e)) => player(Some(e.player_id)),
        Ev::T(PlayerSetup(e)) => player(Some(e.player_id)),
        Ev::T(UnitDone(_) | UnitPosition(_)) => true,
    }
}

fn show(e: &SC2EventType) -> J {
    match e {
        SC2EventType::Tracker { tracker_loop, event } => {
            let mut e = event.clone();
            if let ReplayTrackerEvent::Upgrade(u) = &mut e {
                u.player_name = None;
            }
            json!([tracker_loop, e])
        }
        SC2EventType::Game { game_loop, user_id, event, .. } => {
            let mut e = event.clone();
            if let ReplayGameEvent::Cmd(c) = &mut e
                && let Some(a) = &mut c.m_abil
            {
                a.ability = String::new();
            }
            json!([game_loop, user_id, e])
        }
    }
}
fn show_ev(l: i64, e: &Ev) -> J {
    show(&match e {
        Ev::T(e) => SC2EventType::Tracker { tracker_loop: l, event: e.clone() },
        Ev::G(u, e) => SC2EventType::Game { game_loop: l, user_id: *u, player_name: None, event: e.clone() },
    })
}

type Job = (Option<u8>, Option<i64>, Option<i64>, Option<&'static str>, bool);

fn tell(cx: &Ctx, scratch: &Scratch, name: &str, mut story: Vec<(i64, Ev)>, jobs: &[Job], maxes: &[Option<usize>]) {
    let mut r = Replay::new(87702, &[(1, "Ann"), (2, "Obs")]);
    r.push(&story);
    let p = scratch.file(&format!("{name}.SC2Replay"), &r.bytes());
    let init = InitData::try_from((p, 0)).unwrap();
    // The order of the iteration: by loop, tracker events first.
    story.sort_by_key(|(l, e)| (*l, matches!(e, Ev::G(..))));
    let run_with = |f: Option<&SC2ReplayFilters>| {
        guard(|| {
            let mut it = SC2EventIterator::new(&init, HashMap::new()).unwrap();
            if let Some(f) = f {
                it = it.with_filters(f.clone());
            }
            let mut out = vec![];
            for _ in 0..story.len() + 100 {
                match it.next() {
                    Some(i) => out.push(show(&i.event_type)),
                    None => break,
                }
            }
            // Ended for good.
            out.extend(it.next().map(|i| show(&i.event_type)));
            (out, state_of(&it))
        })
    };
    let (all, final_state) = match run_with(None) {
        Ok(x) => x,
        Err(p) => return cx.violation("unfiltered/panic", &p, json!({})),
    };
    let want: Vec<J> = story.iter().map(|(l, e)| show_ev(*l, e)).collect();
    cx.expect_eq("unfiltered", &all, &want, || json!({}));
    par_for(jobs, |&(player_id, min_loop, max_loop, n, include_stats)| {
        for &max_events in maxes {
            // The quick tier combines the event limit with one loop filter at a time.
            if !cx.thorough && max_events.is_some() && min_loop.is_some() && max_loop.is_some() {
                continue;
            }
            let f = SC2ReplayFilters { player_id, unit_tag: None, min_loop, max_loop, event_type: None, unit_name: n.map(String::from), max_events, include_stats };
            let want: Vec<J> = story.iter().filter(|(l, e)| passes(&f, *l, e)).take(max_events.unwrap_or(usize::MAX)).map(|(l, e)| show_ev(*l, e)).collect();
            cx.steps(story.len() as u64);
            cx.trace();
            cx.state_bytes(format!("{f:?}").as_bytes());
            let replay = || json!({"filters": f});
            match run_with(Some(&f)) {
                Ok((got, st)) => {
                    if got != want {
                        let extra = got.iter().find(|x| !want.contains(x));
                        let missing = want.iter().find(|x| !got.contains(x));
                        let key = match (extra, missing) {
                            (Some(_), _) => "lets-through",
                            (None, Some(_)) => "drops",
                            _ => "order",
                        };
                        cx.violation(key, &format!("{} events, want {}; extra {extra:?}; missing {missing:?}", got.len(), want.len()), replay());
                    }
                    // Filters select what is reported, the state sees every event.
                    if max_events.is_none() && st != final_state {
                        cx.violation("state", "the final state is not that of the unfiltered iteration", replay());
                    }
                }
                Err(p) => cx.violation("panic", &p, replay()),
            }
        }
    });
    cx.phase(name, json!({"filter combinations": jobs.len() * maxes.len(), "events": story.len()}));
}

pub fn run(cx: &Ctx) {
    let scratch = Scratch::new();
    let players = [None, Some(0u8), Some(1), Some(2), Some(9), Some(255)];
    let loops = [None, Some(i64::MIN), Some(-1), Some(0), Some(1), Some(4), Some(7), Some(8), Some(9), Some(i64::MAX)];
    let names = [None, Some("Probe"), Some("Nexus"), Some("probe"), Some("")];
    let maxes: Vec<Option<usize>> = std::iter::once(None).chain((0..=cx.pick(6, 31)).map(Some)).chain([Some(28), Some(29), Some(30), Some(usize::MAX)]).collect();
    let mut jobs = vec![];
    for p in players {
        for lo in loops {
            for hi in loops {
                for n in names {
                    for s in [false, true] {
                        jobs.push((p, lo, hi, n, s));
                    }
                }
            }
        }
    }
    tell(cx, &scratch, "every kind", story(), &jobs, &maxes);
    // Every kind after every kind, in one long replay.
    let s = story();
    let long: Vec<(i64, Ev)> = de_bruijn(s.len(), 2).iter().enumerate().map(|(i, e)| (i as i64 / 3, s[*e].1.clone())).collect();
    let end = long.last().unwrap().0;
    let mut jobs: Vec<Job> = vec![];
    for p in [None, Some(1u8), Some(2)] {
        for (lo, hi) in [(None, None), (Some(end / 2), None), (None, Some(end / 3)), (Some(100), Some(end - 1))] {
            for n in [None, Some("Probe")] {
                jobs.extend([(p, lo, hi, n, false), (p, lo, hi, n, true)]);
            }
        }
    }
    let maxes = [None, Some(1), Some(255), Some(256), Some(257), Some(500), Some(long.len() - 1), Some(long.len()), Some(long.len() + 1)];
    tell(cx, &scratch, "long", long, &jobs, &maxes);
    cx.sample(json!({"player_id": 1, "min_loop": 2, "max_loop": 6, "unit_name": "Probe", "max_events": 3, "include_stats": true}));
    names_to_players(cx);
    // The counter by itself: it stays at the end once it is there.
    for n in [None, Some(0usize), Some(1), Some(2), Some(usize::MAX)] {
        let got = guard(|| {
            let mut f = SC2ReplayFilters { max_events: n, ..Default::default() };
            let a = f.is_max_event_reached();
            f.decrease_allowed_event_counter();
            (a, f.max_events, f.is_max_event_reached())
        });
        cx.trace();
        let less = n.map(|n| n.saturating_sub(1));
        cx.expect_eq("counter", &got, &Ok((n == Some(0), less, less == Some(0))), || json!(n));
    }
}

/// The state without the filters' effect, comparable.
fn state_of(it: &SC2EventIterator) -> String {
    let s = &it.sc2_state;
    let mut k: Vec<_> = s.units.keys().copied().collect();
    k.sort_unstable();
    let units: Vec<_> = k.iter().map(|k| MUnit::of(&s.units[k])).collect();
    let mut u: Vec<_> = s.user_state.iter().map(|(k, v)| (*k, v.control_groups.clone(), (v.camera_pos.x, v.camera_pos.y), v.player_lobby_details.tracker_setup_player_id)).collect();
    u.sort_by_key(|u| u.0);
    format!("{units:?} {u:?}")
}

fn names_to_players(cx: &Ctx) {
    use s2protocol::details::{Details, PlayerDetails};
    let slots = [None, Some(0u8), Some(1), Some(15)];
    for a in slots {
        for b in slots {
            for was in [None, Some(3u8)] {
                for ask in ["Ann", "Bob", "ann", "", "Cid", "Ann ", " Bob", "An", "Anna"] {
                    let mut d = Details::default();
                    for (n, s) in [("Ann", a), ("Bob", b)] {
                        d.player_list.push(PlayerDetails { name: n.into(), working_set_slot_id: s, ..Default::default() });
                    }
                    let mut f = SC2ReplayFilters { player_id: was, ..Default::default() };
                    f.set_player_id_from_user_name(ask, &d);
                    let want = match ask {
                        "Ann" => a,
                        "Bob" => b,
                        _ => was,
                    };
                    cx.steps(1);
                    cx.trace();
                    cx.expect_eq("player-from-name", &f.player_id, &want, || json!({"slots": [a, b], "name": ask}));
                }
            }
        }
    }
}
