//! The merged iteration of both event streams: every pair of short streams.
use super::p04;
use crate::choose::explore;
use crate::ctx::*;
use crate::fx::*;
use crate::rp::*;
use crate::sm::*;
use crate::spec::*;
use s2protocol::tracker_events::ReplayTrackerEvent;
use s2protocol::{InitData, SC2EventIterator, SC2EventType};
use serde_json::json;
use std::collections::HashMap;

/// Who, loop, number: what identifies an event in these streams.
type Id = (char, i64, i64, Option<String>);

pub fn ids_of(it: SC2EventIterator, limit: usize) -> Vec<Id> {
    let mut out = vec![];
    let mut it = it;
    for _ in 0..limit {
        match it.next() {
            None => {
                // Once it has ended it stays so.
                for _ in 0..2 {
                    if let Some(e) = it.next() {
                        out.push(('!', -1, -1, Some(format!("{e:?}"))));
                    }
                }
                break;
            }
            Some(i) if i.is_tracker_event() != matches!(i.event_type, SC2EventType::Tracker { .. }) || i.is_game_event() == i.is_tracker_event() => {
                out.push(('?', -1, -1, Some("it is said to be of the other stream".into())))
            }
            Some(i) => out.push(match i.event_type {
                SC2EventType::Tracker { tracker_loop, event } => match event {
                    ReplayTrackerEvent::Upgrade(u) => ('T', tracker_loop, u.count as i64, None),
                    e => ('?', tracker_loop, 0, Some(format!("{e:?}"))),
                },
                SC2EventType::Game { game_loop, player_name, event, .. } => match event {
                    s2protocol::game_events::ReplayGameEvent::CameraSave(c) => ('G', game_loop, c.m_target.x, player_name),
                    e => ('?', game_loop, 0, Some(format!("{e:?}"))),
                },
            }),
        }
    }
    out
}

/// One of the users has no name, two look on.
const PLAYERS: [(i64, &str); 5] = [(0, "Ann"), (3, "Bob"), (5, ""), (6, "Obs"), (9, "Ref")];

struct World {
    scratch: Scratch,
    base: HashMap<u32, (Replay, InitData)>,
    tracker: V,
    camera: HashMap<u32, V>,
    skipped: HashMap<u32, V>,
}

fn world(builds: &[u32]) -> World {
    let scratch = Scratch::new();
    let mut base = HashMap::new();
    let (mut camera, mut skipped) = (HashMap::new(), HashMap::new());
    for b in builds {
        let r = Replay::new(*b, &PLAYERS);
        let p = scratch.file(&format!("base{b}.SC2Replay"), &r.bytes());
        base.insert(*b, (r, InitData::try_from((p, 7)).unwrap()));
        let m = module(*b);
        let Ev::G(_, c) = cam_save(0, 0, 0) else { panic!() };
        camera.insert(*b, wire_game(m, &c));
        let i = m.variants("GameEEventId").iter().position(|v| v.1 == "EUserFinishedLoadingSync").unwrap();
        let mut s = None;
        explore(0, |c| s = Some(Gen::new(false, true).gen_variant(m, c, "GameEEventId", i)));
        skipped.insert(*b, s.unwrap());
    }
    let Ev::T(u) = upgrade(1) else { panic!() };
    World { scratch, base, tracker: wire_tracker(&u), camera, skipped }
}

fn set_in(v: &mut V, path: &[&str], i: i128) {
    match v {
        V::New(v) => set_in(v, path, i),
        V::Enum(_, _, Some(p)) => set_in(p, path, i),
        V::Struct(f) if !path.is_empty() => set_in(&mut f.iter_mut().find(|x| x.0 == path[0]).unwrap().1, &path[1..], i),
        V::Int(x) if path.is_empty() => *x = i,
        v => panic!("{v:?}"),
    }
}

/// Game stream: delta, user, whether the kind is one that is reported.
fn check(cx: &Ctx, key: &str, w: &World, build: u32, t: &[u32], g: &[(u32, i64, bool)]) {
    let m = module(build);
    let (base, init) = &w.base[&build];
    let mut r = base.clone();
    let mut want: Vec<(i64, u8, usize, Id)> = vec![];
    let mut l = 0i64;
    for (i, d) in t.iter().enumerate() {
        l += *d as i64;
        let mut v = w.tracker.clone();
        set_in(&mut v, &["m_count"], i as i128 + 1);
        tracker_pair(width_of(*d), *d, &v, &mut r.tracker);
        want.push((l, 0, i, ('T', l, i as i64 + 1, None)));
    }
    let mut bits = BitW::default();
    l = 0;
    for (i, (d, u, shown)) in g.iter().enumerate() {
        l += *d as i64;
        let v = if *shown {
            let mut v = w.camera[&build].clone();
            // the field has sixteen bits
            let id = (i as i128 + 1) & 0xffff;
            set_in(&mut v, &["m_target", "x"], id);
            let name = PLAYERS.iter().find(|n| n.0 == *u).map(|n| n.1.to_string());
            want.push((l, 1, i, ('G', l, id as i64, name)));
            v
        } else {
            w.skipped[&build].clone()
        };
        packed_event(m, "GameEEventId", width_of(*d), *d, *u, &v, &mut bits);
    }
    r.game = bits.out;
    want.sort_by_key(|x| (x.0, x.1, x.2));
    let want: Vec<Id> = want.into_iter().map(|x| x.3).collect();
    let p = w.scratch.file(&format!("{:?}.SC2Replay", std::thread::current().id()).replace(['(', ')'], ""), &r.bytes());
    let mut init = init.clone();
    init.ext_fs_file_name = p.to_str().unwrap().into();
    cx.steps((t.len() + g.len()) as u64);
    cx.trace();
    cx.state_bytes(&[&r.tracker[..], b"|", &r.game, &build.to_le_bytes()].concat());
    let replay = || json!({"build": build, "tracker deltas": t, "game (delta, user, reported kind)": format!("{g:?}")});
    match guard(|| SC2EventIterator::new(&init, HashMap::new()).map(|it| ids_of(it, t.len() + g.len() + 3))) {
        Ok(Ok(got)) => {
            if got != want {
                let mut a = got.clone();
                let mut b = want.clone();
                a.sort();
                b.sort();
                let what = if a == b { "order" } else { "completeness" };
                cx.expect_eq(&format!("{key}/{what}"), &got, &want, replay);
            }
        }
        Ok(Err(e)) => cx.violation(&format!("{key}/refused"), &format!("{e:?}"), replay()),
        Err(p) => cx.violation(&format!("{key}/panic"), &p, replay()),
    }
}

fn lists(alpha: &[u32], max: usize) -> Vec<Vec<u32>> {
    let mut all = vec![vec![]];
    let mut level: Vec<Vec<u32>> = vec![vec![]];
    for _ in 0..max {
        level = level
            .iter()
            .flat_map(|l| {
                alpha.iter().map(move |a| {
                    let mut l = l.clone();
                    l.push(*a);
                    l
                })
            })
            .collect();
        all.extend(level.iter().cloned());
    }
    all
}

/// One tracker and one game event of every pair of kinds, at the same loop and next to each other.
fn kinds(cx: &Ctx, w: &World, build: u32) {
    let m = module(build);
    let variants = |m: &Module, en: &str| -> Vec<V> {
        (0..m.variants(en).len())
            .filter(|i| m.variants(en)[*i].2.is_some())
            .map(|i| {
                let mut v = None;
                explore(0, |c| v = Some(Gen::new(false, true).gen_variant(m, c, en, i)));
                v.unwrap()
            })
            .collect()
    };
    let (tracker, game) = (variants(aligned(), "ReplayTrackerEEventId"), variants(m, "GameEEventId"));
    let (base, init) = &w.base[&build];
    let pairs: Vec<(usize, usize)> = (0..tracker.len()).flat_map(|t| (0..game.len()).map(move |g| (t, g))).collect();
    par_for(&pairs, |&(t, g)| {
        let shown = p04::agnostic(m, &game[g]).is_some();
        for (tl, gl) in [(0u32, 0u32), (9, 9), (10, 9), (9, 10), (0, 1), (1, 0)] {
            let mut r = base.clone();
            // Twice each, the second with no distance to the first.
            for d in [tl, 0] {
                tracker_pair(width_of(d), d, &tracker[t], &mut r.tracker);
            }
            let mut bits = BitW::default();
            for d in [gl, 0] {
                packed_event(m, "GameEEventId", width_of(d), d, 3, &game[g], &mut bits);
            }
            r.game = bits.out;
            let mut want = vec![(tl as i64, 'T'); 2];
            if shown {
                want.extend([(gl as i64, 'G'); 2]);
            }
            want.sort_by_key(|x| (x.0, x.1 == 'G'));
            let p = w.scratch.file(&format!("{:?}.SC2Replay", std::thread::current().id()).replace(['(', ')'], ""), &r.bytes());
            let mut init = init.clone();
            init.ext_fs_file_name = p.to_str().unwrap().into();
            cx.steps(4);
            cx.trace();
            cx.state_bytes(&[&r.tracker[..], b"|", &r.game, &build.to_le_bytes()].concat());
            let replay = || json!({"build": build, "tracker": format!("{:?}", tracker[t]), "game": format!("{:?}", game[g]), "loops": [tl, gl]});
            let got = guard(|| {
                SC2EventIterator::new(&init, HashMap::new()).map(|it| {
                    it.take(9)
                        .map(|i| match i.event_type {
                            SC2EventType::Tracker { tracker_loop, .. } => (tracker_loop, 'T'),
                            SC2EventType::Game { game_loop, .. } => (game_loop, 'G'),
                        })
                        .collect::<Vec<_>>()
                })
            });
            match got {
                Ok(Ok(got)) => {
                    cx.expect_eq("kinds", &got, &want, replay);
                }
                Ok(Err(e)) => cx.violation("kinds/refused", &format!("{e:?}"), replay()),
                Err(p) => cx.violation("kinds/panic", &p, replay()),
            }
        }
    });
    cx.phase(&format!("kinds of build {build}"), json!({"pairs": pairs.len(), "loops": 6}));
}

pub fn run(cx: &Ctx) {
    let builds = cx.pick(vec![87702u32, 75689], vec![15405, 75689, 75690, 87702, u32::MAX]);
    let w = world(&builds);
    for &build in &builds {
        // All pairs of streams over small loops, where ties abound.
        let t = lists(&[0, 1, 2], cx.pick(4, 5));
        let g = t.clone();
        par_for(&t, |t| {
            for g in &g {
                let g: Vec<_> = g.iter().enumerate().map(|(i, d)| (*d, [6i64, 0, 9, 3, 7, 5][(i + g.len()) % 6], true)).collect();
                check(cx, "small", &w, build, t, &g);
            }
        });
        // Game events of kinds that are not reported in between; their delta counts.
        let t = lists(&[0, 1], 3);
        let g = lists(&[0, 1, 2, 3], cx.pick(3, 4));
        par_for(&t, |t| {
            for g in &g {
                let g: Vec<_> = g.iter().map(|x| (x & 1, 0i64, x & 2 == 0)).collect();
                check(cx, "skipped-kinds", &w, build, t, &g);
            }
        });
        // Loops beyond the precision of single floats, and every width of a delta.
        let big = [0u32, 1, 63, 64, 16384, (1 << 24) + 1, (1 << 30) - 1];
        let t = lists(&big, cx.pick(2, 3));
        par_for(&t, |t| {
            for g in lists(&big, 2) {
                let g: Vec<_> = g.iter().map(|d| (*d, 3i64, true)).collect();
                check(cx, "large-loops", &w, build, t, &g);
            }
        });
        kinds(cx, &w, build);
        // Long streams.
        let n = cx.pick(if build == 87702 { 36_000 } else { 400 }, 36_000);
        let t: Vec<u32> = (0..n).map(|i| [0, 3, 0, 16, 1][i % 5]).collect();
        let g: Vec<_> = (0..n * 2).map(|i| ([0, 0, 2, 1, 7, 0, 0][i % 7], (i % 16) as i64, i % 11 != 0)).collect();
        check(cx, "long", &w, build, &t, &g);
        // Many events in a row that are not reported.
        let g: Vec<_> = (0..70_000).map(|i| (i % 2, 5, i < 3 || i > 69_996)).collect();
        check(cx, "long-gap", &w, build, &[0, 1, 40_000, 3], &g);
        // Loops beyond 32 bits, in one stream or in both.
        for (a, b) in [(0usize, 12usize), (12, 0), (1, 12), (12, 1), (12, 12), (11, 12), (12, 11)] {
            for (x, y) in [((1u32 << 30) - 1, (1u32 << 30) - 1), ((1 << 29) + 5, (1 << 30) - 1), ((1 << 30) - 1, (1 << 29) + 7)] {
                let t: Vec<u32> = (0..a * 2).map(|i| if i % 2 == 0 { x } else { (i % 3) as u32 }).collect();
                let g: Vec<_> = (0..b * 2).map(|i| (if i % 2 == 0 { y } else { (i % 5) as u32 }, 3i64, i % 7 != 6)).collect();
                check(cx, "beyond-32-bits", &w, build, &t, &g);
            }
        }
        cx.phase(&format!("build {build}"), json!({"small": "all pairs of delta lists over {0,1,2}", "length": cx.pick(4, 5)}));
    }
    // The first events of both streams at the same loop: a single case to read.
    cx.sample(json!({"tracker deltas": [0, 1], "game deltas": [0, 0, 1], "order": "T0 G0 G0 T1 G1"}));
}
