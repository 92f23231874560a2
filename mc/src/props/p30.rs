//! Saved iterations: at every point of every short history the iterator is saved, by cloning it and
//! by writing it out and reading it back, and every copy has to go on like the original.
use super::*;
use crate::choose::explore;
use crate::fx::*;
use crate::rp::*;
use crate::sm::*;
use crate::spec::*;
use s2protocol::filters::SC2ReplayFilters;
use s2protocol::game_events::{GameEventIteratorState, VersionedBalanceUnit};
use s2protocol::state::*;
use s2protocol::tracker_events::TrackertEventIteratorState;
use s2protocol::*;
use serde::{Serialize, de::DeserializeOwned};
use serde_json::json;
use std::collections::HashMap;

/// Written out and read back.
fn again<T: Serialize + DeserializeOwned>(x: &T) -> Result<T, String> {
    let s = serde_json::to_string(x).map_err(|e| format!("not written: {e}"))?;
    serde_json::from_str(&s).map_err(|e| format!("not read back: {e}"))
}

/// An item; the units of a hint are a set.
pub fn show_item(i: &SC2EventIteratorItem) -> String {
    let mut h = i.change_hint.clone();
    match &mut h {
        UnitChangeHint::Positions(v) | UnitChangeHint::TargetPoints(v) | UnitChangeHint::Selection(v) => v.sort(),
        UnitChangeHint::TargetUnits { units, .. } | UnitChangeHint::Abilities { units, .. } => units.sort(),
        _ => {}
    }
    format!("{:?} {h:?}", i.event_type)
}

/// The whole state; groups are sets.
pub fn show_state(s: &SC2ReplayState) -> String {
    let mut units: Vec<_> = s.units.iter().collect();
    units.sort_by_key(|u| *u.0);
    let mut users: Vec<_> = s.user_state.iter().map(|(k, v)| (*k, v.clone())).collect();
    users.sort_by_key(|u| u.0);
    for u in &mut users {
        u.1.control_groups.iter_mut().for_each(|g| g.sort_unstable());
    }
    let mut balance: Vec<_> = s.balance_units.iter().collect();
    balance.sort_by_key(|b| b.0.clone());
    format!("{units:?} {users:?} {:?} {:?} {balance:?}", s.details, s.init_data)
}

fn rest(mut it: SC2EventIterator) -> (Vec<String>, String) {
    let mut out = vec![];
    for _ in 0..100 {
        match it.next() {
            Some(i) => out.push(show_item(&i)),
            None => break,
        }
    }
    // The end stays the end.
    out.extend(it.next().map(|i| format!("after the end {}", show_item(&i))));
    (out, show_state(&it.sc2_state))
}

type Units = HashMap<(u32, String), VersionedBalanceUnit>;

#[allow(clippy::too_many_arguments)]
fn history(cx: &Ctx, scratch: &Scratch, base: &Replay, init: &InitData, units: &Units, evs: &[(i64, Ev)], filters: &[Option<SC2ReplayFilters>], from: usize) {
    let mut r = base.clone();
    r.push(evs);
    let p = scratch.file(&format!("{:?}.SC2Replay", std::thread::current().id()).replace(['(', ')'], ""), &r.bytes());
    let mut init = init.clone();
    init.ext_fs_file_name = p.to_str().unwrap().into();
    for f in filters {
        let replay = || json!({"events": evs.iter().map(|e| format!("{e:?}")).collect::<Vec<_>>(), "filters": format!("{f:?}")});
        let got = guard(|| {
            let fresh = || {
                let it = SC2EventIterator::new(&init, units.clone()).unwrap();
                match f {
                    Some(f) => it.with_filters(f.clone()),
                    None => it,
                }
            };
            let (whole, end) = rest(fresh());
            let mut bad: Vec<(&str, String)> = vec![];
            let mut it = fresh();
            for k in 0..=whole.len() {
                if k >= from {
                    // A copy of a copy as well: what is lost has to be lost at once.
                    let written = again(&it).and_then(|i| again(&i));
                    for (how, copy) in [("clone", Ok(it.clone())), ("written", written)] {
                        cx.steps((whole.len() - k) as u64 + 1);
                        cx.trace();
                        match copy {
                            Ok(c) => {
                                let now = (show_state(&c.sc2_state), show_state(&it.sc2_state));
                                if now.0 != now.1 {
                                    bad.push((how, format!("saved after {k} events, the state is {} want {}", now.0, now.1)));
                                }
                                let (r, e) = rest(c);
                                if r != whole[k..] {
                                    bad.push((how, format!("saved after {k} events, it goes on with {r:?} want {:?}", &whole[k..])));
                                } else if e != end {
                                    bad.push((how, format!("saved after {k} events, it ends in {e} want {end}")));
                                }
                            }
                            Err(e) => bad.push((how, e)),
                        }
                    }
                }
                cx.state_bytes(format!("{k}{evs:?}{f:?}").as_bytes());
                // The original goes on undisturbed.
                match it.next() {
                    Some(i) => {
                        let s = show_item(&i);
                        if whole.get(k) != Some(&s) {
                            bad.push(("original", format!("{s} want {:?}", whole.get(k))));
                        }
                        match again(&i) {
                            Ok(j) if show_item(&j) == s => {}
                            Ok(j) => bad.push(("item", format!("{} want {s}", show_item(&j)))),
                            Err(e) => bad.push(("item", e)),
                        }
                    }
                    None if k == whole.len() => {}
                    None => bad.push(("original", format!("ended after {k} events"))),
                }
            }
            bad
        });
        match got {
            Ok(bad) => bad.iter().for_each(|(k, w)| cx.violation(&format!("resume/{k}"), &trunc(w), replay())),
            Err(p) => cx.violation("resume/panic", &p, replay()),
        }
    }
}

fn filters() -> Vec<Option<SC2ReplayFilters>> {
    let f = || SC2ReplayFilters { include_stats: true, ..Default::default() };
    let mut v = vec![None];
    for n in [1, 2, 4, 6] {
        v.push(Some(SC2ReplayFilters { max_events: Some(n), ..f() }));
    }
    v.push(Some(SC2ReplayFilters { min_loop: Some(15), max_loop: Some(16), ..f() }));
    v.push(Some(SC2ReplayFilters { player_id: Some(1), max_events: Some(3), ..f() }));
    v.push(Some(SC2ReplayFilters { unit_name: Some("Marine".into()), ..Default::default() }));
    v
}

/// One value: read from the wire, written out and read back.
fn value<T: Serialize + DeserializeOwned + Clone + std::fmt::Debug>(cx: &Ctx, key: &str, x: &T) {
    let want = format!("{x:?}");
    cx.steps(1);
    cx.trace();
    cx.state_bytes(want.as_bytes());
    match guard(|| again(x).map(|y| (format!("{y:?}"), format!("{:?}", x.clone())))) {
        Ok(Ok((got, cloned))) => {
            if got != want {
                cx.violation(&format!("value/{key}"), &format!("came back as {} want {}", trunc(&got), trunc(&want)), json!(want));
            }
            if cloned != want {
                cx.violation(&format!("clone/{key}"), &format!("cloned as {} want {}", trunc(&cloned), trunc(&want)), json!(want));
            }
        }
        Ok(Err(e)) => cx.violation(&format!("value/{key}"), &e, json!(want)),
        Err(p) => cx.violation(&format!("value/{key}/panic"), &p, json!(want)),
    }
}

/// The iterators of one stream, saved between any two events.
fn stream<S: Clone + Serialize + DeserializeOwned + From<Vec<u8>>>(cx: &Ctx, key: &str, bytes: &[u8], next: &dyn Fn(&mut S) -> Option<String>) {
    let rest = |mut s: S| {
        let mut v = vec![];
        while let Some(e) = next(&mut s) {
            v.push(e);
            if v.len() > 100 {
                break;
            }
        }
        v
    };
    let r = guard(|| {
        let whole = rest(S::from(bytes.to_vec()));
        let mut it = S::from(bytes.to_vec());
        for k in 0..=whole.len() {
            let w = again(&it)?;
            for (how, c) in [("clone", it.clone()), ("written", w)] {
                cx.steps((whole.len() - k) as u64);
                cx.trace();
                let got = rest(c);
                if got != whole[k..] {
                    return Err(format!("{how}: saved after {k} events, it goes on with {got:?} want {:?}", &whole[k..]));
                }
            }
            next(&mut it);
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => cx.violation(&format!("{key}/resume"), &trunc(&e), json!(hex(bytes))),
        Err(p) => cx.violation(&format!("{key}/resume-panic"), &p, json!(hex(bytes))),
    }
}

pub fn run(cx: &Ctx) {
    let scratch = Scratch::new();
    // (a) the iterator of a replay
    let a = p17::alphabet();
    for build in [87702u32, 75689] {
        let base = Replay::new(build, &p17::PLAYERS);
        let p = scratch.file(&format!("base{build}.SC2Replay"), &base.bytes());
        let init = InitData::try_from((p, 0xfedc_ba98_7654_3210)).unwrap();
        let units = p17::versions(build);
        let open = p17::world();
        let at = [14i64, 16, 1000, 1000];
        let depth = if build == 87702 { cx.pick(2, 3) } else { cx.pick(1, 2) };
        let mut seqs: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..depth {
            seqs = seqs.iter().flat_map(|s| (0..a.len()).map(move |i| s.iter().copied().chain([i]).collect())).collect();
        }
        let fs = filters();
        par_for(&seqs, |s| {
            let mut evs: Vec<(i64, Ev)> = open.iter().map(|e| (0, e.clone())).collect();
            evs.extend(s.iter().enumerate().map(|(i, e)| (at[i], a[*e].clone())));
            // The opening is saved at every point once, with the first event that follows it.
            history(cx, &scratch, &base, &init, &units, &evs, &fs[..1], if s[1..].iter().all(|x| *x == 0) { 0 } else { open.len() - 1 });
            if s.len() < 2 || s[1] % 5 == s[0] % 5 || cx.thorough && s.len() == 2 {
                history(cx, &scratch, &base, &init, &units, &evs, &fs[1..], 0);
            }
        });
        cx.phase(&format!("histories {build}"), json!({"alphabet": a.len(), "depth": depth, "sequences": seqs.len(), "filters": fs.len()}));
    }
    // (b) all that is read, for every kind of event and every field
    let jobs: Vec<(char, usize, bool)> = [('t', aligned().variants("ReplayTrackerEEventId").len()), ('g', packed().variants("GameEEventId").len()), ('o', packed75689().variants("GameEEventId").len()), ('m', packed().variants("GameEMessageId").len())]
        .iter()
        .flat_map(|(k, n)| (0..*n).flat_map(move |i| [(*k, i, false), (*k, i, true)]))
        .collect();
    par_for(&jobs, |&(kind, i, rich)| {
        explore(1, |c| match kind {
            't' => {
                let v = Gen::new(rich, true).gen_variant(aligned(), c, "ReplayTrackerEEventId", i);
                let mut b = vec![];
                tracker_pair(1, 300, &v, &mut b);
                let (contents, mpq) = archive(87702, &[("replay.tracker.events", &b)]);
                if let Ok(Ok(v)) = guard(|| read_tracker_events("x", &mpq, &contents)) {
                    v.iter().for_each(|e| value(cx, "tracker event", e));
                }
            }
            'g' | 'o' => {
                let (m, build) = if kind == 'g' { (packed(), 87702) } else { (packed75689(), 75689) };
                let v = Gen::new(rich, false).gen_variant(m, c, "GameEEventId", i);
                let mut w = BitW::default();
                packed_event(m, "GameEEventId", 1, 300, 3, &v, &mut w);
                let (contents, mpq) = archive(build, &[("replay.game.events", &w.out)]);
                if let Ok(Ok(v)) = guard(|| read_game_events("x", &mpq, &contents)) {
                    v.iter().for_each(|e| value(cx, "game event", e));
                }
            }
            _ => {
                let v = Gen::new(rich, false).gen_variant(packed(), c, "GameEMessageId", i);
                let mut w = BitW::default();
                packed_event(packed(), "GameEMessageId", 1, 300, 3, &v, &mut w);
                let (contents, mpq) = archive(87702, &[("replay.message.events", &w.out)]);
                if let Ok(Ok(v)) = guard(|| read_message_events("x", &mpq, &contents)) {
                    v.iter().for_each(|e| value(cx, "message event", e));
                }
            }
        });
    });
    let parts = ["SUserInitialData", "GameSGameDescription", "GameSLobbyState", "GameSLobbySlot"];
    let jobs: Vec<(usize, bool, &str)> = (0..6).flat_map(|i| parts.map(|p| (i / 2, i % 2 == 1, p))).filter(|j| j.0 > 0 || j.2 == parts[0]).collect();
    par_for(&jobs, |&(what, rich, part)| {
        let mut n = 0;
        explore(1, |c| {
            n += 1;
            match what {
                0 => {
                    let ps = vec![Gen::new(rich, false).gen_name(aligned(), c, "GameSPlayerDetails")];
                    let v = with(Gen::new(rich, false).gen_name(aligned(), c, "GameSDetails"), &[("m_player_list", V::Opt(Some(Box::new(V::Arr(ps)))))]);
                    let (contents, mpq) = archive(87702, &[("replay.details", &tagged("GameSDetails", &v))]);
                    if let Ok(Ok(d)) = guard(|| read_details("x", &mpq, &contents)) {
                        value(cx, "details", &d);
                    }
                }
                w => {
                    let (m, build) = if w == 1 { (packed(), 87702) } else { (packed75689(), 75689) };
                    let v = p07::whole(m, part, vec![Gen::new(rich, false).gen_name(m, c, part)]);
                    let (contents, mpq) = archive(build, &[("replay.initData", &packed_bytes(m, "ReplaySInitData", &v))]);
                    if let Ok(Ok(d)) = guard(|| read_init_data("x", &mpq, &contents)) {
                        value(cx, "initial data", &d);
                    }
                }
            }
        });
        cx.phase(&format!("records {what} {rich} {part}"), json!({"values": n}));
    });
    for f in filters().into_iter().flatten() {
        value(cx, "filters", &f);
    }
    // (c) the iterators of one stream
    let mut alpha: Vec<V> = vec![];
    for i in 0..aligned().variants("ReplayTrackerEEventId").len() {
        explore(0, |c| alpha.push(Gen::new(false, true).gen_variant(aligned(), c, "ReplayTrackerEEventId", i)));
    }
    let n = alpha.len();
    let seqs: Vec<usize> = (0..n.pow(3)).collect();
    par_for(&seqs, |&s| {
        let mut b = vec![];
        for (i, x) in [s / n / n, s / n % n, s % n].into_iter().enumerate() {
            let d = [5u32, 70, 0][i];
            tracker_pair(width_of(d), d, &alpha[x], &mut b);
        }
        stream::<TrackertEventIteratorState>(cx, "tracker", &b, &|i| i.get_next_event(87702).map(|e| format!("{e:?}")));
    });
    for (m, build) in [(packed(), 87702u32), (packed75689(), 75689)] {
        let n = m.variants("GameEEventId").len();
        let mut alpha: Vec<V> = vec![];
        for i in 0..n {
            explore(0, |c| alpha.push(Gen::new(false, false).gen_variant(m, c, "GameEEventId", i)));
        }
        let seqs: Vec<usize> = (0..n * n).collect();
        par_for(&seqs, |&s| {
            let mut w = BitW::default();
            for (i, x) in [s / n, s % n, s / n].into_iter().enumerate() {
                let d = [5u32, 70, 0][i];
                packed_event(m, "GameEEventId", width_of(d), d, [0, 3, 7][i], &alpha[x], &mut w);
            }
            let (users, none) = (HashMap::new(), HashMap::new());
            stream::<GameEventIteratorState>(cx, "game", &w.out, &|i| i.get_next_event(build, &users, &none).map(|e| format!("{e:?}")));
        });
    }
    cx.phase("streams", json!({"tracker": "all sequences of three kinds", "game": "all pairs of kinds and back, both generations"}));
}
