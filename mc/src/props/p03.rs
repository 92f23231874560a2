//! Tracker event streams: every variant, every field deviation, every presence, field orders,
//! delta widths, sequences, both protocol generations, vector reader and iterator.
use crate::choose::explore;
use crate::ctx::*;
use crate::fx::*;
use crate::spec::*;
use s2protocol::SC2EventType;
use s2protocol::tracker_events::{ReplayTrackerEvent, TrackertEventIteratorState};
use s2protocol::versions::{protocol75689, protocol87702};
use serde_json::{Value as J, json};

const EN: &str = "ReplayTrackerEEventId";

/// The version agnostic rendering of a decoded event; None when its text is not valid UTF-8 in a
/// field whose text the event cannot do without.
pub fn agnostic(ev: &V) -> Option<J> {
    let V::Enum(_, name, Some(p)) = ev else { panic!() };
    let V::Struct(fields) = &**p else { panic!() };
    let mut o = serde_json::Map::new();
    for (n, v) in fields {
        let k = if name == "EPlayerSetup" && n == "m_type" { "m_type" } else { n.strip_prefix("m_").unwrap() };
        let j = match (name.as_str(), n.as_str()) {
            ("EPlayerStats", "m_stats") => {
                let V::Struct(s) = v else { panic!() };
                let mut o = serde_json::Map::new();
                for (n, v) in s {
                    let k = n.strip_prefix("m_score_value_").unwrap();
                    let x = v.int() as i64;
                    o.insert(k.into(), json!(if k.starts_with("food_") { x / 4096 } else { x }));
                }
                J::Object(o)
            }
            ("EUpgrade", "m_upgrade_type_name") => {
                let b = v.bytes();
                json!(String::from_utf8(b.to_vec()).unwrap_or_else(|_| format!("{b:?}")))
            }
            _ => plain(v)?,
        };
        o.insert(k.into(), j);
    }
    if name == "EUpgrade" {
        o.insert("player_name".into(), J::Null);
    }
    Some(json!({name.strip_prefix('E').unwrap(): o}))
}
fn plain(v: &V) -> Option<J> {
    Some(match v {
        V::Int(i) => json!(*i as i64),
        V::Bool(b) => json!(b),
        V::Bytes(b) => json!(String::from_utf8(b.clone()).ok()?),
        V::Opt(None) | V::Absent => J::Null,
        V::Opt(Some(v)) | V::New(v) => plain(v)?,
        V::Arr(a) => J::Array(a.iter().map(plain).collect::<Option<_>>()?),
        v => panic!("{v:?}"),
    })
}

fn decode_one(cx: &Ctx, key: &str, ev: &V, width: usize, delta: u32) {
    let mut bytes = vec![];
    tracker_pair(width, delta, ev, &mut bytes);
    check_bytes(cx, key, ev, delta, &bytes);
}

fn check_bytes(cx: &Ctx, key: &str, ev: &V, delta: u32, bytes: &[u8]) {
    let want = debug_of(aligned(), EN, ev);
    let wantj = agnostic(ev);
    let mut padded = bytes.to_vec();
    padded.extend([0x03, 0xff, 0x09]);
    let replay = || json!({"bytes": hex(bytes), "event": want});
    // the decoder of one pair, with and without following data
    for (data, rest) in [(bytes, 0usize), (&padded[..], 3)] {
        let mut listed = None;
        let got = guard(|| {
            protocol87702::byte_aligned::ReplayTrackerEEventId::parse_event_pair(data).map(|(t, (d, e))| (t.len(), d, format!("{e:?}"), ReplayTrackerEvent::try_from(e).ok().map(|e| {
                if let ReplayTrackerEvent::PlayerStats(s) = &e {
                    listed = Some(s.stats.as_prop_name_value_vec());
                }
                serde_json::to_value(&e).unwrap()
            })))
        });
        cx.steps(1);
        match got {
            Ok(Ok((t, d, s, j))) => {
                if t != rest {
                    cx.violation(&format!("{key}/tail"), &format!("left {t} bytes, want {rest}"), replay());
                }
                if d != delta {
                    cx.violation(&format!("{key}/delta"), &format!("delta {d} want {delta}"), replay());
                }
                if s != want {
                    cx.violation(&format!("{key}/decoded"), &format!("got {} want {}", trunc(&s), trunc(&want)), replay());
                }
                if let Some(listed) = listed {
                    check_listed(cx, key, listed, &wantj, &replay);
                }
                if j != wantj {
                    cx.violation(&format!("{key}/agnostic"), &format!("got {j:?} want {wantj:?}"), replay());
                }
            }
            Ok(Err(e)) => cx.violation(&format!("{key}/refused"), &format!("{e:?}"), replay()),
            Err(p) => cx.violation(&format!("{key}/panic"), &p, replay()),
        }
    }
    cx.trace();
    cx.state_bytes(bytes);
}

/// The statistics as a list of entity paths and values: each one exactly once, under its own path.
fn check_listed(cx: &Ctx, key: &str, mut listed: Vec<(String, i32)>, wantj: &Option<J>, replay: &dyn Fn() -> J) {
    let Some(J::Object(stats)) = wantj.as_ref().map(|j| j["PlayerStats"]["stats"].clone()) else { return };
    let mut want: Vec<(String, i32)> = stats
        .iter()
        .map(|(k, v)| {
            let path = match k.split_once('_') {
                Some((r @ ("minerals" | "vespene" | "food"), rest)) => format!("{r}/{rest}"),
                _ => k.clone(),
            };
            (path, v.as_i64().unwrap() as i32)
        })
        .collect();
    want.sort();
    listed.sort();
    if listed != want {
        cx.violation(&format!("{key}/listed"), &format!("the list of statistics is {listed:?} want {want:?}"), replay());
    }
}

/// A stream of events through the vector reader and the iterator, for one base build.
fn stream(cx: &Ctx, key: &str, evs: &[(usize, u32, V)], build: u32) {
    let mut bytes = vec![];
    for (w, d, e) in evs {
        tracker_pair(*w, *d, e, &mut bytes);
    }
    let want: Vec<(u32, J)> = evs.iter().filter_map(|(_, d, e)| agnostic(e).map(|j| (*d, j))).collect();
    let replay = || json!({"stream": hex(&bytes), "build": build});
    let (contents, mpq) = archive(build, &[("replay.tracker.events", &bytes)]);
    cx.steps(evs.len() as u64 * 2);
    cx.trace();
    match guard(|| s2protocol::read_tracker_events("x", &mpq, &contents)) {
        Ok(Ok(v)) => {
            let got: Vec<(u32, J)> = v.iter().map(|e| (e.delta, serde_json::to_value(&e.event).unwrap())).collect();
            cx.expect_eq(&format!("{key}/reader"), &got, &want, replay);
        }
        Ok(Err(e)) => cx.violation(&format!("{key}/reader-error"), &format!("{e:?}"), replay()),
        Err(p) => cx.violation(&format!("{key}/reader-panic"), &p, replay()),
    }
    // The iterator gives the position in loops; what it does after an event whose text it cannot
    // represent is not specified.
    let mut whole = true;
    let mut wanti: Vec<(i64, J)> = vec![];
    let mut l = 0i64;
    for (_, d, e) in evs {
        l += *d as i64;
        match agnostic(e) {
            Some(j) => wanti.push((l, j)),
            None => {
                whole = false;
                break;
            }
        }
    }
    match guard(|| {
        let mut it = TrackertEventIteratorState::from(bytes.clone());
        let mut got = vec![];
        while let Some(e) = it.get_next_event(build) {
            match e {
                SC2EventType::Tracker { tracker_loop, event } => got.push((tracker_loop, serde_json::to_value(&event).unwrap())),
                _ => got.push((-1, J::Null)),
            }
            if got.len() > evs.len() + 2 {
                break;
            }
        }
        got
    }) {
        Ok(mut got) => {
            if !whole {
                got.truncate(wanti.len());
            }
            cx.expect_eq(&format!("{key}/iterator"), &got, &wanti, replay);
        }
        Err(p) => cx.violation(&format!("{key}/iterator-panic"), &p, replay()),
    }
}

pub fn deltas() -> Vec<(usize, u32)> {
    let mut v = vec![(0, 1), (0, 0), (0, 63), (1, 64), (1, 16383), (1, 0), (2, 16384), (2, (1 << 22) - 1), (3, 1 << 22), (3, u32::MAX), (3, 0), (3, 1 << 31)];
    // tagged integers may be wider than the name of their choice says
    v.push((0, 255));
    v
}

pub fn run(cx: &Ctx) {
    let m = aligned();
    let vars = m.variants(EN);
    // the raw layout for 75689 is the same type; its own path is exercised through the streams
    let _ = protocol75689::byte_aligned::ReplayTrackerEEventId::parse_event_pair;
    // (a) deviations
    let mut jobs: Vec<(usize, usize, bool)> = vec![];
    for i in 0..vars.len() {
        let wide = vars[i].1 == "EPlayerStats";
        jobs.push((i, if wide { 1 } else { 2 }, false));
        if wide && cx.thorough {
            jobs.push((i, 2, false));
        }
        if !wide && cx.thorough {
            jobs.push((i, 3, false));
        }
        jobs.push((i, 1, true));
    }
    jobs.sort_by_key(|j| std::cmp::Reverse(j.1));
    par_for(&jobs, |&(i, k, rich)| {
        explore(k, |c| {
            let v = Gen::new(rich, false).gen_variant(m, c, EN, i);
            let d = deltas();
            let (w, d) = d[c.choose(d.len())];
            decode_one(cx, &vars[i].1, &v, w, d);
        });
    });
    // (b) field orders: fields are found by tag, in whatever order they come
    let idx: Vec<usize> = (0..vars.len()).collect();
    par_for(&idx, |&i| {
        let mut base = None;
        explore(0, |c| base = Some(Gen::new(false, true).gen_variant(m, c, EN, i)));
        let base = base.unwrap();
        let V::Enum(tag, name, Some(p)) = &base else { panic!() };
        let V::Struct(f) = &**p else { panic!() };
        let mut orders: Vec<Vec<usize>> = vec![];
        let n = f.len();
        if n <= cx.pick(5, 7) {
            permutations(n, &mut vec![], &mut orders);
        } else {
            for r in 0..n {
                orders.push((0..n).map(|x| (x + r) % n).collect());
                orders.push((0..n).rev().map(|x| (x + r) % n).collect());
            }
            for a in 0..n {
                for b in a + 1..n {
                    let mut o: Vec<usize> = (0..n).collect();
                    o.swap(a, b);
                    orders.push(o);
                }
            }
        }
        for o in orders {
            // the expected rendering does not depend on the order of the list
            let v = V::Enum(*tag, name.clone(), Some(Box::new(V::Struct(o.iter().map(|&x| f[x].clone()).collect()))));
            let mut bytes = vec![];
            tracker_pair(0, 1, &v, &mut bytes);
            check_bytes(cx, &format!("{name}/order"), &v, 1, &bytes);
        }
    });
    // (c) streams: all sequences of variants up to a depth, with boundary deltas, for both
    // protocol generations and the edges between them
    let mut evs: Vec<V> = vec![];
    for i in 0..vars.len() {
        explore(0, |c| evs.push(Gen::new(false, true).gen_variant(m, c, EN, i)));
    }
    // text that is not UTF-8 and a zero length list
    let mut bad = evs[1].clone();
    if let V::Enum(_, _, Some(p)) = &mut bad {
        p.set("m_unit_type_name", V::Bytes(vec![b'Z', 0xff]));
    }
    evs.push(bad);
    let depth = cx.pick(3, 4);
    let builds = [0u32, 15405, 75688, 75689, 75690, 83830, 87702, 91115, 95000, u32::MAX];
    let first: Vec<usize> = (0..evs.len()).collect();
    par_for(&first, |&f| {
        let mut n = 0u64;
        for len in 1..=depth {
            explore(0, |c| {
                let mut s = vec![];
                let ds = [(0usize, 0u32), (0, 5), (1, 300), (2, 70000), (3, 4_000_000_000)];
                for i in 0..len {
                    let e = if i == 0 { f } else { c.free(evs.len()) };
                    let (w, d) = ds[(n as usize + i * 2) % ds.len()];
                    s.push((w, d, evs[e].clone()));
                }
                // long sequences share the two generations round robin, short ones run on all
                let bs: &[u32] = if len <= 2 { &builds } else { &builds[3 + (n % 2) as usize..4 + (n % 2) as usize] };
                for b in bs {
                    stream(cx, &format!("stream{len}"), &s, *b);
                }
                n += 1;
            });
        }
        cx.states_add(n);
    });
    // (d) every delta pair accumulates exactly
    let ds = deltas();
    for a in &ds {
        for b in &ds {
            for e in [&evs[7], &evs[2]] {
                stream(cx, "accumulate", &[(a.0, a.1, evs[7].clone()), (b.0, b.1, e.clone()), (3, u32::MAX, e.clone())], 87702);
            }
        }
    }
    for b in builds.iter() {
        stream(cx, "empty", &[], *b);
    }
    // (e) long streams
    for n in [100usize, 1000, cx.pick(3000, 20000)] {
        let s: Vec<_> = (0..n).map(|i| (width_of((i * 7) as u32), (i * 7) as u32, evs[i % 10].clone())).collect();
        stream(cx, "long", &s, 91115);
        stream(cx, "long", &s, 75689);
    }
    cx.sample(json!({"event": debug_of(m, EN, &evs[1]), "agnostic": agnostic(&evs[1])}));
    cx.phase("bounds", json!({"deviations": "2 (1 for player stats, and for walking bits); thorough 3 (2)", "sequence_depth": depth, "alphabet": evs.len(), "builds": builds}));
}

pub fn permutations(n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    if cur.len() == n {
        out.push(cur.clone());
        return;
    }
    for i in 0..n {
        if !cur.contains(&i) {
            cur.push(i);
            permutations(n, cur, out);
            cur.pop();
        }
    }
}
