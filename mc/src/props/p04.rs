//! Game event streams, bit packed: every event kind of both protocol generations.
use super::p03::deltas;
use crate::choose::explore;
use crate::ctx::*;
use crate::fx::*;
use crate::spec::*;
use s2protocol::SC2EventType;
use s2protocol::game_events::{GameEventIteratorState, ReplayGameEvent};
use s2protocol::versions::{protocol75689, protocol87702};
use serde_json::{Value as J, json};
use std::collections::HashMap;

pub const EN: &str = "GameEEventId";
pub const SUPPORTED: [&str; 21] = [
    "EDropUser", "ECameraSave", "ECmd", "ESelectionDelta", "EControlGroupUpdate", "ESelectionSyncCheck", "ETriggerChatMessage", "EUnitClick",
    "EUnitHighlight", "ETriggerReplySelected", "ECameraUpdate", "ETriggerMouseClicked", "ETriggerMouseMoved", "ETriggerHotkeyPressed",
    "ETriggerTargetModeUpdate", "ETriggerKeyPressed", "ETriggerMouseWheel", "ETriggerButtonPressed", "ECommandManagerState", "ECmdUpdateTargetPoint",
    "ECmdUpdateTargetUnit",
];

fn text(b: &[u8]) -> Result<String, Vec<u8>> {
    let b = if b.is_empty() { empty_bits().clone() } else { b.to_vec() };
    String::from_utf8(b.clone()).map_err(|_| b)
}

/// The version agnostic rendering; None when the kind is not one of the supported ones.
pub fn agnostic(m: &Module, ev: &V) -> Option<J> {
    let V::Enum(_, name, p) = ev else { panic!() };
    if !SUPPORTED.contains(&name.as_str()) {
        return None;
    }
    let t = m.variants(EN).into_iter().find(|v| v.1 == *name).unwrap().2.unwrap();
    Some(json!({name.strip_prefix('E').unwrap(): plain(m, &t, p.as_ref().unwrap(), "")}))
}
fn plain(m: &Module, t: &T, v: &V, name: &str) -> J {
    match (t, v) {
        (T::Ref(n), _) => plain(m, m.get(n), v, n),
        (T::New(t), v) => {
            let v = if let V::New(v) = v { v } else { v };
            let inner = plain(m, t, v, name);
            match name {
                "GameSelectionMaskType" | "GameSelectionIndexArrayType" => json!({"value": inner}),
                _ => inner,
            }
        }
        (T::Struct(f), V::Struct(vs)) => {
            let mut o = serde_json::Map::new();
            for ((n, t, _, _), (_, v)) in f.iter().zip(vs) {
                o.insert(n.clone(), plain(m, t, v, ""));
                if n == "m_abil_link" {
                    o.insert("ability".into(), json!(""));
                }
            }
            J::Object(o)
        }
        (T::Enum { v: vars, .. }, V::Enum(_, n, p)) => {
            let n2 = if name == "ELeaveReason" { n.strip_prefix('E').unwrap() } else { n };
            match (&vars.iter().find(|x| x.1 == *n).unwrap().2, p) {
                (Some(T::Null), _) | (None, _) => json!(n2),
                (Some(t), Some(p)) => json!({n2: plain(m, t, p, "")}),
                _ => unreachable!(),
            }
        }
        (T::Opt(_), V::Opt(None)) => J::Null,
        (T::Opt(t), V::Opt(Some(v))) => plain(m, t, v, ""),
        (T::Arr { e, .. }, V::Arr(a)) => J::Array(a.iter().map(|v| plain(m, e, v, "")).collect()),
        (T::Blob { .. }, V::Bytes(b)) => json!(text(b).unwrap_or_else(|b| format!("InvalidUTF8({b:?})"))),
        (_, V::BitBytes(b, _)) => json!(if b.is_empty() { empty_bits() } else { b }),
        (_, V::Int(i)) => json!(*i as i64),
        (_, V::Bool(b)) => json!(b),
        (t, v) => panic!("{v:?} as {t:?}"),
    }
}

type Dec = Result<(usize, usize, i64, i64, String, Option<J>), String>;
fn decode(old: bool, data: &[u8]) -> Result<Dec, String> {
    let conv = |e: Result<ReplayGameEvent, _>| {
        let _: &Result<_, s2protocol::S2ProtocolError> = &e;
        e.ok().map(|e| serde_json::to_value(&e).unwrap())
    };
    guard(|| {
        if old {
            protocol75689::bit_packed::GameEEventId::parse_event_triplet((data, 0))
                .map(|((t, b), (d, u, e))| (t.len(), b, d, u, format!("{e:?}"), conv(e.try_into())))
                .map_err(|e| format!("{e:?}"))
        } else {
            protocol87702::bit_packed::GameEEventId::parse_event_triplet((data, 0))
                .map(|((t, b), (d, u, e))| (t.len(), b, d, u, format!("{e:?}"), conv(e.try_into())))
                .map_err(|e| format!("{e:?}"))
        }
    })
}

fn one(cx: &Ctx, old: bool, key: &str, ev: &V, width: usize, delta: u32, user: i64) {
    let m = if old { packed75689() } else { packed() };
    let mut w = BitW::default();
    packed_event(m, EN, width, delta, user, ev, &mut w);
    let bytes = w.out;
    let want = debug_of(m, EN, ev);
    let wantj = agnostic(m, ev);
    let replay = || json!({"old": old, "bytes": hex(&bytes), "event": want});
    let mut padded = bytes.clone();
    padded.extend([0xff, 0x5a, 0x00]);
    for (data, rest) in [(&bytes, 0usize), (&padded, 3)] {
        cx.steps(1);
        match decode(old, data) {
            Ok(Ok((t, b, d, u, s, j))) => {
                if (t, b) != (rest, 0) {
                    cx.violation(&format!("{key}/tail"), &format!("left {t} bytes + {b} bits, want {rest}"), replay());
                }
                if d != delta as i64 || u != user {
                    cx.violation(&format!("{key}/head"), &format!("delta {d} user {u}, want {delta} {user}"), replay());
                }
                if s != want {
                    cx.violation(&format!("{key}/decoded"), &format!("got {} want {}", trunc(&s), trunc(&want)), replay());
                }
                if j != wantj {
                    cx.violation(&format!("{key}/agnostic"), &format!("got {j:?} want {wantj:?}"), replay());
                }
            }
            Ok(Err(e)) => cx.violation(&format!("{key}/refused"), &e, replay()),
            Err(p) => cx.violation(&format!("{key}/panic"), &p, replay()),
        }
    }
    cx.trace();
    cx.state(hash_bytes(&bytes) ^ old as u64);
}

fn stream(cx: &Ctx, key: &str, evs: &[(usize, u32, i64, V)], build: u32) {
    let m = if build <= 75689 { packed75689() } else { packed() };
    let mut w = BitW::default();
    for (wd, d, u, e) in evs {
        packed_event(m, EN, *wd, *d, *u, e, &mut w);
    }
    let bytes = w.out;
    let want: Vec<(i64, i64, J)> = evs.iter().filter_map(|(_, d, u, e)| agnostic(m, e).map(|j| (*d as i64, *u, j))).collect();
    let mut l = 0i64;
    let mut wanti: Vec<(i64, i64, J)> = vec![];
    for (_, d, u, e) in evs {
        l += *d as i64;
        if let Some(j) = agnostic(m, e) {
            wanti.push((l, *u, j));
        }
    }
    let replay = || json!({"build": build, "stream": hex(&bytes)});
    let (contents, mpq) = archive(build, &[("replay.game.events", &bytes)]);
    cx.steps(2 * evs.len() as u64);
    cx.trace();
    match guard(|| s2protocol::read_game_events("x", &mpq, &contents)) {
        Ok(Ok(v)) => {
            let got: Vec<(i64, i64, J)> = v.iter().map(|e| (e.delta, e.user_id, serde_json::to_value(&e.event).unwrap())).collect();
            cx.expect_eq(&format!("{key}/reader"), &got, &want, replay);
        }
        Ok(Err(e)) => cx.violation(&format!("{key}/reader-error"), &format!("{e:?}"), replay()),
        Err(p) => cx.violation(&format!("{key}/reader-panic"), &p, replay()),
    }
    match guard(|| {
        let mut it = GameEventIteratorState::from(bytes.clone());
        let (us, ab) = (HashMap::new(), HashMap::new());
        let mut got = vec![];
        while let Some(e) = it.get_next_event(build, &us, &ab) {
            match e {
                SC2EventType::Game { game_loop, user_id, player_name: None, event } => got.push((game_loop, user_id, serde_json::to_value(&event).unwrap())),
                e => got.push((-1, -1, json!(format!("{e:?}")))),
            }
            if got.len() > evs.len() + 2 {
                break;
            }
        }
        got
    }) {
        Ok(got) => {
            cx.expect_eq(&format!("{key}/iterator"), &got, &wanti, replay);
        }
        Err(p) => cx.violation(&format!("{key}/iterator-panic"), &p, replay()),
    }
}

pub fn run(cx: &Ctx) {
    // (a) deviations from a default event, in both generations
    let mut jobs: Vec<(bool, usize, usize, bool)> = vec![];
    for old in [false, true] {
        let m = if old { packed75689() } else { packed() };
        for (i, v) in m.variants(EN).iter().enumerate() {
            let k = if cx.thorough && v.1 != "ESelectionDelta" { 3 } else { 2 };
            jobs.push((old, i, k, false));
            jobs.push((old, i, 1, true));
        }
    }
    jobs.sort_by_key(|j| std::cmp::Reverse(j.2));
    par_for(&jobs, |&(old, i, k, rich)| {
        let m = if old { packed75689() } else { packed() };
        let name = &m.variants(EN)[i].1;
        let key = format!("{}/{name}", if old { "75689" } else { "87702" });
        explore(k, |c| {
            let v = Gen::new(rich, false).gen_variant(m, c, EN, i);
            let d = deltas();
            let (w, d) = d[c.choose(d.len())];
            let us = [0i64, 1, 2, 15, 16, 31];
            let u = us[c.choose(us.len())];
            // a bit packed delta has exactly the bits of its width
            let d = [d & 0x3f, d & 0x3fff, d & 0x3f_ffff, d][w];
            one(cx, old, &key, &v, w, d, u);
        });
    });
    // (b) all sequences over an alphabet of supported and unsupported kinds
    for build in cx.pick(&[75689u32, 87702][..], &[15405, 75689, 75690, 87702, 91115, u32::MAX][..]) {
        let m = if *build <= 75689 { packed75689() } else { packed() };
        let mut evs = vec![];
        let names = ["ECmd", "ESelectionDelta", "EControlGroupUpdate", "ECameraUpdate", "EUserOptions", "EUserFinishedLoadingSync", "ESetLobbySlot", "ETriggerChatMessage", "EDropUser", "ECommandManagerState", "EGameUserLeave", "ECameraSave"];
        for n in names {
            let i = m.variants(EN).iter().position(|v| v.1 == n).unwrap();
            explore(0, |c| evs.push(Gen::new(false, true).gen_variant(m, c, EN, i)));
        }
        let depth = cx.pick(3, 4);
        let first: Vec<usize> = (0..evs.len()).collect();
        par_for(&first, |&f| {
            let mut n = 0usize;
            for len in 1..=depth {
                explore(0, |c| {
                    let ds = [(0usize, 0u32), (0, 63), (1, 300), (2, 70000), (3, 4_000_000_000)];
                    let s: Vec<_> = (0..len)
                        .map(|i| {
                            let e = if i == 0 { f } else { c.free(evs.len()) };
                            let (w, d) = ds[(n + i * 2) % ds.len()];
                            (w, d, [0i64, 1, 16, 31][(n + i) % 4], evs[e].clone())
                        })
                        .collect();
                    stream(cx, &format!("{build}/stream{len}"), &s, *build);
                    n += 1;
                });
            }
            cx.states_add(n as u64);
        });
        let s: Vec<_> = (0..cx.pick(1500usize, 10000)).map(|i| (3, (i * 31) as u32, (i % 32) as i64, evs[i % evs.len()].clone())).collect();
        stream(cx, "long", &s, *build);
        let s: Vec<_> = (0..66_000usize).map(|i| (0, (i % 64) as u32, (i % 17) as i64, evs[[5, 4, 6][i % 3]].clone())).collect();
        stream(cx, "longer", &s, *build);
    }
    for build in [0u32, 75689, 75690, 87702] {
        stream(cx, "empty", &[], build);
    }
    // (c) generation edges: the commands' flags are one bit narrower up to 75689
    for build in [0u32, 1, 15405, 75688, 75689, 75690, 76114, 83830, 84643, 86383, 87702, 88500, 89165, 89634, 89720, 90136, 90779, 90870, 91115, 92028, 1 << 20, u32::MAX] {
        let m = if build <= 75689 { packed75689() } else { packed() };
        let i = m.variants(EN).iter().position(|v| v.1 == "ECmd").unwrap();
        explore(1, |c| {
            let v = Gen::new(false, true).gen_variant(m, c, EN, i);
            stream(cx, "edge", &[(0, 1, 0, v.clone()), (1, 77, 3, v)], build);
        });
    }
    cx.phase("bounds", json!({"event kinds": packed().variants(EN).len(), "deviations": cx.pick(2, 3), "sequence_depth": cx.pick(3, 4)}));
    cx.sample(json!({"kinds": packed().variants(EN).iter().map(|v| v.1.clone()).collect::<Vec<_>>()}));
}
