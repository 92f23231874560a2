//! Message (chat) event streams.
use super::p03::deltas;
use crate::choose::explore;
use crate::ctx::*;
use crate::fx::*;
use crate::spec::*;
use s2protocol::message_events::ReplayMessageEvent;
use s2protocol::versions::protocol87702;
use serde_json::{Value as J, json};

pub const EN: &str = "GameEMessageId";

pub fn agnostic(ev: &V) -> Option<J> {
    let V::Enum(_, n, p) = ev else { panic!() };
    if n != "EChat" {
        return None;
    }
    let p = p.as_ref().unwrap();
    let V::Enum(_, r, _) = p.field("m_recipient") else { panic!() };
    let b = p.field("m_string").bytes().to_vec();
    let b = if b.is_empty() { empty_bits().clone() } else { b };
    Some(json!({"EChat": {"m_recipient": r, "m_string": String::from_utf8(b).ok()?}}))
}

fn one(cx: &Ctx, ev: &V, width: usize, delta: u32, user: i64) {
    let m = packed();
    let V::Enum(_, key, _) = ev else { panic!() };
    let mut w = BitW::default();
    packed_event(m, EN, width, delta, user, ev, &mut w);
    let bytes = w.out;
    let want = debug_of(m, EN, ev);
    let wantj = agnostic(ev);
    let mut padded = bytes.clone();
    padded.extend([0xff, 0x5a, 0x00]);
    let replay = || json!({"bytes": hex(&bytes), "event": want});
    for (data, rest) in [(&bytes, 0usize), (&padded, 3)] {
        cx.steps(1);
        let got = guard(|| {
            protocol87702::bit_packed::GameEMessageId::parse_event_triplet((data, 0)).map(|((t, b), (d, u, e))| {
                let s = format!("{e:?}");
                (t.len(), b, d, u, s, ReplayMessageEvent::try_from(e).ok().map(|e| serde_json::to_value(&e).unwrap()))
            })
        });
        match got {
            Ok(Ok((t, b, d, u, s, j))) => {
                cx.expect_eq(&format!("{key}/tail"), &(t, b), &(rest, 0), replay);
                cx.expect_eq(&format!("{key}/head"), &(d, u), &(delta as i64, user), replay);
                cx.expect_eq(&format!("{key}/decoded"), &s, &want, replay);
                cx.expect_eq(&format!("{key}/agnostic"), &j, &wantj, replay);
            }
            Ok(Err(e)) => cx.violation(&format!("{key}/refused"), &format!("{e:?}"), replay()),
            Err(p) => cx.violation(&format!("{key}/panic"), &p, replay()),
        }
    }
    cx.trace();
    cx.state_bytes(&bytes);
}

fn stream(cx: &Ctx, key: &str, evs: &[(usize, u32, i64, V)], build: u32) {
    let mut w = BitW::default();
    for (wd, d, u, e) in evs {
        packed_event(packed(), EN, *wd, *d, *u, e, &mut w);
    }
    let bytes = w.out;
    let want: Vec<(i64, i64, J)> = evs.iter().filter_map(|(_, d, u, e)| agnostic(e).map(|j| (*d as i64, *u, j))).collect();
    let replay = || json!({"build": build, "stream": hex(&bytes)});
    let (contents, mpq) = archive(build, &[("replay.message.events", &bytes)]);
    cx.steps(evs.len() as u64);
    cx.trace();
    match guard(|| s2protocol::read_message_events("x", &mpq, &contents)) {
        Ok(Ok(v)) => {
            let got: Vec<(i64, i64, J)> = v.iter().map(|e| (e.delta, e.user_id, serde_json::to_value(&e.event).unwrap())).collect();
            cx.expect_eq(&format!("{key}/reader"), &got, &want, replay);
        }
        Ok(Err(e)) => cx.violation(&format!("{key}/reader-error"), &format!("{e:?}"), replay()),
        Err(p) => cx.violation(&format!("{key}/reader-panic"), &p, replay()),
    }
}

pub fn run(cx: &Ctx) {
    let m = packed();
    let vars = m.variants(EN);
    let jobs: Vec<(usize, bool)> = (0..vars.len()).flat_map(|i| [(i, false), (i, true)]).collect();
    par_for(&jobs, |&(i, rich)| {
        explore(if rich { 2 } else { 4 }, |c| {
            let v = Gen::new(rich, false).gen_variant(m, c, EN, i);
            let d = deltas();
            let (w, d) = d[c.choose(d.len())];
            let d = [d & 0x3f, d & 0x3fff, d & 0x3f_ffff, d][w];
            let u = c.choose(32) as i64;
            one(cx, &v, w, d, u);
        });
    });
    // chat texts of every length the format can hold, every bit offset being fixed by the format
    let lens: Vec<usize> = (0..2048).collect();
    par_for(&lens, |&l| {
        for r in 0..5 {
            let mut v = default_of(m, EN);
            let V::Enum(_, _, Some(p)) = &mut v else { panic!() };
            let vs = m.variants("GameEMessageRecipient");
            p.set("m_recipient", V::Enum(vs[r].0, vs[r].1.clone(), None));
            p.set("m_string", V::New(Box::new(V::Bytes((0..l).map(|i| b' ' + (i % 90) as u8).collect()))));
            one(cx, &v, r % 4, 7, (l % 32) as i64);
        }
    });
    // sequences
    let mut evs = vec![];
    for i in 0..vars.len() {
        explore(if i == 0 { 1 } else { 0 }, |c| evs.push(Gen::new(false, false).gen_variant(m, c, EN, i)));
    }
    let builds = [0u32, 75689, 75690, 87702, 91115, 95000, u32::MAX];
    let depth = cx.pick(3, 4);
    let first: Vec<usize> = (0..evs.len()).collect();
    par_for(&first, |&f| {
        let mut n = 0usize;
        for len in 1..=depth {
            explore(0, |c| {
                let ds = [(0usize, 0u32), (0, 63), (1, 300), (2, 70000), (3, 4_000_000_000)];
                let s: Vec<_> = (0..len)
                    .map(|i| {
                        let e = if i == 0 { f } else { c.free(evs.len()) };
                        let (w, d) = ds[(n + i * 2) % ds.len()];
                        (w, d, ((n + i * 5) % 32) as i64, evs[e].clone())
                    })
                    .collect();
                let bs: Vec<u32> = if len <= 2 { builds.to_vec() } else { vec![builds[n % builds.len()]] };
                for b in bs {
                    stream(cx, &format!("stream{len}"), &s, b);
                }
                n += 1;
            });
        }
        cx.states_add(n as u64);
    });
    for b in builds {
        stream(cx, "empty", &[], b);
        let s: Vec<_> = (0..cx.pick(if b == 87702 { 66_000usize } else { 2000 }, 66_000)).map(|i| (3, (i * 31) as u32, (i % 32) as i64, evs[i % evs.len()].clone())).collect();
        stream(cx, "long", &s, b);
    }
    cx.phase("bounds", json!({"kinds": vars.len(), "deviations": 4, "sequence_depth": depth, "alphabet": evs.len(), "chat lengths": "0..2047"}));
    cx.sample(json!({"event": debug_of(m, EN, &evs[0]), "agnostic": agnostic(&evs[0])}));
}
