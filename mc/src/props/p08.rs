//! Damaged streams: every truncation and every small corruption of every kind of record.
use super::*;
use crate::choose::explore;
use crate::fx::*;
use crate::rp;
use crate::sm;
use crate::spec::*;
use s2protocol::game_events::*;
use s2protocol::tracker_events::*;
use s2protocol::{InitData, SC2EventIterator, SC2EventType};
use serde_json::json;
use std::collections::HashMap;
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Tracker,
    Game,
    Message,
    Details,
    Init,
    Header,
}
use Kind::*;

impl Kind {
    fn file(self) -> &'static str {
        match self {
            Tracker => "replay.tracker.events",
            Game => "replay.game.events",
            Message => "replay.message.events",
            Details => "replay.details",
            Init => "replay.initData",
            Header => "",
        }
    }
}

/// What a reader makes of the bytes: the number of records, or a refusal.
fn read(kind: Kind, build: u32, bytes: &[u8]) -> Result<Option<usize>, String> {
    guard(|| {
        let (contents, mpq) = match kind {
            Header => {
                let b = crate::mpq::build(Some(bytes), &[]);
                let m = crate::mpq::parse(&b);
                (b, m)
            }
            k => archive(build, &[(k.file(), bytes)]),
        };
        match kind {
            Tracker => s2protocol::read_tracker_events("x", &mpq, &contents).ok().map(|v| v.len()),
            Game => s2protocol::read_game_events("x", &mpq, &contents).ok().map(|v| v.len()),
            Message => s2protocol::read_message_events("x", &mpq, &contents).ok().map(|v| v.len()),
            Details => s2protocol::details::Details::new("x", 1, &mpq, &contents).ok().map(|_| 1),
            Init => InitData::new("x", 1, &mpq, &contents).ok().map(|_| 1),
            Header => {
                let h = s2protocol::read_protocol_header(&mpq).ok().map(|_| 1);
                let _ = s2protocol::read_tracker_events("x", &mpq, &contents).is_ok();
                let _ = s2protocol::read_game_events("x", &mpq, &contents).is_ok();
                let _ = s2protocol::read_message_events("x", &mpq, &contents).is_ok();
                let _ = s2protocol::read_details("x", &mpq, &contents).is_ok();
                let _ = s2protocol::read_init_data("x", &mpq, &contents).is_ok();
                h
            }
        }
    })
}

/// The loops of the events the iterators give, each applied to a state on the way.
fn iterate(kind: Kind, build: u32, bytes: &[u8], state: bool) -> Result<Vec<i64>, String> {
    guard(|| {
        let mut out = vec![];
        let mut st = state.then(|| {
            let (mut r, _) = sm::initial(&[(0, "A"), (1, "B")]);
            for e in [sm::born(1, 1, "Probe", 1, (1, 2), None, None), sm::select(0, 10, &[sm::tag(1, 1)]), sm::setup(1, Some(0), Some(0))] {
                sm::apply(&mut r, &e, 0);
            }
            r
        });
        let (us, ab) = (HashMap::new(), HashMap::new());
        let mut t = TrackertEventIteratorState::from(bytes.to_vec());
        let mut g = GameEventIteratorState::from(bytes.to_vec());
        loop {
            let e = if kind == Tracker { t.get_next_event(build) } else { g.get_next_event(build, &us, &ab) };
            let Some(e) = e else { break };
            out.push(match &e {
                SC2EventType::Tracker { tracker_loop, .. } => *tracker_loop,
                SC2EventType::Game { game_loop, .. } => *game_loop,
            });
            if let Some(s) = &mut st {
                s.handle_transition_to_next_event(e);
            }
            assert!(out.len() <= bytes.len() + 1, "more events than bytes");
        }
        out
    })
}

/// Ends the process with a verdict when one input takes far too long.
struct Watch(Mutex<HashMap<std::thread::ThreadId, (Instant, String)>>);
static WATCH: std::sync::OnceLock<Watch> = std::sync::OnceLock::new();
fn watch() -> &'static Watch {
    WATCH.get_or_init(|| {
        std::thread::spawn(|| {
            loop {
                std::thread::sleep(Duration::from_secs(2));
                let m = watch().0.lock().unwrap();
                for (t, what) in m.values() {
                    if t.elapsed() > Duration::from_secs(40) {
                        emergency("an input is still being read after 40 seconds", what);
                    }
                }
            }
        });
        Watch(Mutex::new(HashMap::new()))
    })
}

fn watched<T>(what: impl Fn() -> String, f: impl FnOnce() -> T) -> T {
    let id = std::thread::current().id();
    let text = what();
    crate::ctx::CURRENT.with(|c| c.set((text.as_ptr(), text.len())));
    watch().0.lock().unwrap().insert(id, (Instant::now(), text.clone()));
    let r = f();
    watch().0.lock().unwrap().remove(&id);
    crate::ctx::CURRENT.with(|c| c.set((std::ptr::null(), 0)));
    r
}

struct Base {
    kind: Kind,
    build: u32,
    name: String,
    bytes: Vec<u8>,
}

fn one(cx: &Ctx, b: &Base, how: &str, bytes: &[u8]) {
    cx.steps(1);
    let replay = || json!({"kind": format!("{:?}", b.kind), "build": b.build, "record": b.name, "damage": how, "bytes": hex(bytes)});
    watched(
        || replay().to_string(),
        || {
            if let Err(p) = read(b.kind, b.build, bytes) {
                cx.violation(&format!("{:?}/{}/reader/{}", b.kind, b.name, place(&p)), &p, replay());
            }
            if matches!(b.kind, Tracker | Game) {
                if let Err(p) = iterate(b.kind, b.build, bytes, true) {
                    cx.violation(&format!("{:?}/{}/iterator/{}", b.kind, b.name, place(&p)), &p, replay());
                }
            }
        },
    );
}
fn place(p: &str) -> String {
    p.split(": ").next().unwrap_or("").rsplit('/').next().unwrap_or("").to_string()
}

fn bases(cx: &Ctx) -> Vec<Base> {
    let mut out = vec![];
    let pk = |old: bool| if old { packed75689() } else { packed() };
    for rich in [false, true] {
        let tag = if rich { "rich" } else { "plain" };
        for (i, v) in aligned().variants("ReplayTrackerEEventId").iter().enumerate() {
            explore(0, |c| {
                let e = Gen::new(rich, true).gen_variant(aligned(), c, "ReplayTrackerEEventId", i);
                let mut bytes = vec![];
                tracker_pair(0, 1, &e, &mut bytes);
                out.push(Base { kind: Tracker, build: if rich { 75689 } else { 87702 }, name: format!("{}/{tag}", v.1), bytes });
            });
        }
        for old in [false, true] {
            let build = if old { 75689 } else { 87702 };
            for (kind, en) in [(Game, "GameEEventId"), (Message, "GameEMessageId")] {
                for (i, v) in pk(old).variants(en).iter().enumerate() {
                    if old && !cx.thorough && !["ECmd", "ESetLobbySlot", "ECommandManagerState"].contains(&v.1.as_str()) {
                        continue;
                    }
                    explore(0, |c| {
                        let e = Gen::new(rich, true).gen_variant(pk(old), c, en, i);
                        let mut w = BitW::default();
                        packed_event(pk(old), en, 0, 1, 1, &e, &mut w);
                        out.push(Base { kind, build, name: format!("{}/{tag}", v.1), bytes: w.out });
                    });
                }
            }
            explore(0, |c| {
                let v = Gen::new(rich, true).gen_name(pk(old), c, "ReplaySInitData");
                out.push(Base { kind: Init, build, name: format!("init/{tag}"), bytes: packed_bytes(pk(old), "ReplaySInitData", &v) });
            });
        }
        explore(0, |c| {
            let v = Gen::new(rich, true).gen_name(aligned(), c, "GameSDetails");
            out.push(Base { kind: Details, build: 87702, name: format!("details/{tag}"), bytes: tagged("GameSDetails", &v) });
        });
        explore(0, |c| {
            let mut v = Gen::new(rich, true).gen_name(aligned(), c, "ReplaySHeader");
            v.set("m_signature", V::Bytes(SIGNATURE.to_vec()));
            out.push(Base { kind: Header, build: 0, name: format!("header/{tag}"), bytes: tagged("ReplaySHeader", &v) });
        });
    }
    let m = rp::Replay::new(87702, &[(0, "Ann"), (1, "Bob")]);
    out.push(Base { kind: Details, build: 87702, name: "details/game".into(), bytes: m.details });
    out.push(Base { kind: Init, build: 87702, name: "init/game".into(), bytes: m.init });
    out
}

pub fn run(cx: &Ctx) {
    crate::ctx::ALLOC_LIMIT.store(256 << 20, std::sync::atomic::Ordering::Relaxed);
    let bases = bases(cx);
    // (a) one damage to one record
    let mut jobs: Vec<(usize, usize)> = vec![];
    for (i, b) in bases.iter().enumerate() {
        // Long records: the positions in strides, so that the jobs are even.
        for lo in (0..b.bytes.len()).step_by(32) {
            jobs.push((i, lo));
        }
    }
    par_for(&jobs, |&(i, lo)| {
        let b = &bases[i];
        let n = b.bytes.len();
        let hi = (lo + 32).min(n);
        // Lists of values shorter in quick mode and for the long records.
        let all: Vec<u8> = if cx.thorough && n <= 400 { (0..=255).collect() } else { vec![0, 1, 2, 4, 5, 6, 7, 8, 9, 0x12, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xfe, 0xff] };
        for p in lo..hi {
            cx.state(hash_bytes(format!("{i}/{p}").as_bytes()));
            one(cx, b, &format!("cut at {p}"), &b.bytes[..p]);
            let mut vals = all.clone();
            vals.extend([b.bytes[p] ^ 1, b.bytes[p] ^ 2, b.bytes[p] ^ 0x80, b.bytes[p].wrapping_add(1), b.bytes[p].wrapping_sub(1), !b.bytes[p]]);
            vals.sort_unstable();
            vals.dedup();
            for x in vals {
                let mut m = b.bytes.clone();
                m[p] = x;
                one(cx, b, &format!("byte {p} is {x:#x}"), &m);
            }
            for len in [1usize, 2, 4, 8, 9, 10, 11, 16] {
                for fill in [0xffu8, 0x80, 0xfe, 0] {
                    // overwritten, and inserted
                    let mut m = b.bytes.clone();
                    for q in p..(p + len).min(n) {
                        m[q] = fill;
                    }
                    one(cx, b, &format!("{len} bytes from {p} are {fill:#x}"), &m);
                    let mut m = b.bytes.clone();
                    m.splice(p..p, std::iter::repeat_n(fill, len));
                    one(cx, b, &format!("{len} bytes {fill:#x} inserted at {p}"), &m);
                }
                let mut m = b.bytes.clone();
                m.drain(p..(p + len).min(n));
                one(cx, b, &format!("{len} bytes from {p} are missing"), &m);
            }
        }
    });
    cx.phase("damages", json!({"records": bases.len(), "bytes": bases.iter().map(|b| b.bytes.len()).sum::<usize>(), "per_byte": "cut, substitutions, runs overwritten / inserted / removed (1..16 bytes)"}));
    // (b) every short string of bytes as a whole stream
    let deep = cx.pick(2usize, 3);
    let mut shorts: Vec<(Kind, u32, u8)> = vec![];
    for (k, builds) in [(Tracker, &[87702u32][..]), (Game, &[75689, 87702]), (Message, &[87702]), (Details, &[87702]), (Init, &[87702]), (Header, &[0])] {
        for &b in builds {
            shorts.extend((0..=255u8).map(|x| (k, b, x)));
        }
    }
    par_for(&shorts, |&(kind, build, first)| {
        let b = Base { kind, build, name: "short".into(), bytes: vec![] };
        if first == 0 {
            one(cx, &b, "empty", &[]);
        }
        one(cx, &b, "short", &[first]);
        for x in 0..=255u8 {
            one(cx, &b, "short", &[first, x]);
            if deep > 2 && matches!(kind, Game | Message) {
                for y in 0..=255u8 {
                    one(cx, &b, "short", &[first, x, y]);
                }
            }
        }
    });
    cx.states_add(65536 * 7);
    cx.phase("short streams", json!({"length": deep, "streams": shorts.len() * 257}));
    // (c) a stream that is cut gives exactly the events before the cut
    cuts(cx);
    // (d) archives that lack files
    missing(cx);
    crate::ctx::ALLOC_LIMIT.store(0, std::sync::atomic::Ordering::Relaxed);
}

fn cuts(cx: &Ctx) {
    for (kind, build) in [(Tracker, 87702u32), (Game, 87702), (Game, 75689)] {
        let m = rp::module(build);
        let en = "GameEEventId";
        let n = if kind == Tracker { aligned().variants("ReplayTrackerEEventId").len() } else { m.variants(en).len() };
        let pairs: Vec<(usize, usize)> = (0..n).flat_map(|a| [(a, (a + 1) % n), (a, a)]).collect();
        par_for(&pairs, |&(a, b)| {
            for rich in [false, true] {
                let mut bytes = vec![];
                let mut ends = vec![];
                let mut known = vec![];
                for (i, v) in [a, b, a].into_iter().enumerate() {
                    explore(0, |c| {
                        if kind == Tracker {
                            let e = Gen::new(rich, true).gen_variant(aligned(), c, "ReplayTrackerEEventId", v);
                            tracker_pair(0, 1 + i as u32, &e, &mut bytes);
                            known.push(p03::agnostic(&e).is_some());
                        } else {
                            let e = Gen::new(rich, true).gen_variant(m, c, en, v);
                            let mut w = BitW::default();
                            packed_event(m, en, 0, 1 + i as u32, 1, &e, &mut w);
                            bytes.extend(w.out);
                            known.push(p04::agnostic(m, &e).is_some());
                        }
                    });
                    ends.push(bytes.len());
                }
                for cut in 0..=bytes.len() {
                    cx.steps(1);
                    cx.trace();
                    let part = &bytes[..cut];
                    let whole = ends.iter().filter(|e| **e <= cut).count();
                    let loops = [1i64, 3, 6];
                    let want: Vec<i64> = (0..whole).filter(|i| known[*i]).map(|i| loops[i]).collect();
                    let replay = || json!({"kind": format!("{kind:?}"), "build": build, "events": [a, b, a], "cut": cut, "bytes": hex(part)});
                    let key = format!("{kind:?}/cut");
                    match iterate(kind, build, part, false) {
                        Ok(got) => {
                            cx.expect_eq(&format!("{key}/iterator"), &got, &want, replay);
                        }
                        Err(p) => cx.violation(&format!("{key}/iterator-panic"), &p, replay()),
                    }
                    let clean = cut == 0 || ends.contains(&cut);
                    match read(kind, build, part) {
                        Ok(got) => {
                            cx.expect_eq(&format!("{key}/reader"), &got, &clean.then_some(want.len()), replay);
                        }
                        Err(p) => cx.violation(&format!("{key}/reader-panic"), &p, replay()),
                    }
                }
            }
        });
    }
    cx.phase("cut streams", json!("every cut of three event streams of every kind: the iterators give the events before the cut, the readers refuse a cut event"));
}

fn missing(cx: &Ctx) {
    let s = rp::Scratch::new();
    let mut r = rp::Replay::new(87702, &[(0, "Ann")]);
    r.push(&[(1, sm::born(1, 1, "Probe", 1, (1, 2), None, None)), (2, sm::select(0, 10, &[sm::tag(1, 1)]))]);
    let init = {
        let p = s.file("whole.SC2Replay", &r.bytes());
        InitData::try_from((p, 0)).unwrap()
    };
    let files: [(&str, &[u8]); 5] = [("replay.tracker.events", &r.tracker), ("replay.game.events", &r.game), ("replay.message.events", &[]), ("replay.details", &r.details), ("replay.initData", &r.init)];
    for set in 0..32u32 {
        for header in [true, false] {
            let chosen: Vec<(&str, &[u8])> = files.iter().enumerate().filter(|(i, _)| set >> i & 1 == 1).map(|(_, f)| *f).collect();
            let h = header_bytes();
            let bytes = crate::mpq::build(header.then_some(&h[..]), &chosen);
            let mpq = crate::mpq::parse(&bytes);
            let has = |i: u32| set >> i & 1 == 1 && header;
            let p = s.file("part.SC2Replay", &bytes);
            let mut init = init.clone();
            init.ext_fs_file_name = p.to_str().unwrap().into();
            let got = guard(|| {
                vec![
                    ("tracker", s2protocol::read_tracker_events("x", &mpq, &bytes).is_ok(), has(0)),
                    ("game", s2protocol::read_game_events("x", &mpq, &bytes).is_ok(), has(1)),
                    ("message", s2protocol::read_message_events("x", &mpq, &bytes).is_ok(), has(2)),
                    ("details", s2protocol::read_details("x", &mpq, &bytes).is_ok(), has(3)),
                    ("init", s2protocol::read_init_data("x", &mpq, &bytes).is_ok(), has(4)),
                    ("init file", InitData::try_from((p.clone(), 3)).is_ok(), has(4)),
                    ("details file", s2protocol::details::Details::try_from(&init).is_ok(), has(3)),
                    ("iterator", SC2EventIterator::new(&init, HashMap::new()).is_ok(), has(0) && has(1) && has(3)),
                ]
            });
            cx.steps(8);
            cx.trace();
            let replay = || json!({"present": chosen.iter().map(|c| c.0).collect::<Vec<_>>(), "header": header});
            match got {
                Ok(v) => {
                    for (n, got, want) in v {
                        cx.expect_eq(&format!("missing/{n}"), &got, &want, replay);
                    }
                }
                Err(p) => cx.violation("missing/panic", &p, replay()),
            }
        }
    }
    // Files that are no archive, and that are not there.
    for (n, data) in [("empty", &b""[..]), ("text", b"not a replay at all, but long enough to hold a header of one, really"), ("magic", b"MPQ\x1b"), ("gone", b"")] {
        let p = s.file("odd.SC2Replay", data);
        if n == "gone" {
            std::fs::remove_file(&p).unwrap();
        }
        cx.steps(1);
        match guard(|| InitData::try_from((p.clone(), 0)).is_ok()) {
            Ok(got) => {
                cx.expect_eq(&format!("missing/{n}"), &got, &false, || json!({"file": n}));
            }
            // What the container parser does with an archive that is itself damaged is its own affair.
            Err(p) if n != "gone" && p.contains("nom-mpq") => {}
            Err(p) => cx.violation(&format!("missing/{n}/panic"), &p, json!({"file": n})),
        }
    }
}
fn header_bytes() -> Vec<u8> {
    header(87702)
}
