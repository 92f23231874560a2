//! Ill formed records: one thing in the structure of a record is wrong, everything else is right.
use crate::choose::{Chooser, explore};
use crate::ctx::*;
use super::{p04, p05};
use crate::fx::*;
use crate::spec::*;
use s2protocol::game_events::GameEventIteratorState;
use s2protocol::tracker_events::TrackertEventIteratorState;
use s2protocol::versions::{protocol75689, protocol87702};
use serde_json::json;
use std::collections::{HashMap, HashSet};
use std::sync::Mutex;

/// Writers that damage the structure at one place: every draw of the chooser is one place.
struct Hurt<'a, 'b> {
    m: &'a Module,
    c: &'b mut Chooser,
    /// what was done, and to which field
    what: Option<String>,
    path: Vec<String>,
}

impl Hurt<'_, '_> {
    fn at(&self, n: usize) -> bool {
        n != 0
    }
    fn did(&mut self, s: String) {
        self.what = Some(format!("{}: {s}", self.path.join(".")));
    }
    /// The type byte of a value: right, or any of the others.
    fn mark(&mut self, right: u8, out: &mut Vec<u8>) {
        let wrong: Vec<u8> = (0..=11u8).chain([0x7f, 0x80, 0xff]).filter(|x| *x != right).collect();
        let n = self.c.choose(wrong.len() + 1);
        if self.at(n) {
            self.did(format!("type {} instead of {right}", wrong[n - 1]));
        }
        out.push(if n == 0 { right } else { wrong[n - 1] });
    }
    fn tagged(&mut self, t: &T, v: &V, out: &mut Vec<u8>) {
        match (t, v) {
            (T::Ref(n), _) => self.tagged(self.m.get(n), v, out),
            (T::New(t), V::New(v)) => self.tagged(t, v, out),
            (T::Struct(f), V::Struct(vs)) => {
                self.mark(5, out);
                let present: Vec<_> = vs.iter().filter(|x| x.1 != V::Absent).collect();
                let tags: Vec<i64> = f.iter().map(|x| x.2).collect();
                let top = tags.iter().max().copied().unwrap_or(0);
                let strange: Vec<i64> = [-1, top + 1, top + 256, i64::from(u32::MAX) + 1].into_iter().chain((0..top).filter(|t| !tags.contains(t))).collect();
                // one field too few, one twice, one that no such record has
                let mut list: Vec<(i64, &T, &V)> = present
                    .iter()
                    .map(|(n, v)| {
                        let x = f.iter().find(|x| x.0 == *n).unwrap();
                        (x.2, &x.1, v)
                    })
                    .collect();
                let required: Vec<usize> = (0..present.len()).filter(|i| f.iter().find(|x| x.0 == present[*i].0).unwrap().3 == Presence::Req).collect();
                // a field that says it has no value can be given again
                let again: Vec<usize> = (0..present.len()).filter(|i| !matches!(present[*i].1, V::Opt(None))).collect();
                let spots = [0, list.len() / 2, list.len()];
                let mut k = self.c.choose(1 + required.len() + again.len() * 2 + strange.len() * 3);
                let mut extra: Option<(usize, i64)> = None;
                if k > 0 {
                    k -= 1;
                    if k < required.len() {
                        let i = required[k];
                        list.remove(i);
                        self.did(format!("{} is missing", present[i].0));
                    } else if k - required.len() < again.len() * 2 {
                        let k = k - required.len();
                        let i = again[k / 2];
                        let at = if k % 2 == 0 { i + 1 } else { list.len() };
                        let x = list[i];
                        list.insert(at, x);
                        self.did(format!("{} comes twice", present[i].0));
                    } else {
                        let k = k - required.len() - again.len() * 2;
                        extra = Some((spots[k % 3], strange[k / 3]));
                        self.did(format!("unknown field {}", strange[k / 3]));
                    }
                }
                // a number of fields that is one more than there are, or far too large
                let lie = if extra.is_none() { self.c.choose(4) } else { 0 };
                let n = list.len() as i128 + extra.is_some() as i128;
                if lie > 0 {
                    self.did(format!("{n} fields said to be others ({lie})"));
                }
                vlq(n + [0, 1, 1 << 40, -n - 1][lie], out);
                for (i, (tag, t, v)) in list.iter().enumerate() {
                    if let Some((at, tag)) = extra
                        && at == i
                    {
                        vlq(tag as i128, out);
                        out.extend([9, 2]);
                    }
                    vlq(*tag as i128, out);
                    self.path.push(f.iter().find(|x| x.2 == *tag).unwrap().0.clone());
                    self.tagged(t, v, out);
                    self.path.pop();
                }
                if let Some((at, tag)) = extra
                    && at == list.len()
                {
                    vlq(tag as i128, out);
                    out.extend([9, 2]);
                }
            }
            (T::Enum { v: vars, choice, .. }, V::Enum(tag, name, p)) => {
                self.mark(if *choice { 3 } else { 9 }, out);
                let known: Vec<i64> = vars.iter().map(|x| x.0).collect();
                let top = known.iter().max().unwrap();
                let strange: Vec<i64> = [-1, top + 1, top + 64, top + 256, i64::from(u32::MAX) + 1, i64::MAX].into_iter().chain((0..*top).filter(|t| !known.contains(t))).collect();
                let k = self.c.choose(strange.len() + 1);
                if k > 0 {
                    self.did(format!("unknown alternative {}", strange[k - 1]));
                }
                vlq(if k == 0 { *tag } else { strange[k - 1] } as i128, out);
                let var = vars.iter().find(|x| x.1 == *name).unwrap();
                if let (Some(t), Some(p)) = (&var.2, p) {
                    self.path.push(name.clone());
                    self.tagged(t, p, out);
                    self.path.pop();
                }
            }
            (T::Opt(t), V::Opt(o)) => {
                self.mark(4, out);
                out.push(o.is_some() as u8);
                if let Some(v) = o {
                    self.tagged(t, v, out);
                }
            }
            (T::Arr { e, .. }, V::Arr(a)) => {
                self.mark(0, out);
                vlq(a.len() as i128, out);
                for v in a {
                    self.tagged(e, v, out);
                }
            }
            (T::TBlob, V::Bytes(b)) => {
                self.mark(2, out);
                vlq(b.len() as i128, out);
                out.extend(b);
            }
            (T::VInt(ty), V::Int(i)) => {
                self.mark(9, out);
                let (lo, hi) = match ty.as_str() {
                    "u8" => (0, u8::MAX as i128),
                    "u16" => (0, u16::MAX as i128),
                    "u32" => (0, u32::MAX as i128),
                    "i32" => (i32::MIN as i128, i32::MAX as i128),
                    "u64" => (0, i64::MAX as i128),
                    "i64" => (-(i64::MAX as i128), i64::MAX as i128),
                    t => panic!("vint {t}"),
                };
                let far: Vec<i128> = [lo - 1, hi + 1, lo - 256, hi + (1 << 32), -(1 << 62), 1 << 62, 1 << 64].into_iter().filter(|x| *x < lo || *x > hi).filter(|x| *x != i64::MIN as i128).collect();
                let k = self.c.choose(far.len() + 1);
                if k > 0 {
                    self.did(format!("{} as {ty}", far[k - 1]));
                }
                vlq(if k == 0 { *i } else { far[k - 1] }, out);
            }
            (T::TBool, V::Bool(b)) => {
                self.mark(6, out);
                out.push(*b as u8);
            }
            (T::FourCC, V::Int(i)) => {
                self.mark(7, out);
                out.extend((*i as u32).to_be_bytes());
            }
            (t, v) => panic!("cannot encode {v:?} as {t:?}"),
        }
    }
    /// Bit packed: the only thing that can be wrong is an alternative that does not exist.
    fn packed(&mut self, t: &T, v: &V, w: &mut BitW) {
        match (t, v) {
            (T::Ref(n), _) => self.packed(self.m.get(n), v, w),
            (T::New(t), V::New(v)) => self.packed(t, v, w),
            (T::New(t), v) => self.packed(t, v, w),
            (T::Struct(f), V::Struct(vs)) => {
                for ((n, t, _, _), (_, v)) in f.iter().zip(vs) {
                    self.path.push(n.clone());
                    self.packed(t, v, w);
                    self.path.pop();
                }
            }
            (T::Enum { v: vars, bits, .. }, V::Enum(tag, name, p)) => {
                let strange: Vec<i64> = (0..1i64 << bits).filter(|x| vars.iter().all(|v| v.0 != *x)).collect();
                let k = self.c.choose(strange.len() + 1);
                if k > 0 {
                    self.did(format!("unknown alternative {}", strange[k - 1]));
                }
                w.bits(if k == 0 { *tag } else { strange[k - 1] } as u128, *bits);
                let var = vars.iter().find(|x| x.1 == *name).unwrap();
                if let (Some(t), Some(p)) = (&var.2, p) {
                    self.path.push(name.clone());
                    self.packed(t, p, w);
                    self.path.pop();
                }
            }
            (T::Opt(t), V::Opt(o)) => {
                w.bits(o.is_some() as u128, 1);
                if let Some(v) = o {
                    self.packed(t, v, w);
                }
            }
            (T::Arr { lenbits, lenoff, e }, V::Arr(a)) => {
                w.bits((a.len() as i64 - lenoff) as u128, *lenbits);
                for v in a {
                    self.packed(e, v, w);
                }
            }
            (t, v) => enc_bits(self.m, t, v, w),
        }
    }
}

/// What a value looks like without its numbers and texts.
fn shape(v: &V, o: &mut String) {
    match v {
        V::Struct(f) => {
            o.push('{');
            f.iter().for_each(|(_, v)| shape(v, o));
            o.push('}');
        }
        V::Enum(t, _, p) => {
            o.push_str(&format!("e{t}"));
            p.iter().for_each(|v| shape(v, o));
        }
        V::Opt(None) => o.push('-'),
        V::Opt(Some(v)) => {
            o.push('+');
            shape(v, o);
        }
        V::Arr(a) => {
            o.push_str(&format!("[{}", a.len()));
            // the elements of a long list look alike
            a.iter().take(3).for_each(|v| shape(v, o));
            o.push(']');
        }
        V::New(v) => shape(v, o),
        V::Absent => o.push('0'),
        _ => o.push('.'),
    }
}

/// Every shape that `make` gives within `k` deviations, once each; long lists left out.
fn shapes(k: usize, mut make: impl FnMut(&mut Chooser) -> V) -> Vec<V> {
    let mut seen = HashSet::new();
    let mut out = vec![];
    explore(k, |c| {
        let v = make(c);
        let mut s = String::new();
        shape(&v, &mut s);
        if s.len() < 4000 && !s.contains("[600") && !s.contains("[20") && seen.insert(s) {
            out.push(v);
        }
    });
    out
}

type Verdict = Result<Vec<(&'static str, bool)>, String>;

/// Judges one value: undamaged it is read, with any one damage it is refused by everything that
/// reads it.
fn judge(cx: &Ctx, key: &str, v: &V, m: &Module, name: &str, event: bool, read: &(dyn Fn(&[u8], bool) -> Verdict + Sync)) {
    let t = T::Ref(name.into());
    explore(1, |c| {
        let (bytes, what) = if m.packed {
            let mut w = BitW::default();
            if event {
                // an event comes after its time and its user
                enc_bits(m, &T::Ref("SVarUint32".into()), &delta_value(0, 1), &mut w);
                enc_bits(m, &T::Ref("ReplaySGameUserId".into()), &user_value(1), &mut w);
            }
            let mut h = Hurt { m, c, what: None, path: vec![] };
            h.packed(&t, v, &mut w);
            if event {
                w.align();
            }
            (w.out, h.what)
        } else {
            let mut out = vec![];
            let mut h = Hurt { m, c, what: None, path: vec![] };
            h.tagged(&t, v, &mut out);
            (out, h.what)
        };
        cx.steps(1);
        cx.trace();
        cx.state_bytes(&bytes);
        let fine = what.is_none();
        let replay = || json!({"type": name, "bytes": hex(&bytes), "damage": what});
        match read(&bytes, fine) {
            Ok(l) => {
                for (who, ok) in l {
                    if !ok {
                        let class = what.as_deref().map_or("sound", |w| w.rsplit(": ").next().unwrap().trim_start_matches(|c: char| c != 'i' && c != 't' && c != 'u' && c != 'c').split(' ').next().unwrap_or(""));
                        cx.violation(&format!("{key}/{who}/{class}"), &format!("{name}: {} is {}", what.as_deref().unwrap_or("a sound record"), if fine { "refused" } else { "read" }), replay());
                    }
                }
            }
            Err(p) => cx.violation(&format!("{key}/panic"), &p, replay()),
        }
    });
}

fn count(n: Result<usize, ()>, fine: bool, want: usize) -> bool {
    match n {
        Ok(n) => fine && n == want,
        Err(()) => !fine,
    }
}

pub fn run(cx: &Ctx) {
    // ---- tracker events
    let m = aligned();
    let en = "ReplayTrackerEEventId";
    let mut good = vec![];
    tracker_pair(0, 3, &V::Enum(9, "EPlayerSetup".into(), Some(Box::new(default_of(m, "ReplayTrackerSPlayerSetupEvent")))), &mut good);
    let idx: Vec<usize> = (0..m.variants(en).len()).collect();
    let total = Mutex::new(0usize);
    par_for(&idx, |&i| {
        let vs = shapes(cx.pick(1, 2), |c| Gen::new(false, true).gen_variant(m, c, en, i));
        *total.lock().unwrap() += vs.len();
        for v in &vs {
            let V::Enum(_, name, _) = v else { panic!() };
            judge(cx, name, v, m, en, true, &|bytes, fine| {
                guard(|| {
                    let mut one = vec![];
                    enc_tagged(m, &T::Ref("SVarUint32".into()), &delta_value(0, 1), &mut one);
                    one.extend(bytes);
                    let mut all = good.clone();
                    all.extend(&one);
                    all.extend(&good);
                    let mut out = vec![("decoder", protocol87702::byte_aligned::ReplayTrackerEEventId::parse_event_pair(&one).is_ok() == fine)];
                    for build in [75689u32, 87702] {
                        let (contents, mpq) = archive(build, &[("replay.tracker.events", &all)]);
                        out.push(("reader", count(s2protocol::read_tracker_events("x", &mpq, &contents).map(|v| v.len()).map_err(|_| ()), fine, 3)));
                    }
                    let mut it = TrackertEventIteratorState::from(all);
                    let mut n = 0;
                    while it.get_next_event(87702).is_some() {
                        n += 1;
                    }
                    out.push(("iterator", n == if fine { 3 } else { 1 }));
                    out
                })
            });
        }
    });
    let n_tracker = *total.lock().unwrap();
    // ---- the delta in front of them
    for (w, d) in [(0, 3u32), (1, 300), (2, 70000), (3, u32::MAX)] {
        judge(cx, "delta", &delta_value(w, d), m, "SVarUint32", false, &|bytes, fine| {
            guard(|| {
                let mut one = bytes.to_vec();
                enc_tagged(m, &T::Ref(en.into()), &V::Enum(9, "EPlayerSetup".into(), Some(Box::new(default_of(m, "ReplayTrackerSPlayerSetupEvent")))), &mut one);
                vec![("decoder", protocol87702::byte_aligned::ReplayTrackerEEventId::parse_event_pair(&one).is_ok() == fine)]
            })
        });
    }
    // ---- details
    let player = |c: &mut Chooser| {
        let p = Gen::new(false, true).gen_name(m, c, "GameSPlayerDetails");
        with(default_of(m, "GameSDetails"), &[("m_player_list", V::Opt(Some(Box::new(V::Arr(vec![p])))))])
    };
    let mut ds = shapes(cx.pick(1, 2), player);
    ds.extend(shapes(cx.pick(1, 2), |c| Gen::new(false, true).gen_name(m, c, "GameSDetails")));
    let n_details = ds.len();
    par_for(&ds, |v| {
        judge(cx, "details", v, m, "GameSDetails", false, &|bytes, fine| {
            guard(|| {
                let mut out = vec![("decoder", protocol87702::byte_aligned::GameSDetails::parse(bytes).is_ok() == fine)];
                for build in [75689u32, 87702] {
                    let (contents, mpq) = archive(build, &[("replay.details", bytes)]);
                    out.push(("reader", s2protocol::read_details("x", &mpq, &contents).is_ok() == fine));
                    out.push(("details", s2protocol::details::Details::new("x", 1, &mpq, &contents).is_ok() == fine));
                }
                out
            })
        });
    });
    // ---- header
    let hs = shapes(cx.pick(1, 2), |c| {
        let mut h = Gen::new(false, true).gen_name(m, c, "ReplaySHeader");
        if *h.field("m_version") != V::Absent {
            h.set("m_signature", V::Bytes(SIGNATURE.to_vec()));
        }
        h
    });
    let n_header = hs.len();
    par_for(&hs, |v| {
        judge(cx, "header", v, m, "ReplaySHeader", false, &|bytes, fine| {
            guard(|| {
                let mpq = crate::mpq::parse(&crate::mpq::build(Some(bytes), &[]));
                vec![("reader", s2protocol::read_protocol_header(&mpq).is_ok() == fine)]
            })
        });
    });
    // ---- game and message events, both generations
    let mut jobs = vec![];
    for old in [false, true] {
        let m = if old { packed75689() } else { packed() };
        jobs.extend((0..m.variants("GameEEventId").len()).map(|i| (old, true, i)));
    }
    jobs.extend((0..packed().variants("GameEMessageId").len()).flat_map(|i| [(false, false, i), (true, false, i)]));
    let n_packed = Mutex::new(0usize);
    par_for(&jobs, |&(old, game, i)| {
        let m = if old { packed75689() } else { packed() };
        let en = if game { "GameEEventId" } else { "GameEMessageId" };
        let build = if old { 75689u32 } else { 87702 };
        let mut vs = shapes(cx.pick(1, 2), |c| Gen::new(false, true).gen_variant(m, c, en, i));
        // one is enough of a kind without alternatives inside
        let mut first = true;
        vs.retain(|v| {
            let mut s = String::new();
            shape(v, &mut s);
            std::mem::take(&mut first) || s.matches('e').count() > 1
        });
        *n_packed.lock().unwrap() += vs.len();
        let mut good = BitW::default();
        let sound = if game { event(m, en, "ECameraUpdate") } else { event(m, en, "EChat") };
        packed_event(m, en, 0, 3, 1, &sound, &mut good);
        for v in &vs {
            let V::Enum(_, name, _) = v else { panic!() };
            let known = if game { p04::agnostic(m, v).is_some() } else { p05::agnostic(v).is_some() };
            judge(cx, &format!("{build}/{name}"), v, m, en, true, &|one, fine| {
                guard(|| {
                    let mut all = good.out.clone();
                    all.extend(one);
                    all.extend(&good.out);
                    let whole = 2 + known as usize;
                    let (contents, mpq) = archive(build, &[(if game { "replay.game.events" } else { "replay.message.events" }, &all)]);
                    let decoder = match (game, old) {
                        (true, true) => protocol75689::bit_packed::GameEEventId::parse_event_triplet((one, 0)).is_ok(),
                        (true, false) => protocol87702::bit_packed::GameEEventId::parse_event_triplet((one, 0)).is_ok(),
                        _ => protocol87702::bit_packed::GameEMessageId::parse_event_triplet((one, 0)).is_ok(),
                    };
                    let read = if game { s2protocol::read_game_events("x", &mpq, &contents).map(|v| v.len()) } else { s2protocol::read_message_events("x", &mpq, &contents).map(|v| v.len()) };
                    let mut out = vec![("decoder", decoder == fine), ("reader", count(read.map_err(|_| ()), fine, whole))];
                    if game {
                        let (us, ab) = (HashMap::new(), HashMap::new());
                        let mut it = GameEventIteratorState::from(all);
                        let mut n = 0;
                        while it.get_next_event(build, &us, &ab).is_some() {
                            n += 1;
                        }
                        out.push(("iterator", n == if fine { whole } else { 1 }));
                    }
                    out
                })
            });
        }
    });
    // ---- initial data, both generations
    let mut n_init = 0;
    for (m, build) in [(packed(), 87702u32), (packed75689(), 75689)] {
        let vs = shapes(1, |c| Gen::new(false, true).gen_name(m, c, "ReplaySInitData"));
        n_init += vs.len();
        par_for(&vs, |v| {
            judge(cx, &format!("{build}/init"), v, m, "ReplaySInitData", false, &|bytes, fine| {
                guard(|| {
                    let (contents, mpq) = archive(build, &[("replay.initData", bytes)]);
                    vec![
                        ("reader", s2protocol::read_init_data("x", &mpq, &contents).is_ok() == fine),
                        ("init", s2protocol::InitData::new("x", 1, &mpq, &contents).is_ok() == fine),
                    ]
                })
            });
        });
    }
    cx.phase("records", json!({"tracker": n_tracker, "details": n_details, "header": n_header, "packed events": *n_packed.lock().unwrap(), "initial data": n_init}));
}

fn event(m: &Module, en: &str, name: &str) -> V {
    let i = m.variants(en).iter().position(|v| v.1 == name).unwrap();
    let mut v = None;
    explore(0, |c| v = Some(Gen::new(false, true).gen_variant(m, c, en, i)));
    v.unwrap()
}
