//! The replay header: its fields, what it decides, and headers that are not one.
use super::*;
use crate::choose::{Chooser, explore};
use crate::fx::*;
use crate::mpq;
use crate::rp::*;
use crate::spec::*;
use s2protocol::MPQ;
use s2protocol::protocol_version_decoder::read_protocol_header;
use serde_json::{Value as J, json};

fn field(v: &mut V, path: &[&str], x: V) {
    if path.len() == 1 {
        return v.set(path[0], x);
    }
    let mut inner = v.field(path[0]).clone();
    field(&mut inner, &path[1..], x);
    v.set(path[0], inner);
}

struct Files {
    tracker: Vec<u8>,
    game: [Vec<u8>; 2],
    message: [Vec<u8>; 2],
    details: Vec<u8>,
    init: [Vec<u8>; 2],
    want_game: [Vec<J>; 2],
    want_init: [J; 2],
    want_details: J,
}
fn files() -> Files {
    let cmd = |m: &Module| {
        // Everything that differs between the generations is about commands.
        let mut w = BitW::default();
        let mut want = vec![];
        let t = m.variants("GameEEventId");
        for (n, u) in [("ECmd", 1), ("ECameraUpdate", 2), ("ECmd", 3)] {
            let (tag, name, ty) = t.iter().find(|x| x.1 == n).unwrap().clone();
            let T::Ref(ty) = ty.unwrap() else { panic!() };
            let v = V::Enum(tag, name, Some(Box::new(default_of(m, &ty))));
            packed_event(m, "GameEEventId", 0, u, u as i64, &v, &mut w);
            want.push(p04::agnostic(m, &v).unwrap());
        }
        (w.out, want)
    };
    let message = |m: &Module| {
        let mut w = BitW::default();
        let (tag, name, ty) = m.variants("GameEMessageId").into_iter().find(|x| x.1 == "EChat").unwrap();
        let T::Ref(ty) = ty.unwrap() else { panic!() };
        packed_event(m, "GameEMessageId", 0, 5, 1, &V::Enum(tag, name, Some(Box::new(default_of(m, &ty)))), &mut w);
        w.out
    };
    let init = |m: &Module, build| {
        let v = p21::init_with(m, vec![p21::user(m, 0), p21::user(m, 1)], vec![p21::slot(m, Some(4), Some(1))]);
        (packed_bytes(m, "ReplaySInitData", &v), p07::agnostic(&v, build).unwrap())
    };
    let d = p21::details_with(vec![p21::player("one", Some(4))]);
    let (g0, w0) = cmd(packed75689());
    let (g1, w1) = cmd(packed());
    let (i0, j0) = init(packed75689(), 75689);
    let (i1, j1) = init(packed(), 87702);
    let mut tracker = vec![];
    let r = Replay::new(87702, &[]);
    let _ = r;
    let (tag, name, ty) = aligned().variants("ReplayTrackerEEventId").into_iter().find(|x| x.1 == "EUpgrade").unwrap();
    let T::Ref(ty) = ty.unwrap() else { panic!() };
    tracker_pair(0, 9, &V::Enum(tag, name, Some(Box::new(default_of(aligned(), &ty)))), &mut tracker);
    Files { tracker, game: [g0, g1], message: [message(packed75689()), message(packed())], details: tagged("GameSDetails", &d), init: [i0, i1], want_game: [w0, w1], want_init: [j0, j1], want_details: p06::agnostic(&d).unwrap() }
}
impl Files {
    fn archive(&self, hdr: Option<&[u8]>, new: usize) -> Vec<u8> {
        mpq::build(
            hdr,
            &[("replay.details", &self.details), ("replay.initData", &self.init[new]), ("replay.tracker.events", &self.tracker), ("replay.game.events", &self.game[new]), ("replay.message.events", &self.message[new])],
        )
    }
}

/// What the five readers give, as far as it is compared.
fn read_all(mpq: &MPQ, contents: &[u8]) -> [Result<Option<J>, String>; 5] {
    [
        guard(|| s2protocol::read_tracker_events("x", mpq, contents).ok().map(|v| json!(v.len()))),
        guard(|| s2protocol::read_game_events("x", mpq, contents).ok().map(|v| json!(v.iter().map(|e| json!([e.delta, e.user_id, e.event])).collect::<Vec<_>>()))),
        guard(|| s2protocol::read_message_events("x", mpq, contents).ok().map(|v| json!(v.len()))),
        guard(|| s2protocol::read_details("x", mpq, contents).ok().map(|v| json!(v))),
        guard(|| s2protocol::read_init_data("x", mpq, contents).ok().map(|v| json!(v))),
    ]
}
const READERS: [&str; 5] = ["tracker", "game", "message", "details", "init"];

fn expect_all(cx: &Ctx, key: &str, f: &Files, hdr: &[u8], base_build: u32, replay: &dyn Fn() -> J) {
    let new = (base_build > 75689) as usize;
    let bytes = f.archive(Some(hdr), new);
    let mpq = mpq::parse(&bytes);
    let mut init = f.want_init[new].clone();
    init["version"] = json!(base_build);
    let game: Vec<J> = f.want_game[new].iter().enumerate().map(|(i, e)| json!([i + 1, i + 1, e])).collect();
    let want = [json!(1), json!(game), json!(1), f.want_details.clone(), init];
    cx.steps(5);
    cx.trace();
    for ((g, w), r) in read_all(&mpq, &bytes).into_iter().zip(want).zip(READERS) {
        match g {
            Ok(Some(g)) if g == w => (),
            Ok(Some(g)) => cx.violation(&format!("{key}/{r}"), &trunc(&format!("got {g} want {w}")), replay()),
            Ok(None) => cx.violation(&format!("{key}/{r}/refused"), "refused", replay()),
            Err(p) => cx.violation(&format!("{key}/{r}/panic"), &p, replay()),
        }
    }
}
fn refuse_all(cx: &Ctx, key: &str, f: &Files, hdr: Option<&[u8]>, replay: &dyn Fn() -> J) {
    for new in 0..2 {
        let bytes = f.archive(hdr, new);
        let Ok((_, mpq)) = s2protocol::parser::parse(&bytes) else { continue };
        cx.steps(5);
        for (g, r) in read_all(&mpq, &bytes).into_iter().zip(READERS) {
            match g {
                Ok(None) => (),
                Ok(Some(_)) => cx.violation(&format!("{key}/{r}/accepted"), "read in spite of its header", replay()),
                Err(p) => cx.violation(&format!("{key}/{r}/panic"), &p, replay()),
            }
        }
    }
}

pub fn run(cx: &Ctx) {
    let f = files();
    let m = aligned();
    // Every field of the header.
    for (rich, k) in [(false, cx.pick(2, 3)), (true, 1)] {
        let mut n = 0u64;
        explore(k, |c: &mut Chooser| {
            n += 1;
            let v = Gen::new(rich, false).gen_name(m, c, "ReplaySHeader");
            let bytes = tagged("ReplaySHeader", &v);
            cx.state_bytes(&bytes);
            let want = debug_of(m, "ReplaySHeader", &v);
            for extra in [&b""[..], &[0], &[5, 0, 9, 9]] {
                let data = [&bytes[..], extra].concat();
                let contents = mpq::build(Some(&data), &[]);
                let mpq = mpq::parse(&contents);
                cx.steps(1);
                let replay = || json!({"header": hex(&data)});
                match guard(|| read_protocol_header(&mpq).map(|(t, h)| (t.len(), format!("{h:?}"))).map_err(|e| e.to_string())) {
                    Ok(Ok((t, h))) => {
                        cx.expect_eq("fields", &h, &want, replay);
                        cx.expect_eq("rest", &t, &extra.len(), replay);
                    }
                    Ok(Err(e)) => cx.violation("refused", &e, replay()),
                    Err(p) => cx.violation("panic", &p, replay()),
                }
            }
        });
        cx.traces_add(n);
        cx.phase(if rich { "fields, walking bits" } else { "fields" }, json!({"deviations": k, "headers": n}));
    }
    // Every base build up to a bound, and around powers of two.
    let mut builds: Vec<u32> = (0..cx.pick(16_000, 400_000)).collect();
    builds.extend(75_000..76_500);
    builds.extend(15_000..16_000);
    builds.extend([83830, 84643, 86383, 87702, 88500, 89165, 89634, 89720, 90136, 90779, 90870, 91115].iter().flat_map(|b| [b - 1, *b, b + 1]));
    builds.extend((14..32).flat_map(|b| [(1u32 << b) - 1, 1 << b, (1 << b) + 1]));
    builds.extend([u32::MAX, u32::MAX - 1]);
    builds.sort_unstable();
    builds.dedup();
    let h0 = {
        let mut h = default_of(m, "ReplaySHeader");
        h.set("m_signature", V::Bytes(SIGNATURE.to_vec()));
        h
    };
    let with_build = |h: &V, b: u32| {
        let mut h = h.clone();
        field(&mut h, &["m_version", "m_base_build"], V::Int(b as i128));
        h
    };
    par_for(&builds, |&b| expect_all(cx, "build", &f, &tagged("ReplaySHeader", &with_build(&h0, b)), b, &|| json!({"base build": b})));
    cx.states_add(builds.len() as u64);
    cx.phase("base builds", json!({"builds": builds.len()}));
    // Nothing else of the header decides.
    let others: Vec<(Vec<&str>, i128)> = [vec!["m_version", "m_build"], vec!["m_data_build_num"], vec!["m_elapsed_game_loops"]]
        .into_iter()
        .flat_map(|p| [0i128, 1, 75688, 75689, 75690, 87702, 91115, u32::MAX as i128].map(|x| (p.clone(), x)))
        .chain([vec!["m_version", "m_flags"], vec!["m_version", "m_major"], vec!["m_version", "m_minor"], vec!["m_version", "m_revision"], vec!["m_type"]].into_iter().flat_map(|p| (0..=255i128).map(move |x| (p.clone(), x))))
        .collect();
    let pairs: Vec<(usize, usize)> = (0..others.len()).flat_map(|a| (a..others.len()).filter(move |b| a < 24 && *b < 24 || a == *b).map(move |b| (a, b))).collect();
    par_for(&pairs, |&(a, b)| {
        for build in [0u32, 75689, 75690, 87702, u32::MAX] {
            let mut h = with_build(&h0, build);
            for i in [a, b] {
                field(&mut h, &others[i].0, V::Int(others[i].1));
            }
            expect_all(cx, "others", &f, &tagged("ReplaySHeader", &h), build, &|| json!({"base build": build, "fields": [format!("{:?}", others[a]), format!("{:?}", others[b])]}));
        }
    });
    cx.phase("other fields", json!({"combinations": pairs.len()}));
    // Signatures: every other one is refused by all readers.
    let mut sigs: Vec<Vec<u8>> = vec![vec![], b"StarCraft II replay".to_vec(), b"StarCraft II replay\x1b".to_vec(), b"StarCraft II replay\x1b12".to_vec(), [SIGNATURE, SIGNATURE].concat()];
    for i in 0..SIGNATURE.len() {
        sigs.push(SIGNATURE[..i].to_vec());
        sigs.push(SIGNATURE[i..].to_vec());
        let mut s = SIGNATURE.to_vec();
        s.remove(i);
        sigs.push(s);
        for b in 0..=255u8 {
            let mut s = SIGNATURE.to_vec();
            s[i] = b;
            sigs.push(s);
        }
    }
    for b in 0..=255u8 {
        sigs.push([SIGNATURE, &[b]].concat());
        sigs.push([&[b], SIGNATURE].concat());
    }
    sigs.retain(|s| s != SIGNATURE);
    par_for(&sigs, |s| {
        for build in [0u32, 75689, 87702] {
            let mut h = with_build(&h0, build);
            h.set("m_signature", V::Bytes(s.clone()));
            refuse_all(cx, "signature", &f, Some(&tagged("ReplaySHeader", &h)), &|| json!({"signature": hex(s), "base build": build}));
        }
    });
    cx.states_add(sigs.len() as u64);
    cx.phase("signatures", json!({"refused": sigs.len()}));
    // Headers that end early, or are of another kind.
    let whole = tagged("ReplaySHeader", &with_build(&h0, 87702));
    let cuts: Vec<usize> = (0..whole.len()).collect();
    par_for(&cuts, |&n| refuse_all(cx, "cut", &f, Some(&whole[..n]), &|| json!({"header": hex(&whole[..n])})));
    refuse_all(cx, "none", &f, None, &|| json!("no header"));
    for i in 0..3 {
        let mut h = whole.clone();
        // the tag of the record, and of its first field
        for b in 0..=255u8 {
            if b == whole[[0, 1, 3][i]] {
                continue;
            }
            h[[0, 1, 3][i]] = b;
            if [0, 1, 3][i] != 1 {
                refuse_all(cx, "tag", &f, Some(&h), &|| json!({"header": hex(&h)}));
            }
        }
    }
    cx.sample(json!({"header": hex(&whole)}));
}
