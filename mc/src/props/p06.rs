//! replay.details
use crate::choose::explore;
use crate::ctx::*;
use crate::fx::*;
use crate::spec::*;
use serde_json::{Value as J, json};

const TY: &str = "GameSDetails";

/// The version agnostic rendering; None when some text is not UTF-8.
pub fn agnostic(v: &V) -> Option<J> {
    let mut o = rec(v)?;
    let m = o.as_object_mut().unwrap();
    m.insert("ext_fs_id".into(), json!(0));
    m.insert("ext_datetime".into(), json!("1970-01-01T00:00:00"));
    Some(o)
}
fn rec(v: &V) -> Option<J> {
    let V::Struct(f) = v else { panic!() };
    let toon = f.iter().any(|x| x.0 == "m_program_id");
    let mut o = serde_json::Map::new();
    for (n, v) in f {
        if toon && n == "m_name" {
            continue;
        }
        let k = n.strip_prefix("m_").unwrap();
        let j = match (k, v) {
            ("player_list" | "cache_handles" | "mod_paths", V::Absent | V::Opt(None)) => json!([]),
            ("cache_handles", v) => J::Array(v.opt().unwrap().arr().iter().map(|b| json!(hex(b.bytes()))).collect()),
            ("observe", V::Enum(t, _, _)) => json!(t),
            (_, v) => val(v)?,
        };
        o.insert(k.into(), j);
    }
    Some(J::Object(o))
}
fn val(v: &V) -> Option<J> {
    Some(match v {
        V::Absent | V::Opt(None) => J::Null,
        V::Opt(Some(v)) | V::New(v) => val(v)?,
        V::Int(i) => json!(*i as i64),
        V::Bool(b) => json!(b),
        V::Bytes(b) => json!(String::from_utf8(b.clone()).ok()?),
        V::Arr(a) => J::Array(a.iter().map(val).collect::<Option<_>>()?),
        V::Struct(_) => rec(v)?,
        V::Enum(_, n, _) => json!(n.strip_prefix('E').unwrap()),
        v => panic!("{v:?}"),
    })
}

pub fn check(cx: &Ctx, key: &str, v: &V, build: u32) {
    let bytes = tagged(TY, v);
    let (contents, mpq) = archive(build, &[("replay.details", &bytes)]);
    let replay = || json!({"bytes": hex(&bytes), "build": build});
    cx.steps(1);
    cx.trace();
    cx.state_bytes(&bytes);
    match (guard(|| s2protocol::read_details("x", &mpq, &contents)), agnostic(v)) {
        (Ok(Ok(d)), Some(want)) => {
            let got = serde_json::to_value(&d).unwrap();
            if got != want {
                let f = diff(&got, &want);
                cx.violation(&format!("{key}/{f}"), &format!("field {f}: got {} want {}", trunc(&got.to_string()), trunc(&want.to_string())), replay());
            }
            let names: Vec<String> = d.player_list.iter().filter(|p| p.observe == 0).map(|p| p.name.clone()).collect();
            cx.expect_eq(&format!("{key}/player-names"), &d.get_player_names(), &names, replay);
            // the metadata is the one given, the rest stays
            if let Ok(d2) = guard(|| s2protocol::details::Details::new("x", 77, &mpq, &contents)) {
                match d2 {
                    Ok(mut d2) => {
                        cx.expect_eq(&format!("{key}/id"), &d2.ext_fs_id, &77, replay);
                        d2.ext_fs_id = 0;
                        d2.ext_datetime = d.ext_datetime;
                        cx.expect_eq(&format!("{key}/new"), &d2, &d, replay);
                    }
                    Err(e) => cx.violation(&format!("{key}/new-refused"), &format!("{e:?}"), replay()),
                }
            }
        }
        // what becomes of text that is not UTF-8 is not specified, but it does not crash
        (Ok(_), None) => {}
        (Ok(Err(e)), Some(_)) => cx.violation(&format!("{key}/refused"), &format!("{e:?}"), replay()),
        (Err(p), _) => cx.violation(&format!("{key}/panic"), &p, replay()),
    }
}

pub fn diff(a: &J, b: &J) -> String {
    match (a, b) {
        (J::Object(x), J::Object(y)) => {
            for (k, v) in y {
                match x.get(k) {
                    None => return format!("missing {k}"),
                    Some(w) if w != v => {
                        let r = diff(w, v);
                        return if r.is_empty() { k.clone() } else { format!("{k}.{r}") };
                    }
                    _ => {}
                }
            }
            x.keys().find(|k| !y.contains_key(*k)).map(|k| format!("extra {k}")).unwrap_or_default()
        }
        (J::Array(x), J::Array(y)) if x.len() == y.len() => x.iter().zip(y).find(|(a, b)| a != b).map(|(a, b)| format!("[].{}", diff(a, b))).unwrap_or_default(),
        (J::Array(_), J::Array(_)) => "len".into(),
        _ => String::new(),
    }
}

const BUILDS: [u32; 8] = [0, 15405, 75689, 75690, 87702, 91115, 95000, u32::MAX];

pub fn run(cx: &Ctx) {
    let m = aligned();
    // deviations, the exploration split by the kind of struct that deviates
    let kinds = [("details", 2usize, false), ("player", cx.pick(2, 3), false), ("two players", cx.pick(1, 2), false), ("details", 1, true), ("player", 1, true)];
    let jobs: Vec<_> = kinds.iter().flat_map(|k| (0..8usize).map(move |s| (k.0, k.1, k.2, s))).collect();
    par_for(&jobs, |&(what, k, rich, share)| {
        let mut n = 0usize;
        explore(k, |c| {
            let mut g = Gen::new(rich, false);
            let v = match what {
                "details" => g.gen_name(m, c, TY),
                _ => {
                    let mut ps = vec![];
                    if what == "two players" {
                        ps.push(g.gen_name(m, c, "GameSPlayerDetails"));
                    }
                    ps.push(g.gen_name(m, c, "GameSPlayerDetails"));
                    with(default_of(m, TY), &[("m_player_list", V::Opt(Some(Box::new(V::Arr(ps)))))])
                }
            };
            n += 1;
            if n % 8 == share {
                check(cx, what, &v, [87702u32, 75689][n / 8 % 2]);
            }
        });
    });
    // the order the fields come in
    for ty in [TY, "GameSPlayerDetails", "GameSToonNameDetails", "GameSColor"] {
        let base = default_of(m, ty);
        let V::Struct(f) = &base else { panic!() };
        let n = f.len();
        let mut orders = vec![];
        if n <= 5 {
            super::p03::permutations(n, &mut vec![], &mut orders);
        }
        for r in 0..n {
            orders.push((0..n).map(|x| (x + r) % n).collect());
            orders.push((0..n).rev().map(|x| (x + r) % n).collect());
        }
        for a in 0..n {
            for b in a + 1..n {
                let mut o: Vec<usize> = (0..n).collect();
                o.swap(a, b);
                orders.push(o);
            }
        }
        par_for(&orders, |o| {
            let s = V::Struct(o.iter().map(|&x| f[x].clone()).collect());
            let player = |t: &str, s: V| with(default_of(m, "GameSPlayerDetails"), &[(t, s)]);
            let p = match ty {
                "GameSPlayerDetails" => s.clone(),
                "GameSToonNameDetails" => player("m_toon", s.clone()),
                "GameSColor" => player("m_color", s.clone()),
                _ => default_of(m, "GameSPlayerDetails"),
            };
            let v = if ty == TY { s } else { with(default_of(m, TY), &[("m_player_list", V::Opt(Some(Box::new(V::Arr(vec![p])))))]) };
            check(cx, "order", &v, 87702);
        });
    }
    // every build, every number of players, observers anywhere
    for b in BUILDS {
        for n in 0..=16usize {
            let ps: Vec<V> = (0..n)
                .map(|i| {
                    let o = m.variants("EObserve")[(i * 7 + n) % 3].clone();
                    with(default_of(m, "GameSPlayerDetails"), &[("m_name", V::Bytes(format!("p{i}").into_bytes())), ("m_observe", V::Enum(o.0, o.1, None)), ("m_working_set_slot_id", V::Opt(Some(Box::new(V::Int(i as i128)))))])
                })
                .collect();
            let v = with(default_of(m, TY), &[("m_player_list", V::Opt(Some(Box::new(V::Arr(ps)))))]);
            check(cx, "builds", &v, b);
        }
    }
    // long lists
    for n in (17..=70usize).chain([127, 128, 129, 255, 256, 257, 511, 512, 513, 1000]) {
        let names = |p: &str, l: usize| (0..n).map(|i| V::Bytes(format!("{p}{i:0l$}").into_bytes())).collect::<Vec<_>>();
        let list = |v: Vec<V>| V::Opt(Some(Box::new(V::Arr(v))));
        let ps = (0..n).map(|i| with(default_of(m, "GameSPlayerDetails"), &[("m_name", V::Bytes(format!("p{i}").into_bytes())), ("m_observe", V::Enum(m.variants("EObserve")[i % 3].0, m.variants("EObserve")[i % 3].1.clone(), None))])).collect();
        let v = with(default_of(m, TY), &[("m_player_list", list(ps)), ("m_cache_handles", list(names("handle", 3))), ("m_mod_paths", list(names("mod", 4)))]);
        check(cx, "long", &v, 87702);
    }
    // The names of the stored numbers.
    use s2protocol::common::*;
    let names = (
        [OBSERVE_NONE, OBSERVE_SPECTATOR, OBSERVE_REFEREE],
        [GAME_SPEED_SLOWER, GAME_SPEED_SLOW, GAME_SPEED_NORMAL, GAME_SPEED_FAST, GAME_SPEED_FASTER],
        [GAME_RESULT_UNDECIDED, GAME_RESULT_WIN, GAME_RESULT_DEFEAT, GAME_RESULT_TIE],
    );
    cx.expect_eq("constants", &names, &([0, 1, 2], [0, 1, 2, 3, 4], [0, 1, 2, 3]), || json!({}));
    cx.phase("bounds", json!({"deviations": "2 (1 with walking bits); players thorough 3", "builds": BUILDS, "players": "0..70 and around powers of two up to 1000"}));
    cx.sample(json!(agnostic(&default_of(m, TY))));
}
