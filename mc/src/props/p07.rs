//! replay.initData
use super::p06::diff;
use crate::choose::{Chooser, explore};
use crate::ctx::*;
use crate::fx::*;
use crate::spec::*;
use serde_json::{Value as J, json};

const TY: &str = "ReplaySInitData";

fn text(b: &[u8]) -> Option<String> {
    let b = if b.is_empty() { empty_bits().clone() } else { b.to_vec() };
    String::from_utf8(b).ok()
}

/// The version agnostic rendering; None when some text is not UTF-8.
pub fn agnostic(v: &V, version: u32) -> Option<J> {
    Some(json!({"ext_fs_id": 0, "ext_fs_sha256": "", "ext_fs_file_name": "", "version": version, "sync_lobby_state": rec(v.field("m_sync_lobby_state"))?}))
}
fn rec(v: &V) -> Option<J> {
    let V::Struct(f) = v.peel() else { panic!("{v:?}") };
    let mut o = serde_json::Map::new();
    for (n, v) in f {
        let k = n.strip_prefix("m_").unwrap();
        let j = match (k, v.peel()) {
            // a choice of preference is what it prefers
            ("race_preference" | "race_pref", v) => val(v.field("m_race"))?,
            ("team_preference", v) => val(v.field("m_team"))?,
            ("color_pref", v) => val(v.field("m_color"))?,
            ("clan_logo", V::Opt(Some(b))) => json!(b.bytes()),
            ("cache_handles", V::Arr(a)) => J::Array(a.iter().map(|b| json!(hex(b.bytes()))).collect()),
            ("observe" | "game_speed", V::Enum(t, _, _)) => json!(t),
            (_, v) => val(v)?,
        };
        o.insert(k.into(), j);
    }
    // fields the older generation does not have
    if o.contains_key("ai_build") && !o.contains_key("brutal_plus_difficulty") {
        for k in ["brutal_plus_difficulty", "a_c_enemy_race", "a_c_enemy_wave_type", "selected_commander_prestige"] {
            o.insert(k.into(), json!(0));
        }
        o.insert("retry_mutation_indexes".into(), json!([]));
    }
    Some(J::Object(o))
}
fn val(v: &V) -> Option<J> {
    Some(match v {
        V::Opt(None) => J::Null,
        V::Opt(Some(v)) | V::New(v) => val(v)?,
        V::Int(i) => json!(*i as i64),
        V::Bool(b) => json!(b),
        V::Bytes(b) => json!(text(b)?),
        V::Bits(b, _) => json!(*b as i64),
        V::BitBytes(b, _) => json!(if b.is_empty() { empty_bits() } else { b }),
        V::Arr(a) => J::Array(a.iter().map(val).collect::<Option<_>>()?),
        V::Struct(_) => rec(v)?,
        V::Enum(_, n, _) => json!(n),
        v => panic!("{v:?}"),
    })
}

pub fn check(cx: &Ctx, key: &str, v: &V, build: u32) {
    let m = if build <= 75689 { packed75689() } else { packed() };
    let key = &format!("{}/{key}", if build <= 75689 { "75689" } else { "87702" });
    let bytes = packed_bytes(m, TY, v);
    let (contents, mpq) = archive(build, &[("replay.initData", &bytes)]);
    let replay = || json!({"bytes": hex(&bytes), "build": build});
    cx.steps(1);
    cx.trace();
    cx.state(hash_bytes(&bytes) ^ (build as u64) << 20);
    match (guard(|| s2protocol::read_init_data("x", &mpq, &contents)), agnostic(v, build)) {
        (Ok(Ok(d)), Some(want)) => {
            let got = serde_json::to_value(&d).unwrap();
            if got != want {
                let f = diff(&got, &want);
                cx.violation(&format!("{key}/{f}"), &format!("field {f}: got {} want {}", trunc(&got.to_string()), trunc(&want.to_string())), replay());
            }
        }
        (Ok(_), None) => {}
        (Ok(Err(e)), Some(_)) => cx.violation(&format!("{key}/refused"), &format!("{e:?}"), replay()),
        (Err(p), _) => cx.violation(&format!("{key}/panic"), &p, replay()),
    }
}

/// Wraps a part into the whole.
pub fn whole(m: &Module, part: &str, vs: Vec<V>) -> V {
    let mut st = default_of(m, "GameSLobbySyncState");
    let arr = |vs: Vec<V>| V::New(Box::new(V::Arr(vs)));
    match part {
        "SUserInitialData" => st.set("m_user_initial_data", arr(vs)),
        "GameSGameDescription" => st.set("m_game_description", vs.into_iter().next().unwrap()),
        "GameSLobbyState" => st.set("m_lobby_state", vs.into_iter().next().unwrap()),
        "GameSLobbySlot" => {
            let l = with(default_of(m, "GameSLobbyState"), &[("m_slots", arr(vs))]);
            st.set("m_lobby_state", l);
        }
        _ => panic!(),
    }
    V::Struct(vec![("m_sync_lobby_state".into(), st)])
}

const BUILDS: [u32; 12] = [0, 1, 15405, 75688, 75689, 75690, 76114, 87702, 91115, 95000, 1 << 31, u32::MAX];

pub fn run(cx: &Ctx) {
    let parts = ["SUserInitialData", "GameSGameDescription", "GameSLobbyState", "GameSLobbySlot"];
    let mut jobs: Vec<(&str, usize, bool, u32, usize, usize)> = vec![];
    for build in [87702u32, 75689] {
        for p in parts {
            jobs.push((p, 1, true, build, 1, 0));
            // the second of two elements, too
            if p == "SUserInitialData" || p == "GameSLobbySlot" {
                jobs.push((p, 1, false, build, 2, 0));
            }
            // pairs of deviations, split over workers
            if build == 87702 || cx.thorough || p == "GameSLobbySlot" {
                let k = 2;
                for s in 0..8 {
                    jobs.push((p, k, false, build, 1, s + 1));
                }
            }
        }
    }
    par_for(&jobs, |&(part, k, rich, build, n, share)| {
        let m = if build <= 75689 { packed75689() } else { packed() };
        let mut count = 0usize;
        // parts that do not deviate are built once
        let base = whole(m, part, vec![default_of(m, part)]);
        let _ = &base;
        explore(k, |c: &mut Chooser| {
            let mut g = Gen::new(rich, false);
            let vs: Vec<V> = (0..n).map(|_| g.gen_name(m, c, part)).collect();
            count += 1;
            if share > 0 && count % 8 != share - 1 {
                return;
            }
            check(cx, part, &whole(m, part, vs), build);
        });
    });
    // sizes: every number of users and slots, with observers, computers and gaps
    let sizes: Vec<(usize, usize)> = (0..=31).flat_map(|u| (0..=31).step_by(if u % 5 == 0 { 1 } else { 6 }).map(move |s| (u, s))).collect();
    par_for(&sizes, |&(u, s)| {
        for build in [BUILDS[(u * 7 + s) % BUILDS.len()], 87702, 75689] {
            let m = if build <= 75689 { packed75689() } else { packed() };
            let arr = |vs: Vec<V>| V::New(Box::new(V::Arr(vs)));
            let us: Vec<V> = (0..u).map(|i| with(default_of(m, "SUserInitialData"), &[("m_name", V::Bytes(format!("user {i}").into_bytes())), ("m_clan_tag", V::Opt(if i % 3 == 0 { None } else { Some(Box::new(V::Bytes(format!("c{i}").into_bytes()))) }))])).collect();
            let ss: Vec<V> = (0..s)
                .map(|i| {
                    let o = m.variants("EObserve")[(i * 7 + u) % 3].clone();
                    with(
                        default_of(m, "GameSLobbySlot"),
                        &[
                            ("m_user_id", V::Opt(if i % 4 == 3 { None } else { Some(Box::new(V::Int((i % 16) as i128))) })),
                            ("m_observe", V::Enum(o.0, o.1, None)),
                            ("m_working_set_slot_id", V::Opt(if i % 5 == 4 { None } else { Some(Box::new(V::Int(i as i128 * 8))) })),
                            ("m_rewards", arr((0..i % 7).map(|x| V::Int((x * 1000 + i) as i128)).collect())),
                            ("m_licenses", arr((0..i % 3).map(|x| V::Int((x * 77 + i) as i128)).collect())),
                        ],
                    )
                })
                .collect();
            let l = with(default_of(m, "GameSLobbyState"), &[("m_slots", arr(ss))]);
            let st = with(default_of(m, "GameSLobbySyncState"), &[("m_user_initial_data", arr(us)), ("m_lobby_state", l)]);
            check(cx, "sizes", &V::Struct(vec![("m_sync_lobby_state".into(), st)]), build);
        }
    });
    // every build around the edge of the generations
    for b in BUILDS {
        let m = if b <= 75689 { packed75689() } else { packed() };
        for p in parts {
            explore(0, |c| {
                let mut g = Gen::new(false, true);
                let vs = (0..3).map(|_| g.gen_name(m, c, p)).collect();
                check(cx, "builds", &whole(m, p, vs), b);
            });
        }
    }
    // identity: number, name and digest of the file
    for n in [0usize, 1, 55, 56, 57, 63, 64, 65, 1000, 100_000] {
        let m = packed();
        let bytes = packed_bytes(m, TY, &whole(m, "GameSLobbySlot", vec![]));
        let junk = vec![n as u8; n];
        let (contents, mpq) = archive(91115, &[("replay.initData", &bytes), ("junk", &junk)]);
        cx.trace();
        match guard(|| s2protocol::InitData::new("some/file.SC2Replay", 1 << 40 | n as u64, &mpq, &contents)) {
            Ok(Ok(d)) => {
                cx.expect_eq("identity", &(d.ext_fs_id, d.ext_fs_file_name.as_str(), d.ext_fs_sha256.as_str(), d.version), &(1 << 40 | n as u64, "some/file.SC2Replay", sha256(&contents).as_str(), 91115), || json!({"n": n}));
            }
            r => cx.violation("identity", &format!("{r:?}"), json!({"n": n})),
        }
    }
    cx.phase("bounds", json!({"deviations": "2 per part (1 with walking bits)", "users x slots": "0..31", "builds": BUILDS}));
    let m = packed();
    cx.sample(json!(agnostic(&whole(m, "GameSLobbySlot", vec![default_of(m, "GameSLobbySlot")]), 87702)));
}

/// FIPS 180-4.
pub fn sha256(data: &[u8]) -> String {
    let primes = |n: usize| {
        let mut v: Vec<u64> = vec![];
        let mut x = 2;
        while v.len() < n {
            if v.iter().all(|p| x % p != 0) {
                v.push(x);
            }
            x += 1;
        }
        v
    };
    // the first 32 bits of the fractional part of an integer root, by search over integers
    let frac = |p: u64, root: u32| -> u32 {
        // largest r with r^root <= p * 2^(32*root)
        let (mut lo, mut hi) = (0u128, 1u128 << 40);
        let fits = |r: u128| -> bool {
            match root {
                2 => r * r <= (p as u128) << 64,
                _ => {
                    // r < 2^36, so r^3 < 2^108
                    r < (1 << 36) && r * r * r <= (p as u128) << 96
                }
            }
        };
        while hi - lo > 1 {
            let mid = (lo + hi) / 2;
            if fits(mid) { lo = mid } else { hi = mid }
        }
        lo as u32
    };
    let ps = primes(64);
    let k: Vec<u32> = ps.iter().map(|&p| frac(p, 3)).collect();
    let mut h: Vec<u32> = ps[..8].iter().map(|&p| frac(p, 2)).collect();
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend((data.len() as u64 * 8).to_be_bytes());
    for ch in m.chunks(64) {
        let mut w: Vec<u32> = ch.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut v = h.clone();
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            v.rotate_right(1);
            v[4] = v[4].wrapping_add(t1);
            v[0] = t1.wrapping_add(t2);
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().map(|x| format!("{x:08x}")).collect()
}
