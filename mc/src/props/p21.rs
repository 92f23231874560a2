//! The join of the details of the players with the lobby, and the rows of the lobby's users.
use super::*;
use crate::choose::{Chooser, explore};
use crate::fx::*;
use crate::rp::*;
use crate::spec::*;
use s2protocol::InitData;
use s2protocol::details::PlayerLobbyDetails;
use s2protocol::init_data::UserInitDataFlatRow;
use serde_json::{Value as J, json};

/// Date and time of a stored time (100 ns steps since 1601) with the offset to local time taken off.
pub fn datetime(utc: i64, offset: i64) -> String {
    let micros = utc as i128 / 10 - 11_644_473_600_000_000 - offset as i128 / 10;
    let (secs, us) = (micros.div_euclid(1_000_000), micros.rem_euclid(1_000_000));
    let (days, s) = (secs.div_euclid(86400), secs.rem_euclid(86400));
    // Walk the 400 year cycles, then the years and months of the proleptic Gregorian calendar.
    let mut d = days - days.div_euclid(146_097) * 146_097;
    let mut y = 1970 + days.div_euclid(146_097) * 400;
    let leap = |y: i128| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    loop {
        let n = if leap(y) { 366 } else { 365 };
        if d < n {
            break;
        }
        d -= n;
        y += 1;
    }
    let mut m = 1;
    for n in [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31] {
        if d < n {
            break;
        }
        d -= n;
        m += 1;
    }
    let year = if (0..=9999).contains(&y) { format!("{y:04}") } else if y < 0 { format!("-{:04}", -y) } else { format!("+{y}") };
    let frac = if us == 0 { String::new() } else if us % 1000 == 0 { format!(".{:03}", us / 1000) } else { format!(".{us:06}") };
    format!("{year}-{m:02}-{:02}T{:02}:{:02}:{:02}{frac}", d + 1, s / 3600, s / 60 % 60, s % 60)
}

/// The players of the details with their slots and users.
pub fn joined(details: &J, init: &J) -> Vec<J> {
    let lobby = &init["sync_lobby_state"];
    let slots = lobby["lobby_state"]["slots"].as_array().unwrap();
    let users = lobby["user_initial_data"].as_array().unwrap();
    let mut out = vec![];
    for p in details["player_list"].as_array().unwrap() {
        let id = &p["working_set_slot_id"];
        let Some(s) = slots.iter().find(|s| !id.is_null() && &s["working_set_slot_id"] == id) else { continue };
        let u = s["user_id"].as_u64().and_then(|u| users.get(u as usize));
        let text = |k: &str| u.and_then(|u| u[k].as_str()).unwrap_or("").to_string();
        out.push(json!({
            "player_details": p, "lobby_slot": s, "title": details["title"], "game_description": lobby["game_description"],
            "time_utc": details["time_utc"], "time_local_offset": details["time_local_offset"],
            "user_init_data_name": text("name"), "user_init_data_clan_tag": text("clan_tag"),
            "tracker_setup_player_id": null, "tracker_setup_slot_id": null,
            "cache_handles": details["cache_handles"],
            "ext_fs_sha256": init["ext_fs_sha256"], "ext_fs_file_name": init["ext_fs_file_name"], "ext_fs_id": init["ext_fs_id"],
            "ext_datetime": datetime(details["time_utc"].as_i64().unwrap(), details["time_local_offset"].as_i64().unwrap()),
        }));
    }
    out
}

pub fn user_rows(init: &J) -> Vec<J> {
    init["sync_lobby_state"]["user_initial_data"]
        .as_array()
        .unwrap()
        .iter()
        .enumerate()
        .map(|(i, u)| {
            json!({"ext_fs_id": init["ext_fs_id"], "ext_fs_sha256": init["ext_fs_sha256"], "ext_fs_file_name": init["ext_fs_file_name"],
                "user_index": i, "name": u["name"], "clan_tag": u["clan_tag"].as_str().unwrap_or(""), "scaled_rating": u["scaled_rating"]})
        })
        .collect()
}

fn arr(v: Vec<V>) -> V {
    V::New(Box::new(V::Arr(v)))
}
pub fn opt(v: Option<i64>) -> V {
    V::Opt(v.map(|v| Box::new(V::Int(v as i128))))
}
/// A time in 2020.
pub const TIME: i64 = 132_223_104_000_000_000;

pub fn details_with(players: Vec<V>) -> V {
    with(default_of(aligned(), "GameSDetails"), &[("m_player_list", V::Opt(Some(Box::new(V::Arr(players))))), ("m_time_utc", V::Int(TIME as i128)), ("m_title", V::Bytes(b"A map".to_vec()))])
}
pub fn player(name: &str, slot: Option<i64>) -> V {
    with(default_of(aligned(), "GameSPlayerDetails"), &[("m_name", V::Bytes(name.as_bytes().to_vec())), ("m_working_set_slot_id", opt(slot))])
}
pub fn slot(m: &Module, slot: Option<i64>, user: Option<i64>) -> V {
    with(default_of(m, "GameSLobbySlot"), &[("m_user_id", opt(user)), ("m_working_set_slot_id", opt(slot))])
}
pub fn user(m: &Module, i: usize) -> V {
    let tag = if i % 3 == 1 { None } else { Some(Box::new(V::Bytes(format!("clan{i}").into_bytes()))) };
    with(default_of(m, "SUserInitialData"), &[("m_name", V::Bytes(if i % 5 == 2 { vec![] } else { format!("user {i}").into_bytes() })), ("m_clan_tag", V::Opt(tag)), ("m_scaled_rating", V::Opt(if i % 2 == 0 { None } else { Some(Box::new(V::Int(1000 * i as i128))) }))])
}
pub fn init_with(m: &Module, users: Vec<V>, slots: Vec<V>) -> V {
    let l = with(default_of(m, "GameSLobbyState"), &[("m_slots", arr(slots))]);
    let st = with(default_of(m, "GameSLobbySyncState"), &[("m_user_initial_data", arr(users)), ("m_lobby_state", l)]);
    V::Struct(vec![("m_sync_lobby_state".into(), st)])
}
pub fn file(build: u32, details: &V, init: &V) -> Vec<u8> {
    let mut r = Replay::new(build, &[]);
    r.details = tagged("GameSDetails", details);
    r.init = packed_bytes(module(build), "ReplaySInitData", init);
    r.bytes()
}

fn compare(cx: &Ctx, key: &str, init: &InitData, details: &J, init_json: &J, replay: &dyn Fn() -> J) {
    cx.steps(2);
    cx.trace();
    let want = joined(details, init_json);
    match guard(|| Vec::<PlayerLobbyDetails>::try_from(init)) {
        Ok(Ok(v)) => {
            let got: Vec<J> = v.iter().map(|r| json!(r)).collect();
            if got != want {
                let f = p06::diff(&json!(got), &json!(want));
                cx.violation(&format!("{key}/{f}"), &format!("{f}: got {} want {}", trunc(&json!(got).to_string()), trunc(&json!(want).to_string())), replay());
            }
        }
        Ok(Err(e)) => cx.violation(&format!("{key}/refused"), &format!("{e:?}"), replay()),
        Err(p) => cx.violation(&format!("{key}/panic"), &p, replay()),
    }
    let rows: Vec<J> = match guard(|| Vec::<UserInitDataFlatRow>::from(init)) {
        Ok(v) => v.iter().map(|r| json!(r)).collect(),
        Err(p) => return cx.violation(&format!("{key}/users/panic"), &p, replay()),
    };
    let want = user_rows(init_json);
    if rows != want {
        let f = p06::diff(&json!(rows), &json!(want));
        cx.violation(&format!("{key}/users/{f}"), &format!("{f}: got {} want {}", trunc(&json!(rows).to_string()), trunc(&json!(want).to_string())), replay());
    }
}

pub fn me(s: &Scratch, tail: &str, bytes: &[u8]) -> std::path::PathBuf {
    s.file(&format!("{:?}{tail}.SC2Replay", std::thread::current().id()).replace(['(', ')'], ""), bytes)
}

/// The record of initial data that a file is to give.
pub fn init_json(v: &V, build: u32, path: &std::path::Path, bytes: &[u8], id: u64) -> Option<J> {
    let mut j = p07::agnostic(v, build)?;
    j["ext_fs_id"] = json!(id);
    j["ext_fs_file_name"] = json!(path.to_str().unwrap());
    j["ext_fs_sha256"] = json!(p07::sha256(bytes));
    Some(j)
}

/// Both records through one file.
pub fn whole(cx: &Ctx, s: &Scratch, key: &str, build: u32, details: &V, init: &V, id: u64, f: &dyn Fn(&str, &InitData, &J, &J, &dyn Fn() -> J)) {
    let bytes = file(build, details, init);
    whole_at(cx, me(s, "", &bytes), &bytes, key, build, details, init, id, f)
}

/// The same where the file lies at a path of its own.
#[allow(clippy::too_many_arguments)]
pub fn whole_at(cx: &Ctx, p: std::path::PathBuf, bytes: &[u8], key: &str, build: u32, details: &V, init: &V, id: u64, f: &dyn Fn(&str, &InitData, &J, &J, &dyn Fn() -> J)) {
    cx.state_bytes(bytes);
    let (Some(d), Some(i)) = (p06::agnostic(details), init_json(init, build, &p, bytes, id)) else { return };
    let replay = || json!({"details": d, "init": i});
    match guard(|| InitData::try_from((p.clone(), id))) {
        Ok(Ok(got)) => {
            let j = json!(got);
            if j != i {
                let k = p06::diff(&j, &i);
                cx.violation(&format!("{key}/init/{k}"), &format!("got {} want {}", trunc(&j.to_string()), trunc(&i.to_string())), replay());
            }
            f(key, &got, &d, &i, &replay)
        }
        r => cx.violation(&format!("{key}/init-refused"), &trunc(&format!("{r:?}")), replay()),
    }
}

pub fn run(cx: &Ctx) {
    let s = Scratch::new();
    let ids = [None, Some(0i64), Some(1), Some(5)];
    // Every list of up to three players.
    let mut lists: Vec<Vec<Option<i64>>> = vec![vec![]];
    let mut level = lists.clone();
    for _ in 0..3 {
        level = level.iter().flat_map(|l| ids.iter().map(move |i| l.iter().copied().chain([*i]).collect())).collect();
        lists.extend(level.clone());
    }
    let m = packed();
    // Lobbies: slot and user ids.
    let pairs: Vec<(Option<i64>, Option<i64>)> = ids.iter().flat_map(|a| [None, Some(0), Some(1), Some(2)].map(|b| (*a, b))).collect();
    let mut lobbies: Vec<(usize, Vec<(Option<i64>, Option<i64>)>)> = vec![];
    let mut level: Vec<Vec<_>> = vec![vec![]];
    for n in 0..=cx.pick(3usize, 3) {
        for l in &level {
            for users in if n == 3 && !cx.thorough { 2..=2 } else { 0..=3usize } {
                lobbies.push((users, l.clone()));
            }
        }
        level = level.iter().flat_map(|l| pairs.iter().map(move |p| l.iter().copied().chain([*p]).collect())).collect();
    }
    // The lobby records are read once each; the details file differs per list of players.
    let base = file(87702, &details_with(vec![]), &init_with(m, vec![], vec![]));
    let made: Vec<(InitData, J)> = {
        let out = std::sync::Mutex::new(vec![None; lobbies.len()]);
        let idx: Vec<usize> = (0..lobbies.len()).collect();
        par_for(&idx, |&i| {
            let (u, l) = &lobbies[i];
            let v = init_with(m, (0..*u).map(|i| user(m, i)).collect(), l.iter().map(|(a, b)| slot(m, *a, *b)).collect());
            let mut j = p07::agnostic(&v, 87702).unwrap();
            let bytes = packed_bytes(m, "ReplaySInitData", &v);
            let (contents, mpq) = archive(87702, &[("replay.initData", &bytes)]);
            let Ok(Ok(mut init)) = guard(|| s2protocol::read_init_data("x", &mpq, &contents)) else {
                cx.violation("lobby/refused", "the lobby cannot be read", json!({"lobby": format!("{l:?}")}));
                return;
            };
            (init.ext_fs_id, init.ext_fs_sha256) = (i as u64, format!("digest{i}"));
            j["ext_fs_id"] = json!(i);
            j["ext_fs_sha256"] = json!(format!("digest{i}"));
            // Names that a file does not give (an empty one) or that are in use twice.
            if i % 2 == 1 {
                for (n, u) in init.sync_lobby_state.user_initial_data.iter_mut().enumerate() {
                    u.name = if n == 1 { "player 0".into() } else { String::new() };
                    j["sync_lobby_state"]["user_initial_data"][n]["name"] = json!(u.name);
                }
            }
            out.lock().unwrap()[i] = Some((init, j));
        });
        out.into_inner().unwrap().into_iter().flatten().collect()
    };
    let _ = base;
    par_for(&lists, |l| {
        let d = details_with(l.iter().enumerate().map(|(i, s)| player(&format!("player {i}"), *s)).collect());
        let p = me(&s, "d", &file(87702, &d, &init_with(m, vec![], vec![])));
        let dj = p06::agnostic(&d).unwrap();
        for (init, j) in &made {
            let mut init = init.clone();
            let mut j = j.clone();
            init.ext_fs_file_name = p.to_str().unwrap().into();
            j["ext_fs_file_name"] = json!(init.ext_fs_file_name);
            compare(cx, "join", &init, &dj, &j, &|| json!({"players": format!("{l:?}"), "lobby": j["sync_lobby_state"]["lobby_state"]["slots"], "users": j["sync_lobby_state"]["user_initial_data"].as_array().unwrap().len()}));
        }
    });
    cx.states_add((lists.len() * made.len()) as u64);
    cx.phase("joins", json!({"player lists": lists.len(), "lobbies": made.len()}));
    // Full lobbies in every rotation, with boundary ids.
    let sizes: Vec<(usize, usize, usize)> = (1..=31usize).flat_map(|n| (0..n).filter(move |r| n <= 16 || r % 5 < 2).flat_map(move |r| [1usize, 8].map(|st| (n, r, st)))).collect();
    par_for(&sizes, |&(n, r, step)| {
        for build in [87702u32, 75689] {
            let m = module(build);
            let d = details_with((0..n).map(|i| player(&format!("p{i}"), Some((i * step) as i64))).collect());
            let v = init_with(m, (0..16).map(|i| user(m, i)).collect(), (0..n).map(|i| slot(m, Some((((i + r) % n) * step) as i64), if i % 5 == 4 { None } else { Some(((i * 7 + r) % 16) as i64) })).collect());
            whole(cx, &s, "full", build, &d, &v, (n * 100 + r) as u64, &|k, i, d, j, rp| compare(cx, k, i, d, j, rp));
        }
    });
    // Every field of every part of the join.
    let parts = ["GameSDetails", "GameSPlayerDetails", "GameSLobbySlot", "SUserInitialData", "GameSGameDescription"];
    let jobs: Vec<(&str, u32, bool)> = parts.iter().flat_map(|p| [(*p, 87702, false), (*p, 75689, false), (*p, 87702, true)]).collect();
    par_for(&jobs, |&(part, build, rich)| {
        let m = module(build);
        explore(1, |c: &mut Chooser| {
            let mut g = Gen::new(rich, true);
            let mut d = details_with(vec![player("one", Some(3)), player("two", Some(4))]);
            let mut users = vec![user(m, 0), user(m, 1)];
            let mut slots = vec![slot(m, Some(4), Some(1)), slot(m, Some(3), Some(0))];
            let mut desc = None;
            match part {
                "GameSDetails" => {
                    let v = g.gen_name(aligned(), c, part);
                    let l = d.field("m_player_list").clone();
                    d = with(v, &[("m_player_list", l)]);
                }
                "GameSPlayerDetails" => {
                    let v = g.gen_name(aligned(), c, part);
                    d = details_with(vec![player("one", Some(3)), with(v, &[("m_working_set_slot_id", opt(Some(4)))])]);
                }
                "GameSLobbySlot" => slots[0] = with(g.gen_name(m, c, part), &[("m_working_set_slot_id", opt(Some(4)))]),
                "SUserInitialData" => users[1] = g.gen_name(m, c, part),
                _ => desc = Some(g.gen_name(m, c, part)),
            }
            let mut v = init_with(m, users, slots);
            if let Some(x) = desc {
                let st = with(v.field("m_sync_lobby_state").clone(), &[("m_game_description", x)]);
                v.set("m_sync_lobby_state", st);
            }
            whole(cx, &s, part, build, &d, &v, u64::MAX, &|k, i, d, j, rp| compare(cx, k, i, d, j, rp));
        });
    });
    cx.phase("fields", json!({"parts": parts, "deviations": 1, "walking bits": true}));
    // Where the file lies, and how large it is.
    let names = [" before.SC2Replay", "after.SC2Replay ", "  ", "in side.SC2Replay", "-x", "noext", ".SC2Replay", "a.b.c", "Ä ö.SC2Replay", "sub/../up", "./here", "two//slashes", "tab\t.SC2Replay", "%20", "'quoted' \"name\"", "line\nbreak"];
    std::fs::create_dir(s.path().join("sub")).unwrap();
    std::fs::create_dir(s.path().join("two")).unwrap();
    let long = "n".repeat(255);
    let mut at: Vec<(String, usize)> = names.iter().map(|n| (n.to_string(), 0)).chain([(long, 0)]).collect();
    at.extend([1usize, 65_536, 1 << 20, 17 << 20].map(|n| (format!("large {n}"), n)));
    if cx.thorough {
        at.push(("larger".into(), 70 << 20));
    }
    let d = details_with(vec![player("one", Some(3)), player("two", Some(4))]);
    let v = init_with(m, vec![user(m, 0), user(m, 1)], vec![slot(m, Some(4), Some(1)), slot(m, Some(3), Some(0))]);
    par_for(&at, |(name, more)| {
        let mut bytes = file(87702, &d, &v);
        bytes.extend((0..*more).map(|i| (i % 251) as u8));
        let p = std::path::PathBuf::from(format!("{}/{name}", s.path().to_str().unwrap()));
        std::fs::write(&p, &bytes).unwrap();
        whole_at(cx, p, &bytes, "paths", 87702, &d, &v, *more as u64, &|k, i, d, j, rp| compare(cx, k, i, d, j, rp));
    });
    cx.phase("paths", json!({"names": at.len()}));
    cx.sample(json!({"players": ["slot 0", "slot 5"], "lobby": "slots 5, none, 0"}));
}
