//! The flat rows of the details.
use super::*;
use crate::choose::{Chooser, explore};
use crate::fx::*;
use crate::rp::*;
use crate::spec::*;
use s2protocol::InitData;
use s2protocol::details::{PlayerLobbyDetails, PlayerLobbyDetailsFlatRow};
use serde_json::{Value as J, json};

/// Bytes read as Latin-1.
fn latin(hex: &str) -> String {
    (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap() as char).collect()
}

/// The date, if nanoseconds since 1970 in 64 bits reach it.
fn stored(p: &J) -> J {
    let micros = p["time_utc"].as_i64().unwrap() as i128 / 10 - 11_644_473_600_000_000 - p["time_local_offset"].as_i64().unwrap() as i128 / 10;
    if i64::try_from(micros * 1000).is_ok() { p["ext_datetime"].clone() } else { json!("1970-01-01T00:00:00") }
}

/// The flat row of a joined player.
pub fn flat(p: &J) -> J {
    let d = &p["player_details"];
    let usable: Vec<&str> = p["cache_handles"].as_array().unwrap().iter().map(|h| h.as_str().unwrap()).filter(|h| h.len() >= 16).collect();
    let first = usable.first();
    json!({
        "player_name": d["name"], "player_toon_region": d["toon"]["region"], "player_toon_program_id": d["toon"]["program_id"],
        "player_toon_realm": d["toon"]["realm"], "player_toon_id": d["toon"]["id"], "player_race": d["race"],
        "player_color_a": d["color"]["a"], "player_color_r": d["color"]["r"], "player_color_g": d["color"]["g"], "player_color_b": d["color"]["b"],
        "player_control": d["control"], "player_team_id": d["team_id"], "player_observe": d["observe"], "player_result": d["result"],
        "player_working_set_slot_id": d["working_set_slot_id"], "player_hero": d["hero"],
        "title": p["title"], "is_blizzard_map": p["game_description"]["is_blizzard_map"],
        "time_utc": p["time_utc"], "time_local_offset": p["time_local_offset"],
        "lobby_slot_user_id": p["lobby_slot"]["user_id"], "lobby_slot_observe": p["lobby_slot"]["observe"],
        "lobby_slot_map_size_x": p["game_description"]["map_size_x"], "lobby_slot_map_size_y": p["game_description"]["map_size_y"],
        "cache_handle_region": first.map(|h| latin(&h[12..16])), "cache_handle_extension": first.map(|h| latin(&h[0..8])),
        "cache_handles": usable.iter().map(|h| &h[16..]).collect::<Vec<_>>().join(","),
        "ext_fs_sha256": p["ext_fs_sha256"], "ext_fs_file_name": p["ext_fs_file_name"], "ext_fs_id": p["ext_fs_id"], "ext_datetime": stored(p),
    })
}

fn compare(cx: &Ctx, key: &str, init: &InitData, details: &J, init_json: &J, replay: &dyn Fn() -> J) {
    cx.steps(1);
    cx.trace();
    let want: Vec<J> = p21::joined(details, init_json).iter().map(flat).collect();
    match guard(|| Vec::<PlayerLobbyDetails>::try_from(init).map(|v| v.into_iter().map(PlayerLobbyDetailsFlatRow::from).collect::<Vec<_>>())) {
        Ok(Ok(v)) => {
            let got: Vec<J> = v.iter().map(|r| json!(r)).collect();
            if got != want {
                let f = p06::diff(&json!(got), &json!(want));
                cx.violation(&format!("{key}/{f}"), &format!("{f}: got {} want {}", trunc(&json!(got).to_string()), trunc(&json!(want).to_string())), replay());
            }
        }
        Ok(Err(e)) => cx.violation(&format!("{key}/refused"), &format!("{e:?}"), replay()),
        Err(p) => cx.violation(&format!("{key}/panic"), &p, replay()),
    }
}

pub fn run(cx: &Ctx) {
    let s = Scratch::new();
    let m = packed();
    let init = p21::init_with(m, vec![p21::user(m, 0), p21::user(m, 1)], vec![p21::slot(m, Some(4), Some(1)), p21::slot(m, None, None), p21::slot(m, Some(3), Some(0))]);
    let base = || p21::details_with(vec![p21::player("one", Some(3)), p21::player("two", Some(4)), p21::player("gone", Some(9))]);
    let go = |key: &str, d: &V, i: &V, build: u32, id: u64| p21::whole(cx, &s, key, build, d, i, id, &|k, i, d, j, rp| compare(cx, k, i, d, j, rp));
    // Cache handles: every length, and every list of some kinds of them.
    let handle = |ext: &[u8], zeros: &[u8], region: &[u8], hash: usize| -> Vec<u8> { [ext, zeros, region, &(0..hash).map(|i| (i * 37 + ext[3] as usize) as u8).collect::<Vec<_>>()].concat() };
    let full = |h: u8| handle(b"s2ma", &[0, 0], b"EU", h as usize);
    let with_handles = |hs: Vec<Vec<u8>>| {
        let l = V::Opt(Some(Box::new(V::Arr(hs.into_iter().map(V::Bytes).collect()))));
        with(base(), &[("m_cache_handles", l)])
    };
    for n in 0..=48usize {
        let mut h = full(40);
        h.truncate(n);
        for l in [vec![h.clone()], vec![h.clone(), full(32)], vec![full(32), h.clone()], vec![full(32), h.clone(), handle(b"s2mh", &[0, 0], b"US", 32)]] {
            go("handles/length", &with_handles(l), &init, 87702, 1);
        }
    }
    let kinds: Vec<Vec<u8>> = vec![
        handle(b"s2ma", &[0, 0], b"EU", 32),
        handle(b"s2mh", &[0, 0], b"US", 32),
        handle(b"s2ml", &[1, 0xff], b"KR", 32),
        handle(&[0, 0x80, 0xff, b','], &[0, 0], &[0xe9, 0], 2),
        handle(b"s2ma", &[0, 0], b"CN", 0),
        b"s2ma\0\0E".to_vec(),
        vec![],
    ];
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    let mut level = lists.clone();
    for _ in 0..cx.pick(3, 5) {
        level = level.iter().flat_map(|l| (0..kinds.len()).map(move |i| l.iter().copied().chain([i]).collect())).collect();
        lists.extend(level.clone());
    }
    par_for(&lists, |l| go("handles/list", &with_handles(l.iter().map(|i| kinds[*i].clone()).collect()), &init, 87702, 2));
    go("handles/absent", &with(base(), &[("m_cache_handles", V::Opt(None))]), &init, 87702, 3);
    go("handles/many", &with_handles((0..11).map(|i| kinds[i % kinds.len()].clone()).collect()), &init, 87702, 4);
    cx.phase("cache handles", json!({"lists": lists.len(), "lengths": "0..48"}));
    // Every byte in every place of the extension and the region.
    let bytes: Vec<u8> = (0..=255).collect();
    par_for(&bytes, |&b| {
        for at in [0usize, 1, 2, 3, 4, 5, 6, 7, 8] {
            let mut h = full(4);
            h[at] = b;
            go("handles/bytes", &with_handles(vec![h]), &init, 87702, b as u64);
        }
    });
    // Every field of every part.
    let parts = ["GameSDetails", "GameSPlayerDetails", "GameSLobbySlot", "GameSGameDescription"];
    let jobs: Vec<(&str, u32, bool, usize)> = parts.iter().flat_map(|p| [(*p, 87702, false, cx.pick(1, 2)), (*p, 75689, false, 1), (*p, 87702, true, 1)]).collect();
    par_for(&jobs, |&(part, build, rich, k)| {
        let m = module(build);
        explore(k, |c: &mut Chooser| {
            let mut g = Gen::new(rich, true);
            let mut d = base();
            let mut slots = vec![p21::slot(m, Some(4), Some(1)), p21::slot(m, Some(3), Some(0))];
            let mut desc = None;
            match part {
                "GameSDetails" => {
                    let l = d.field("m_player_list").clone();
                    d = with(g.gen_name(aligned(), c, part), &[("m_player_list", l)]);
                }
                "GameSPlayerDetails" => {
                    let v = g.gen_name(aligned(), c, part);
                    d = p21::details_with(vec![p21::player("one", Some(3)), with(v, &[("m_working_set_slot_id", p21::opt(Some(4)))])]);
                }
                "GameSLobbySlot" => slots[0] = with(g.gen_name(m, c, part), &[("m_working_set_slot_id", p21::opt(Some(4)))]),
                _ => desc = Some(g.gen_name(m, c, part)),
            }
            let mut v = p21::init_with(m, vec![p21::user(m, 0)], slots);
            if let Some(x) = desc {
                let st = with(v.field("m_sync_lobby_state").clone(), &[("m_game_description", x)]);
                v.set("m_sync_lobby_state", st);
            }
            go(part, &d, &v, build, 0x8000_0000_0000_0001);
        });
    });
    cx.phase("fields", json!({"parts": parts, "walking bits": true}));
    cx.sample(json!({"handle": hex(&kinds[0])}));
}
