//! Statistics over a directory of replays.
use super::*;
use crate::fx::*;
use crate::rp::*;
use crate::spec::*;
use s2protocol::dir_stats::{SC2ReplaysDirStats, scan_path};
use s2protocol::game_events::VersionedBalanceUnit;
use serde_json::{Value as J, json};
use std::collections::{BTreeMap, HashMap};
use std::os::unix::ffi::OsStrExt;
use std::path::Path;

/// A replay file and what it adds.
struct Kind {
    what: &'static str,
    bytes: Vec<u8>,
    /// Its initial data can be read.
    valid: bool,
    version: u32,
    map: Option<&'static str>,
    players: Vec<&'static str>,
}
fn player(name: &str, observe: i128) -> V {
    with(p21::player(name, Some(1)), &[("m_observe", int_like(default_of(aligned(), "GameSPlayerDetails").field("m_observe"), observe))])
}
fn obs(name: &str, tag: i64) -> V {
    let d = default_of(aligned(), "GameSPlayerDetails");
    let e = aligned().variants("EObserve").into_iter().find(|x| x.0 == tag).unwrap();
    let v = match d.field("m_observe") {
        V::Enum(..) => V::Enum(e.0, e.1, None),
        _ => V::Int(tag as i128),
    };
    with(player(name, 0), &[("m_observe", v)])
}
fn details(map: &str, players: Vec<V>) -> V {
    with(p21::details_with(players), &[("m_title", V::Bytes(map.as_bytes().to_vec()))])
}
fn replay(build: u32, d: &V) -> Vec<u8> {
    let m = module(build);
    p21::file(build, d, &p21::init_with(m, vec![], vec![]))
}

fn kinds() -> Vec<Kind> {
    let plain = |build: u32, map: &'static str, players: &[&'static str]| Kind {
        what: "plain",
        bytes: replay(build, &details(map, players.iter().map(|p| player(p, 0)).collect())),
        valid: true,
        version: build,
        map: Some(map),
        players: players.to_vec(),
    };
    let m = packed();
    let init = packed_bytes(m, "ReplaySInitData", &p21::init_with(m, vec![], vec![]));
    let det = tagged("GameSDetails", &details("Gone", vec![player("Gone", 0)]));
    let arch = |f: &[(&str, &[u8])]| crate::mpq::build(Some(&header(87702)), f);
    let broken = |what, bytes| Kind { what, bytes, valid: false, version: 0, map: None, players: vec![] };
    vec![
        plain(87702, "Map one", &["A", "B"]),
        plain(87702, "Map two", &["A", "C"]),
        plain(75689, "Map one", &["B", "B"]),
        plain(15405, "", &[]),
        plain(94137, "Map two", &["D"]),
        Kind { what: "observers", bytes: replay(91115, &details("Ärena", vec![player("A", 0), obs("O", 1), obs("R", 2), player("ß", 0)])), valid: true, version: 91115, map: Some("Ärena"), players: vec!["A", "ß"] },
        Kind { what: "without details", bytes: arch(&[("replay.initData", &init)]), valid: true, version: 87702, map: None, players: vec![] },
        Kind { what: "broken details", bytes: arch(&[("replay.initData", &init), ("replay.details", &det[..det.len() / 2])]), valid: true, version: 87702, map: None, players: vec![] },
        broken("without initial data", arch(&[("replay.details", &det)])),
        broken("no archive", b"no archive".to_vec()),
        broken("empty", vec![]),
    ]
}

struct Want {
    files: usize,
    valid: usize,
    with_abilities: usize,
    players: Vec<(String, usize)>,
    maps: Vec<(String, usize)>,
}
fn top(f: &BTreeMap<String, usize>) -> Vec<(String, usize)> {
    // most frequent first, equally frequent ones by name
    let mut out = vec![];
    let max = f.values().max().copied().unwrap_or(0);
    for n in (1..=max).rev() {
        out.extend(f.iter().filter(|x| *x.1 == n).map(|x| (x.0.clone(), n)));
    }
    out.truncate(10);
    out
}
fn model(list: &[&Kind], versions: &[u32]) -> Want {
    let (mut p, mut m) = (BTreeMap::new(), BTreeMap::new());
    for k in list {
        k.players.iter().for_each(|n| *p.entry(n.to_string()).or_insert(0) += 1);
        k.map.iter().for_each(|n| *m.entry(n.to_string()).or_insert(0) += 1);
    }
    Want {
        files: list.len(),
        valid: list.iter().filter(|k| k.valid).count(),
        with_abilities: list.iter().filter(|k| k.valid && versions.contains(&k.version)).count(),
        players: top(&p),
        maps: top(&m),
    }
}
fn check(cx: &Ctx, key: &str, got: Result<Result<SC2ReplaysDirStats, String>, String>, want: &Want, replay: &dyn Fn() -> J) {
    cx.steps(1);
    match got {
        Ok(Ok(s)) => {
            cx.expect_eq(&format!("{key}/files"), &s.total_files, &want.files, replay);
            cx.expect_eq(&format!("{key}/supported"), &s.total_supported_replays, &want.valid, replay);
            cx.expect_eq(&format!("{key}/abilities"), &s.ability_supported_replays, &want.with_abilities, replay);
            cx.expect_eq(&format!("{key}/players"), &s.top_10_players, &want.players, replay);
            cx.expect_eq(&format!("{key}/maps"), &s.top_10_maps, &want.maps, replay);
        }
        Ok(Err(e)) => cx.violation(&format!("{key}/error"), &e, replay()),
        Err(p) => cx.violation(&format!("{key}/panic"), &p, replay()),
    }
}
fn scan(root: &Path, units: &HashMap<(u32, String), VersionedBalanceUnit>, serially: bool) -> Result<Result<SC2ReplaysDirStats, String>, String> {
    guard(|| scan_path(root.to_str().unwrap(), units, serially).map_err(|e| e.to_string()))
}

pub fn run(cx: &Ctx) {
    let s = Scratch::new();
    let kinds = kinds();
    let unit: VersionedBalanceUnit = serde_json::from_value(crate::sm::minimal_unit("Probe", None)).unwrap();
    // Next to those of replays there are versions that are not theirs.
    let versions = [75689u32, 87702, 4711, 15404, 15406, 94100, 94136, 94138, 91114, 91116];
    let units: HashMap<(u32, String), VersionedBalanceUnit> = versions.iter().flat_map(|v| ["Probe", "SCV"].map(|n| ((*v, n.to_string()), unit.clone()))).collect();
    // Every multiset of kinds.
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    let mut level = lists.clone();
    for _ in 0..cx.pick(4, 6) {
        level = level.iter().flat_map(|l| (l.last().copied().unwrap_or(0)..kinds.len()).map(move |k| l.iter().copied().chain([k]).collect())).collect();
        lists.extend(level.clone());
    }
    let jobs: Vec<(usize, &Vec<usize>)> = lists.iter().enumerate().collect();
    par_for(&jobs, |(n, l)| {
        let root = s.path().join(format!("l{n}"));
        std::fs::create_dir_all(root.join("deeper/and deeper")).unwrap();
        let list: Vec<&Kind> = l.iter().map(|k| &kinds[*k]).collect();
        let want = model(&list, &versions);
        for layout in 0..3 {
            let names: Vec<std::path::PathBuf> = l
                .iter()
                .enumerate()
                .map(|(i, _)| {
                    let dir = if layout == 1 && i % 2 == 0 { root.join("deeper/and deeper") } else { root.clone() };
                    match layout {
                        2 if i == 0 => dir.join(std::ffi::OsStr::from_bytes(b"caf\xe9.SC2Replay")),
                        _ => dir.join(format!("{}{i}.SC2Replay", ["z", "a", "Ä"][i % 3])),
                    }
                })
                .collect();
            for (p, k) in names.iter().zip(&list) {
                std::fs::write(p, &k.bytes).unwrap();
            }
            std::fs::write(root.join("remarks.txt"), b"x").unwrap();
            // a file whose name is no text is counted, and not read
            let w2;
            let w = if layout == 2 && !l.is_empty() {
                w2 = Want { files: l.len(), ..model(&list[1..], &versions) };
                &w2
            } else {
                &want
            };
            cx.state_bytes(format!("{l:?}{layout}").as_bytes());
            cx.trace();
            for serially in [true, false] {
                check(cx, if layout == 2 { "strange-name" } else { "lists" }, scan(&root, &units, serially), w, &|| json!({"replays": list.iter().map(|k| k.what).collect::<Vec<_>>(), "layout": layout, "serially": serially}));
            }
            names.iter().for_each(|p| std::fs::remove_file(p).unwrap());
        }
        std::fs::remove_dir_all(&root).unwrap();
    });
    cx.phase("lists", json!({"multisets": lists.len(), "layouts": 3, "serial and parallel": true}));
    // Rankings: twelve names with every distribution of the frequencies 0 to 3, as players and as maps.
    let names = ["Bob", "alice", "Zed", "Ärne", "a", "B", "ab", "aa", "10", "9", " x", "Bob2"];
    let mut shares: Vec<[usize; 4]> = vec![];
    for a in 0..=12 {
        for b in 0..=12 - a {
            for c in 0..=12 - a - b {
                shares.push([a, b, c, 12 - a - b - c]);
            }
        }
    }
    let jobs: Vec<(usize, usize)> = (0..shares.len()).flat_map(|i| (0..cx.pick(2, 12)).map(move |r| (i, r))).collect();
    par_for(&jobs, |&(i, rot)| {
        let root = s.path().join(format!("s{i}-{rot}"));
        std::fs::create_dir(&root).unwrap();
        let mut freq: Vec<usize> = shares[i].iter().enumerate().flat_map(|(f, n)| vec![f; *n]).collect();
        freq.rotate_left(rot * 5 % 12);
        let (mut pm, mut mm) = (BTreeMap::new(), BTreeMap::new());
        let mut files = 0;
        // players: three games, the k-th has everyone of frequency above k
        for k in 0..3usize {
            let there: Vec<&str> = names.iter().zip(&freq).filter(|x| *x.1 > k).map(|x| *x.0).collect();
            std::fs::write(root.join(format!("p{k}.SC2Replay")), replay(87702, &details("zz", there.iter().map(|n| player(n, 0)).collect()))).unwrap();
            there.iter().for_each(|n| *pm.entry(n.to_string()).or_insert(0) += 1);
            *mm.entry("zz".to_string()).or_insert(0) += 1;
            files += 1;
        }
        if rot % 2 == 1 {
            for (n, f) in names.iter().zip(&freq) {
                for k in 0..*f {
                    std::fs::write(root.join(format!("m{files}-{k}.SC2Replay")), replay(75689, &details(n, vec![]))).unwrap();
                    *mm.entry(n.to_string()).or_insert(0) += 1;
                    files += 1;
                }
            }
        }
        let want = Want { files, valid: files, with_abilities: files, players: top(&pm), maps: top(&mm) };
        cx.trace();
        cx.states_add(1);
        for serially in [true, false] {
            check(cx, "ranking", scan(&root, &units, serially), &want, &|| json!({"frequencies": format!("{:?}", names.iter().zip(&freq).collect::<Vec<_>>()), "serially": serially}));
        }
        std::fs::remove_dir_all(&root).unwrap();
    });
    cx.phase("rankings", json!({"distributions": shares.len(), "cases": jobs.len()}));
    // Many files: several threads, each order of completion.
    let root = s.path().join("many");
    std::fs::create_dir(&root).unwrap();
    let mut list = vec![];
    for i in 0..200 {
        let k = &kinds[(i * 7 + i / 10) % kinds.len()];
        std::fs::write(root.join(format!("{i}.SC2Replay")), &k.bytes).unwrap();
        list.push(k);
    }
    let want = model(&list, &versions);
    cx.trace();
    for n in [1usize, 2, 3, 8] {
        let pool = s2protocol_pool(n);
        for serially in [true, false] {
            check(cx, "many", pool.install(|| scan(&root, &units, serially)), &want, &|| json!({"threads": n, "serially": serially}));
        }
    }
    // A replay at every depth: ten levels of directories are looked into.
    let deep = s.path().join("deep");
    let mut at = deep.clone();
    for d in 0..13 {
        std::fs::create_dir(&at).unwrap();
        std::fs::write(at.join(format!("{d}.SC2Replay")), &kinds[d % 3].bytes).unwrap();
        at = at.join("inner");
        // Those within the first d + 1 levels.
        let want = model(&(0..=d.min(9)).map(|d| &kinds[d % 3]).collect::<Vec<_>>(), &versions);
        for serially in [true, false] {
            check(cx, "deep", scan(&deep, &units, serially), &want, &|| json!({"levels": d + 1, "serially": serially}));
        }
    }
    // Thousands of files, few of them replays.
    let crowd = s.path().join("crowd");
    let n = cx.pick(3_000, 70_000);
    let mut crowded = vec![];
    for i in 0..n {
        let k = &kinds[if i % 100 == 99 { i / 100 % 7 } else { 9 + i % 2 }];
        let dir = crowd.join(format!("{}", i % 17));
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(dir.join(format!("{i}.SC2Replay")), &k.bytes).unwrap();
        crowded.push(k);
    }
    for serially in [true, false] {
        check(cx, "crowd", scan(&crowd, &units, serially), &model(&crowded, &versions), &|| json!({"files": n, "serially": serially}));
    }
    // No directory, and the balance data that comes with the library.
    let none = Want { files: 0, valid: 0, with_abilities: 0, players: vec![], maps: vec![] };
    check(cx, "nowhere", scan(&s.path().join("nowhere"), &units, true), &none, &|| json!("no directory"));
    for serially in [true, false] {
        let got = guard(|| SC2ReplaysDirStats::from_directory(root.to_str().unwrap(), serially).map_err(|e| e.to_string()));
        let included: Vec<u32> = std::fs::read_dir("/repo/assets/BalanceData").unwrap().flatten().filter_map(|d| d.file_name().to_string_lossy().parse().ok()).collect();
        check(cx, "included", got, &model(&list, &included), &|| json!({"serially": serially}));
    }
    cx.sample(json!({"replays": ["Map one: A, B", "Map two: A, C", "no archive"], "players": [["A", 2], ["B", 1], ["C", 1]]}));
}

fn s2protocol_pool(n: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()
}
