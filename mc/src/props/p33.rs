//! Readings are independent of each other: what an operation gives depends on its input alone. Every
//! operation in processes of its own, every ordered pair (triple) of operations in one process on one
//! and on two threads with their inputs at the same place, every interleaving of two iterations, and
//! every operation between any two steps of an iteration.
use super::*;
use crate::rp::*;
use crate::sm::*;
use s2protocol::arrow_store::{ArrowIpcTypes, WriteArrowIpcProps};
use s2protocol::cache_handles::document_header::DocumentHeader;
use s2protocol::cache_handles::map_info::MapInfo;
use s2protocol::cache_handles::t3_height_map::T3HeightMap;
use s2protocol::game_events::*;
use s2protocol::{InitData, SC2EventIterator};
use serde_json::{Value as J, json};
use std::collections::HashMap;
use std::path::{Path, PathBuf};

type Units = HashMap<(u32, String), VersionedBalanceUnit>;

/// The inputs: replays, balance data and map files that share their keys and differ in what they say.
pub struct World {
    replays: Vec<Vec<u8>>,
    units: Vec<Units>,
}
const BUILDS: [u32; 4] = [87702, 87702, 75689, 87702];

fn game(who: usize) -> Vec<(i64, Ev)> {
    // The same tags, users, players and links all over, other units and names behind them.
    let name = |i: usize| ["Probe", "Marine", "Nexus", "Zergling"][(who + i) % 4];
    let p = |i: u8| 1 + (who as u8 + i) % 2;
    let (t1, t2) = (tag(1, 1), tag(2, 1));
    let n = who as u8;
    let mut v = vec![
        setup(p(0), Some(0), Some(0)),
        setup(p(1), Some(3), Some(1)),
        born(1, 1, name(0), p(0), (10 + n, 20), None, None),
        born(2, 1, name(1), p(1), (30, 40 + n), Some(1), Some("Train")),
        select(0, 10, &[t1, t2]),
        select(3, 10, &[t2]),
        group(0, 4, GameEControlGroupUpdate::ESet),
        cmd(0, Some((10, 0)), GameSCmdData::TargetPoint(coord(4096, 8191 + who as i64, -4096)), 1),
        cmd(3, Some((10, 0)), GameSCmdData::TargetUnit(target(t1, 1)), 2),
        upd_unit(0, target(t2, 4)),
        cmd(0, Some((11, 0)), GameSCmdData::TargetUnit(target(t2, 1)), 3),
        cam_save(0, 5 + who as i64, 6),
        cam_upd(3, Some((7, 8 + who as i64))),
        change(1, name(2)),
        positions(1, &[0, 4 + who as i32, 5]),
        upgrade(p(0)),
        p18::stats(p(1), 3 + who as i32),
        uinit(6, name(3), p(0), (7, 6)),
        done(6),
        died(2, Some(1)),
    ];
    if who == 3 {
        // Both users play for the same player.
        v[1] = setup(p(0), Some(3), Some(1));
        v[5] = setup(p(0), Some(0), None);
    }
    if who % 2 == 1 {
        v.swap(2, 3);
        v.push(died(1, None));
    }
    v.into_iter().enumerate().map(|(i, e)| (10 * i as i64 + who as i64, e)).collect()
}

impl World {
    pub fn new() -> Self {
        let names: [[&str; 2]; 4] = [["Ann", "Bob"], ["Bob", "Cid"], ["Ann", "Eve"], ["Bob", "Ann"]];
        let mut replays: Vec<Vec<u8>> = (0..4).map(|i| p18::source(["a", "b", "c", "d"][i], BUILDS[i], &[(0, names[i][0]), (3, names[i][1])], game(i)).bytes).collect();
        // One that is no replay, and one whose events end in the middle.
        replays.push(b"no replay".to_vec());
        let mut cut = Replay::new(87702, &[(0, "Ann"), (3, "Bob")]);
        cut.push(&game(0));
        cut.game.truncate(cut.game.len() / 2 + 1);
        cut.tracker.truncate(cut.tracker.len() / 2 + 1);
        replays.push(cut.bytes());
        // Of one length, with bytes after the end of the archive.
        let n = replays.iter().map(|r| r.len()).max().unwrap();
        replays.iter_mut().for_each(|r| r.resize(n, 0));
        // The same units for the same versions, with other radii and commands.
        let units = (0..2)
            .map(|w| {
                let mut u: Units = p17::versions(87702);
                u.extend(p17::versions(75689));
                if w == 1 {
                    for ((v, n), x) in u.iter_mut() {
                        let mut j = minimal_unit(n, Some(7.5 + *v as f32 % 8.0));
                        j["abilities"] = json!({"ability": [
                            {"@id": "other", "@index": 10, "command": [{"@id": "Thing", "@index": 0, "meta": {"@name": "1", "@tooltip": "2"}}]},
                            {"@id": "more", "@index": 11, "command": [{"@id": "Things", "@index": 0, "meta": {"@name": "1", "@tooltip": "2"}}]}]});
                        *x = serde_json::from_value(j).unwrap();
                    }
                }
                u
            })
            .collect();
        World { replays, units }
    }
}

pub type Op = (String, Box<dyn Fn(&World, &Path) -> String + Sync + Send>);

/// The place of an input in the slot: always the same one for the same sort of input.
fn put(slot: &Path, name: &str, data: &[u8]) -> PathBuf {
    let p = slot.join(name);
    std::fs::write(&p, data).unwrap();
    // Neither the length nor the time tells the files apart.
    let time = std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_700_000_000);
    std::fs::File::options().write(true).open(&p).unwrap().set_modified(time).unwrap();
    p
}
fn fresh(slot: &Path, name: &str) -> PathBuf {
    let p = slot.join(name);
    let _ = std::fs::remove_dir_all(&p);
    std::fs::create_dir_all(&p).unwrap();
    p
}
fn sorted_rows(mut v: Vec<J>) -> String {
    // The numbers the files of a directory get are in the order in which the system lists them.
    v.iter_mut().for_each(|r| {
        r.as_object_mut().unwrap().remove("ext_fs_id");
    });
    let mut v: Vec<String> = v.into_iter().map(|r| r.to_string()).collect();
    v.sort();
    format!("{v:?}")
}
fn init_at(w: &World, slot: &Path, r: usize) -> Result<InitData, String> {
    let p = put(slot, "game.SC2Replay", &w.replays[r]);
    InitData::try_from((p, 77)).map_err(|_| "error".to_string())
}
pub fn iterator(w: &World, slot: &Path, r: usize, t: usize) -> Result<SC2EventIterator, String> {
    SC2EventIterator::new(&init_at(w, slot, r)?, w.units[t].clone()).map_err(|_| "error".to_string())
}
fn iterate(mut it: SC2EventIterator) -> String {
    let mut out = vec![];
    while let Some(i) = it.next() {
        out.push(p30::show_item(&i));
    }
    format!("{out:?} {}", p30::show_state(&it.sc2_state))
}
fn unit_file(which: usize) -> J {
    let mut j = minimal_unit("Probe", Some([0.5, 1.5][which]));
    let name = ["stop", "halt"][which];
    j["abilities"] = json!({"ability": [{"@id": name, "@index": 10, "command": [{"@id": "Stop", "@index": 0, "meta": {"@name": "1", "@tooltip": "2"}}]}]});
    j["@id"] = json!("Probe");
    j
}
fn table<E>(m: Result<MultiVersionedBalanceUnits, E>) -> String {
    match m {
        Ok(m) => {
            let mut v: Vec<String> = m.into_iter().map(|(k, u)| format!("{k:?} {} {}", u.version, json!(u))).collect();
            v.sort();
            format!("{} {:016x} {}", v.len(), hash_bytes(v.concat().as_bytes()), trunc(&v.concat()))
        }
        Err(_) => "error".into(),
    }
}
fn directory(w: &World, slot: &Path, which: usize) -> PathBuf {
    let d = fresh(slot, "dir");
    let list: [&[usize]; 2] = [&[0, 2, 4], &[1, 3, 5]];
    for (i, r) in list[which].iter().enumerate() {
        let at = if i == 1 { d.join("inner") } else { d.clone() };
        std::fs::create_dir_all(&at).unwrap();
        put(&at, &format!("{i}.SC2Replay"), &w.replays[*r]);
    }
    d
}

pub fn ops() -> Vec<Op> {
    let mut out: Vec<Op> = vec![];
    let mut op = |n: String, f: Box<dyn Fn(&World, &Path) -> String + Sync + Send>| out.push((n, f));
    for (r, t) in [(0, 0), (0, 1), (1, 0), (2, 1), (3, 0), (5, 0), (4, 0)] {
        op(format!("iterate {r} with {t}"), Box::new(move |w, s| iterator(w, s, r, t).map(iterate).unwrap_or_else(|e| e)));
    }
    for r in 0..6 {
        op(format!("initial data {r}"), Box::new(move |w, s| init_at(w, s, r).map(|i| json!(i).to_string()).unwrap_or_else(|e| e)));
    }
    for (r, t) in [(0, 0), (1, 1), (2, 0)] {
        op(format!("rows {r} with {t}"), Box::new(move |w, s| init_at(w, s, r).map(|i| json!(p17::collected(&i, &w.units[t])).to_string()).unwrap_or_else(|e| e)));
    }
    for r in [0, 1, 2, 5] {
        op(
            format!("streams {r}"),
            Box::new(move |w, _| {
                let b = &w.replays[r];
                let m = crate::mpq::parse(b);
                let (t, g, d) = (s2protocol::read_tracker_events("x", &m, b), s2protocol::read_game_events("x", &m, b), s2protocol::read_details("x", &m, b));
                format!("{:?} {:?} {:?}", t.map_err(|_| "error".to_string()), g.map_err(|_| "error".to_string()), d.map_err(|_| "error".to_string()))
            }),
        );
    }
    for which in 0..2 {
        for serially in [true, false] {
            op(
                format!("statistics {which} {serially}"),
                Box::new(move |w, s| match s2protocol::dir_stats::scan_path(directory(w, s, which).to_str().unwrap(), &w.units[which], serially) {
                    Ok(s) => format!("{} {} {} {:?} {:?}", s.total_files, s.total_supported_replays, s.ability_supported_replays, s.top_10_players, s.top_10_maps),
                    Err(_) => "error".into(),
                }),
            );
            op(
                format!("snapshot {which} {serially}"),
                Box::new(move |w, s| {
                    let (d, out) = (directory(w, s, which), fresh(s, "out"));
                    let c = WriteArrowIpcProps { scan_max_files: 10, process_max_files: 10, traverse_max_depth: 5, min_version: None, max_version: None };
                    if ArrowIpcTypes::handle_arrow_ipc_cmd(d, out.clone(), &c, &w.units[which], serially).is_err() {
                        return "error".into();
                    }
                    let mut text = String::new();
                    for f in ["details", "stats", "upgrades", "unit_born", "unit_died", "cmd_target_point", "cmd_target_unit"] {
                        match p18::read(&out.join(format!("{f}.arrow"))) {
                            Ok((schema, rows)) => text += &format!("{f} {schema:?} {}\n", sorted_rows(rows.concat())),
                            Err(_) => text += &format!("{f} error\n"),
                        }
                    }
                    text
                }),
            );
        }
        op(
            format!("files {which}"),
            Box::new(move |w, s| {
                let mut v = s2protocol::get_matching_files(directory(w, s, which), 10, 5).map_err(|_| "error".to_string());
                if let Ok(v) = &mut v {
                    v.sort();
                }
                format!("{v:?}")
            }),
        );
        op(
            format!("json {which}"),
            Box::new(move |_, s| {
                let d = fresh(s, "balance");
                std::fs::create_dir_all(d.join("95001")).unwrap();
                put(&d, "95001/Probe.json", unit_file(which).to_string().as_bytes());
                table(read_balance_data_from_json_dir(&d))
            }),
        );
        op(
            format!("xml {which}"),
            Box::new(move |_, s| {
                let d = fresh(s, "balance");
                std::fs::create_dir_all(d.join("95001/BalanceData")).unwrap();
                put(&d, "95001/BalanceData/Probe.xml", p25::xml_file(&unit_file(which), 1).as_bytes());
                table(traverse_versioned_balance_abilities(&d))
            }),
        );
        op(
            format!("map {which}"),
            Box::new(move |_, _| {
                let b = p23::info_bytes(38, 3 + which as i32, 4, 4, [b"Dark", b"Light", b"", b"p"], [0, 1, 2, 3 + which as i32], 9, b"tail");
                let Ok((rest, i)) = MapInfo::parse(&b) else { return "no map".into() };
                let h = p23::height_bytes(i.cell_width, i.cell_height, &|i| (i * 7 + which) as u8, b"tail");
                let d = p23::doc_bytes([1, 2, 3, 4 + which as i32], [b"one", b"two"][which], &[(b"DocInfo/Name", [b"N1", b"N2"][which])], b"tail");
                let (h, d) = (T3HeightMap::parse(&h, &i).map(|h| (h.0.len(), format!("{:?}", h.1))), DocumentHeader::parse(&d).map(|d| (d.0.len(), format!("{:?}", d.1))));
                format!("{} {i:?} {:?} {:?}", rest.len(), h.ok(), d.ok())
            }),
        );
        op(
            format!("numbers {which}"),
            Box::new(move |_, _| {
                let x = which as i64;
                let l: Vec<u32> = [x, 1000 + x, 70_000 * (x + 1), i64::MAX - x].iter().flat_map(|l| [s2protocol::convert_game_loop_to_seconds(*l), s2protocol::convert_tracker_loop_to_seconds(*l)]).collect();
                let d = s2protocol::transform_to_naivetime(132_223_104_012_345_678 + x * 864_000_000_000, 72_000_000_000 * x);
                let c = ["Probe", "Zergling", "Marine", "Nobody"].map(|n| format!("{:?}", s2protocol::state::get_unit_sized_color(n, 1 + x, &Default::default())));
                format!("{l:?} {d:?} {c:?} {}", s2protocol::tracker_events::unit_tag(5 + which as u32, 6))
            }),
        );
    }
    op("included".into(), Box::new(|_, _| table(read_balance_data_from_included_assets())));
    out
}

/// What an operation gives, in words without the place.
pub fn perform(o: &Op, w: &World, slot: &Path) -> String {
    let s = match guard(|| (o.1)(w, slot)) {
        Ok(s) => s,
        Err(_) => "panic".into(),
    };
    s.replace(slot.to_str().unwrap(), "<slot>")
}

/// `mc worker p33 SLOT how ops…`: the operations one after the other, their results as a list.
pub fn worker(args: &[String]) {
    let (slot, how) = (PathBuf::from(&args[0]), args[1].as_str());
    let (w, ops) = (World::new(), ops());
    let list: Vec<usize> = args[2..].iter().map(|a| a.parse().unwrap()).collect();
    let mut out = vec![];
    for i in list {
        out.push(match how {
            "threads" => std::thread::scope(|s| s.spawn(|| perform(&ops[i], &w, &slot)).join().unwrap()),
            _ => perform(&ops[i], &w, &slot),
        });
    }
    println!("{}", json!(out));
}

fn process(scratch: &Scratch, how: &str, list: &[usize]) -> Result<Vec<String>, String> {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let slot = scratch.path().join(format!("w{}", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
    std::fs::create_dir_all(&slot).unwrap();
    let o = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["worker", "p33", slot.to_str().unwrap(), how])
        .args(list.iter().map(|i| i.to_string()))
        .stdin(std::process::Stdio::null())
        .env("RAYON_NUM_THREADS", "2")
        .output()
        .unwrap();
    std::fs::remove_dir_all(&slot).unwrap();
    let text = String::from_utf8_lossy(&o.stdout);
    text.lines().last().and_then(|l| serde_json::from_str(l).ok()).ok_or_else(|| format!("{} {}", o.status, String::from_utf8_lossy(&o.stderr)))
}

fn first_difference(a: &str, b: &str) -> String {
    let n = a.bytes().zip(b.bytes()).take_while(|(a, b)| a == b).count();
    let cut = |s: &str| {
        let b = &s.as_bytes()[n.saturating_sub(60).min(s.len())..(n + 60).min(s.len())];
        String::from_utf8_lossy(b).to_string()
    };
    format!("…{}… instead of …{}…", cut(a), cut(b))
}

/// All interleavings of n and m steps.
fn interleavings(n: usize, m: usize) -> Vec<Vec<bool>> {
    if n + m == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    if n > 0 {
        out.extend(interleavings(n - 1, m).into_iter().map(|mut v| {
            v.push(false);
            v
        }));
    }
    if m > 0 {
        out.extend(interleavings(n, m - 1).into_iter().map(|mut v| {
            v.push(true);
            v
        }));
    }
    out
}

/// An iteration in so many chunks.
struct Going {
    it: SC2EventIterator,
    out: Vec<String>,
    chunk: usize,
}
impl Going {
    fn new(w: &World, slot: &Path, r: usize, t: usize, chunk: usize) -> Self {
        Going { it: iterator(w, slot, r, t).unwrap(), out: vec![], chunk }
    }
    fn go(&mut self) {
        for _ in 0..self.chunk {
            match self.it.next() {
                Some(i) => self.out.push(p30::show_item(&i)),
                None => break,
            }
        }
    }
    fn end(mut self, slots: &[PathBuf; 2]) -> String {
        self.chunk = 1000;
        self.go();
        let text = format!("{:?} {}", self.out, p30::show_state(&self.it.sc2_state));
        slots.iter().fold(text, |t, s| t.replace(s.to_str().unwrap(), "<slot>"))
    }
}

fn pairs(cx: &Ctx, s: &Scratch) {
    let w = World::new();
    let slots = [0, 1].map(|i| fresh(s.path(), &format!("pair{i}")));
    let plain = |(r, t): (usize, usize)| Going::new(&w, &slots[0], r, t, 1000).end(&slots);
    // The files lie at the same place, one after the other, or at two places.
    let n = cx.pick(5, 7);
    let all = interleavings(n, n);
    let both: Vec<((usize, usize), (usize, usize))> = vec![((0, 0), (0, 1)), ((0, 0), (1, 0)), ((1, 0), (2, 1)), ((0, 0), (0, 0)), ((3, 0), (5, 0))];
    for (x, y) in &both {
        let (wx, wy) = (plain(*x), plain(*y));
        for apart in [false, true] {
            for threads in [false, true] {
                // One of the two is made before or after the other has begun.
                let copies = (Going::new(&w, &slots[0], x.0, x.1, 1), Going::new(&w, &slots[apart as usize], y.0, y.1, 1));
                let total = game(0).len() + 1;
                let chunk = total.div_ceil(n);
                par_for(&all, |order| {
                    cx.trace();
                    cx.steps(order.len() as u64);
                    cx.state_bytes(format!("{x:?}{y:?}{apart}{threads}{order:?}").as_bytes());
                    let got = guard(|| {
                        let mut g = [Going { it: copies.0.it.clone(), out: vec![], chunk }, Going { it: copies.1.it.clone(), out: vec![], chunk }];
                        for o in order {
                            let g = &mut g[*o as usize];
                            if threads {
                                std::thread::scope(|s| {
                                    s.spawn(|| g.go());
                                });
                            } else {
                                g.go();
                            }
                        }
                        let [a, b] = g;
                        (a.end(&slots), b.end(&slots))
                    });
                    let rp = || json!({"iterations": [x, y], "order": order, "threads": threads, "two places": apart});
                    match got {
                        Ok((a, b)) => {
                            for (g, want) in [(&a, &wx), (&b, &wy)] {
                                if g != want {
                                    cx.violation("interleaved", &first_difference(g, want), rp());
                                }
                            }
                        }
                        Err(p) => cx.violation("interleaved/panic", &p, rp()),
                    }
                });
            }
        }
    }
    cx.phase("interleavings", json!({"pairs of iterations": both.len(), "orders": all.len(), "on one thread and handed over": true}));
}

fn between(cx: &Ctx, s: &Scratch) {
    let (w, ops) = (World::new(), ops());
    let idx: Vec<usize> = (0..ops.len()).collect();
    let n = game(0).len() + 1;
    par_for(&idx, |i| {
        let slots = [0, 1].map(|k| fresh(s.path(), &format!("between{i}-{k}")));
        let solo = perform(&ops[*i], &w, &slots[1]);
        for x in [(0, 0), (1, 1)] {
            let want = Going::new(&w, &slots[0], x.0, x.1, 1000).end(&slots);
            // The included data are large.
            let some = if ops[*i].0 == "included" { n / 2..=n / 2 } else { 0..=n };
            for k in some {
                cx.trace();
                cx.steps(n as u64 + 1);
                let got = guard(|| {
                    let mut g = Going::new(&w, &slots[0], x.0, x.1, k);
                    g.go();
                    let r = perform(&ops[*i], &w, &slots[1]);
                    (r, g.end(&slots))
                });
                let rp = || json!({"iteration": x, "after steps": k, "operation": ops[*i].0});
                match got {
                    Ok((r, e)) => {
                        if r != solo {
                            cx.violation("between/operation", &first_difference(&r, &solo), rp());
                        }
                        if e != want {
                            cx.violation("between/iteration", &first_difference(&e, &want), rp());
                        }
                    }
                    Err(p) => cx.violation("between/panic", &p, rp()),
                }
            }
        }
    });
    cx.phase("between", json!({"operations": ops.len(), "points": n + 1}));
}

pub fn run(cx: &Ctx) {
    let s = Scratch::new();
    let names: Vec<String> = ops().into_iter().map(|o| o.0).collect();
    let n = names.len();
    // Alone, in processes of their own.
    let times = cx.pick(4, 16);
    let jobs: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..times).map(move |k| (i, k))).collect();
    let got: std::sync::Mutex<Vec<Vec<Result<String, String>>>> = std::sync::Mutex::new(vec![vec![]; n]);
    par_for(&jobs, |(i, _)| {
        let r = process(&s, "plain", &[*i]).map(|mut v| v.remove(0));
        cx.trace();
        got.lock().unwrap()[*i].push(r);
    });
    let mut solo = vec![];
    for (i, l) in got.into_inner().unwrap().into_iter().enumerate() {
        let rp = || json!({"operation": names[i]});
        let first = l.iter().flatten().next().cloned().unwrap_or_default();
        for r in &l {
            match r {
                Ok(r) if *r == first => {}
                Ok(r) => cx.violation(&format!("alone/{}", names[i]), &first_difference(r, &first), rp()),
                Err(e) => cx.violation(&format!("alone/ended/{}", names[i]), e, rp()),
            }
        }
        cx.state_bytes(first.as_bytes());
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("{}: {:?}", names[i], &first.chars().take(400).collect::<String>());
        }
        solo.push(first);
    }
    // The operations of one sort tell their inputs apart, else nothing is shown.
    let different = solo.iter().collect::<std::collections::HashSet<&String>>().len();
    cx.sample(json!({"operation": names[0], "result": trunc(&solo[0])}));
    // Every sequence of two (three), on one thread and on one thread each.
    let mut jobs: Vec<(&str, Vec<usize>)> = vec![];
    for a in 0..n {
        for b in 0..n {
            jobs.push(("plain", vec![a, b]));
            if cx.thorough {
                jobs.push(("threads", vec![a, b]));
                jobs.extend((0..n).map(|c| ("plain", vec![a, b, c])));
            }
        }
    }
    // All pairs in one process.
    for how in ["plain", "threads"] {
        // All but the included data, which are the last and large.
        let long = de_bruijn(n - 1, 2);
        let k = long.len() / 8 + 1;
        jobs.extend(long.chunks(k).map(|c| (how, c.to_vec())));
    }
    par_for(&jobs, |(how, list)| {
        cx.trace();
        cx.steps(list.len() as u64);
        cx.state_bytes(format!("{how}{list:?}").as_bytes());
        let words = |to: usize| list[..=to].iter().rev().take(12).rev().map(|i| names[*i].clone()).collect::<Vec<_>>();
        match process(&s, how, list) {
            Ok(got) => {
                for (k, (g, i)) in got.iter().zip(list).enumerate() {
                    if *g != solo[*i] {
                        cx.violation(&format!("after/{}", names[*i]), &first_difference(g, &solo[*i]), json!({"operations": words(k), "how": how}));
                        break;
                    }
                }
            }
            Err(e) => cx.violation("after/ended", &e, json!({"operations": words(list.len() - 1), "how": how})),
        }
    });
    cx.phase("sequences", json!({"operations": n, "different results": different, "processes": jobs.len(), "repetitions alone": times}));
    pairs(cx, &s);
    p19::quiet(|| between(cx, &s));
}
