//! Snapshots of a directory: which replays are taken, and the same contents in all files.
use super::*;
use crate::rp::*;
use s2protocol::InitData;
use s2protocol::arrow_store::{ArrowIpcTypes, WriteArrowIpcProps};
use s2protocol::game_events::VersionedBalanceUnit;
use serde_json::{Value as J, json};
use std::collections::HashMap;
use std::path::{Path, PathBuf};

const FILES: [&str; 7] = ["details", "stats", "upgrades", "unit_born", "unit_died", "cmd_target_point", "cmd_target_unit"];
type Units = HashMap<(u32, String), VersionedBalanceUnit>;

/// Replays of a directory by their place in it.
struct Tree {
    root: PathBuf,
    files: Vec<(PathBuf, Option<p18::Source>)>,
}

/// A copy of a source as another protocol version would have it.
fn versioned(kind: usize, build: u32) -> p18::Source {
    let base = &p18::sources()[kind];
    p18::source(base.what, build, &base.players, base.evs.clone())
}

fn tree(root: &Path, layout: usize) -> Tree {
    let dirs = match layout {
        0 => ["", "", "", "", "", ""],
        1 => ["", "a", "a", "a/b", "a/b", "a/b/c"],
        _ => ["x", "y", "x", "y", "z/w", ""],
    };
    let sources = [
        Some(versioned(0, 87702)),
        Some(versioned(1, 75689)),
        None,
        Some(versioned(0, 80949)),
        Some(versioned(2, 87702)),
        Some(versioned(1, 92028)),
    ];
    let mut files = vec![];
    for (i, (d, s)) in dirs.iter().zip(sources).enumerate() {
        let dir = root.join(d);
        std::fs::create_dir_all(&dir).unwrap();
        let p = dir.join(format!("{}{i}.SC2Replay", ["k", "b", "z"][i % 3]));
        std::fs::write(&p, s.as_ref().map(|s| &s.bytes[..]).unwrap_or(b"no archive")).unwrap();
        files.push((p, s));
    }
    std::fs::write(root.join("other.txt"), b"x").unwrap();
    Tree { root: root.to_path_buf(), files }
}

/// The replays that are to be taken, with their ids.
fn taken<'a>(t: &'a Tree, c: &WriteArrowIpcProps) -> Vec<(u64, &'a PathBuf, &'a p18::Source)> {
    let scanned = s2protocol::get_matching_files(t.root.clone(), c.scan_max_files, c.traverse_max_depth).unwrap();
    let mut out = vec![];
    for (i, p) in scanned.iter().enumerate() {
        let (p, s) = t.files.iter().find(|f| &f.0 == p).map(|f| (&f.0, &f.1)).unwrap();
        if let Some(s) = s
            && c.min_version.is_none_or(|v| s.build >= v)
            && c.max_version.is_none_or(|v| s.build <= v)
            && out.len() < c.process_max_files
        {
            out.push((i as u64, p, s));
        }
    }
    out
}

fn snapshot(cx: &Ctx, t: &Tree, out: &Path, units: &Units, c: &WriteArrowIpcProps, serially: bool, layout: usize) {
    for f in FILES {
        let _ = std::fs::remove_file(out.join(format!("{f}.arrow")));
    }
    let want = taken(t, c);
    let rp = || json!({"layout": layout, "limits": format!("{c:?}"), "serially": serially});
    let got = guard(|| ArrowIpcTypes::handle_arrow_ipc_cmd(t.root.clone(), out.to_path_buf(), c, units, serially).map_err(|e| e.to_string()));
    cx.steps(1);
    cx.trace();
    if want.is_empty() {
        // refused, and nothing written
        if got == Ok(Ok(())) {
            cx.violation("none/accepted", "a snapshot of nothing", rp());
        }
        let left: Vec<_> = std::fs::read_dir(out).unwrap().flatten().map(|e| e.file_name()).collect();
        if !left.is_empty() {
            cx.violation("none/written", &format!("{left:?}"), rp());
        }
        return;
    }
    if got != Ok(Ok(())) {
        return cx.violation("refused", &format!("{got:?}"), rp());
    }
    written(cx, "snapshot", out, &want.iter().map(|w| (w.0, w.1.as_path(), w.2)).collect::<Vec<_>>(), serially, &rp);
}

fn written(cx: &Ctx, key: &str, out: &Path, want: &[(u64, &Path, &p18::Source)], serially: bool, rp: &dyn Fn() -> J) {
    let mut names: Vec<String> = std::fs::read_dir(out).unwrap().flatten().map(|e| e.file_name().to_string_lossy().into()).collect();
    names.retain(|n| n.ends_with(".arrow"));
    names.sort();
    let mut all: Vec<String> = FILES.iter().map(|f| format!("{f}.arrow")).collect();
    all.sort();
    cx.expect_eq(&format!("{key}/files"), &names, &all, rp);
    for f in FILES {
        let rows: Vec<Vec<J>> = want.iter().map(|w| w.2.rows(f, w.1, w.0)).collect();
        p18::contents(cx, key, Ok(p18::read(&out.join(format!("{f}.arrow")))), f, &rows, serially || f == "details", rp);
    }
}

pub fn run(cx: &Ctx) {
    let s = Scratch::new();
    let mut units = p17::versions(87702);
    for b in [75689, 80949, 92028] {
        units.extend(p17::versions(b));
    }
    let trees: Vec<Tree> = (0..3).map(|l| tree(&s.path().join(format!("t{l}")), l)).collect();
    let bounds = [None, Some(0), Some(75689), Some(75690), Some(80949), Some(87702), Some(87703), Some(92028), Some(u32::MAX)];
    let all = |v: &[usize]| v.to_vec();
    let counts = if cx.thorough { all(&[0, 1, 2, 3, 4, 5, 6, 7, usize::MAX]) } else { all(&[0, 1, 2, 4, usize::MAX]) };
    let mut jobs: Vec<(usize, WriteArrowIpcProps)> = vec![];
    for (l, depths) in [(0usize, &[1usize, usize::MAX][..]), (1, &[0, 1, 2, 3, 4, 5]), (2, &[1, 2, 3])] {
        for &traverse_max_depth in depths {
            for &scan_max_files in &counts {
                for &process_max_files in &counts {
                    for (i, &min_version) in bounds.iter().enumerate() {
                        for (j, &max_version) in bounds.iter().enumerate() {
                            // All pairs of bounds at one place, single bounds and some pairs at the others.
                            let few = i == 0 || j == 0 || (i + j) % 4 == 0;
                            if cx.thorough || (traverse_max_depth > 2 && process_max_files == 2) || (few && (process_max_files < 3 || l == 0)) && (l == 0 || traverse_max_depth != 2) {
                                jobs.push((l, WriteArrowIpcProps { scan_max_files, process_max_files, traverse_max_depth, min_version, max_version }));
                            }
                        }
                    }
                }
            }
        }
    }
    quiet(|| {
        par_for(&jobs, |(l, c)| {
            let out = s.path().join(format!("o{:?}", std::thread::current().id()));
            let _ = std::fs::create_dir(&out);
            for serially in [true, false] {
                snapshot(cx, &trees[*l], &out, &units, c, serially, *l);
            }
        });
        places(cx, &s, &trees[0], &units);
        orders(cx, &s, &units);
        large(cx, &s, &units);
    });
    for j in &jobs {
        cx.state_bytes(format!("{j:?}").as_bytes());
    }
    cx.phase("limits", json!({"trees": 3, "limits": jobs.len(), "serial and parallel": true, "files": FILES}));
    cx.sample(json!({"limits": format!("{:?}", jobs[jobs.len() / 2])}));
}

/// Places for the output, and an older snapshot that is replaced.
fn places(cx: &Ctx, s: &Scratch, t: &Tree, units: &Units) {
    let c = WriteArrowIpcProps { scan_max_files: 100, process_max_files: 100, traverse_max_depth: 9, min_version: None, max_version: None };
    let file = s.file("a file", b"contents");
    for p in [file.clone(), s.path().join("nowhere"), PathBuf::new()] {
        for serially in [true, false] {
            let got = guard(|| ArrowIpcTypes::handle_arrow_ipc_cmd(t.root.clone(), p.clone(), &c, units, serially).map_err(|e| e.to_string()));
            if got == Ok(Ok(())) {
                cx.violation("place/accepted", "the output is no directory", json!({"output": p}));
            }
        }
    }
    if std::fs::read(&file).ok() != Some(b"contents".to_vec()) || s.path().join("nowhere").exists() {
        cx.violation("place/touched", "a file in the place of the directory", json!({"output": file}));
    }
    for p in [t.files[0].0.clone(), s.path().join("nowhere")] {
        let got = guard(|| ArrowIpcTypes::handle_arrow_ipc_cmd(p.clone(), s.path().to_path_buf(), &c, units, true).map_err(|e| e.to_string()));
        if got == Ok(Ok(())) {
            cx.violation("source/accepted", "the source is no directory", json!({"source": p}));
        }
    }
    // A large snapshot, then a small one in its place, then none.
    let out = s.path().join("again");
    std::fs::create_dir(&out).unwrap();
    let all: Vec<(u64, &Path, &p18::Source)> = t.files.iter().enumerate().filter_map(|(i, f)| Some((i as u64 * 7, f.0.as_path(), f.1.as_ref()?))).collect();
    for n in [5usize, 1, 0, 3, 5] {
        for serially in [true, false] {
            let list: Vec<InitData> = all[..n].iter().map(|a| a.2.init_data(a.1, a.0)).collect();
            let rp = || json!({"sources": n, "serially": serially});
            match guard(|| ArrowIpcTypes::handle_write_snapshot(list, out.clone(), units, serially).map_err(|e| e.to_string())) {
                Ok(Ok(())) => written(cx, "again", &out, &all[..n], serially, &rp),
                r => cx.violation("again/refused", &format!("{r:?}"), rp()),
            }
            cx.trace();
        }
    }
}

/// Many replays, every order in which four of them can be read first, several numbers of threads.
fn orders(cx: &Ctx, s: &Scratch, units: &Units) {
    let root = s.path().join("many");
    std::fs::create_dir(&root).unwrap();
    let kinds: Vec<Option<p18::Source>> = (0..12).map(|i| if i % 5 == 4 { None } else { Some(versioned(i % 3, [87702, 75689, 80949][i % 3])) }).collect();
    let mut files = vec![];
    for (i, k) in kinds.into_iter().enumerate() {
        let p = root.join(format!("{i}.SC2Replay"));
        std::fs::write(&p, k.as_ref().map(|s| &s.bytes[..]).unwrap_or(b"")).unwrap();
        files.push((p, k));
    }
    let t = Tree { root: root.clone(), files };
    let out = s.path().join("many-out");
    std::fs::create_dir(&out).unwrap();
    let c = WriteArrowIpcProps { scan_max_files: 100, process_max_files: 7, traverse_max_depth: 9, min_version: None, max_version: None };
    let mut perms: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..4 {
        perms = perms.iter().flat_map(|o| (0..4).filter(|i| !o.contains(i)).map(|i| o.iter().copied().chain([i]).collect::<Vec<_>>()).collect::<Vec<_>>()).collect();
    }
    let mut runs = 0;
    for threads in [1usize, 2, 4, 8] {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
        for o in &perms {
            let gated: Vec<PathBuf> = (0..4).map(|i| t.files[i * 3].0.clone()).collect();
            let Some(mut g) = p18::Gates::close(&gated) else { return cx.assume("the file system has no leases: orders of reading are not controlled") };
            let want = taken(&t, &c);
            let rp = || json!({"threads": threads, "order": o});
            let got = std::thread::scope(|sc| {
                let h = sc.spawn(|| pool.install(|| guard(|| ArrowIpcTypes::handle_arrow_ipc_cmd(t.root.clone(), out.clone(), &c, units, false).map_err(|e| e.to_string()))));
                for i in o {
                    std::thread::sleep(std::time::Duration::from_millis(4));
                    g.open(*i);
                }
                h.join().unwrap()
            });
            runs += 1;
            cx.trace();
            cx.state_bytes(format!("{threads}{o:?}").as_bytes());
            if got != Ok(Ok(())) {
                cx.violation("orders/refused", &format!("{got:?}"), rp());
                continue;
            }
            written(cx, "orders", &out, &want.iter().map(|w| (w.0, w.1.as_path(), w.2)).collect::<Vec<_>>(), false, &rp);
        }
    }
    cx.phase("orders", json!({"replays": 12, "orders": perms.len(), "threads": [1, 2, 4, 8], "runs": runs}));
}

/// Hundreds of replays, limits around every power of two.
fn large(cx: &Ctx, s: &Scratch, units: &Units) {
    let root = s.path().join("large");
    let mut files = vec![];
    for i in 0..300usize {
        let dir = root.join(format!("{}/{}", i % 7, i % 3));
        std::fs::create_dir_all(&dir).unwrap();
        // Most are broken, a few are of a version of their own, and names come twice.
        let k = (i % 11 != 5 && !(20..180).contains(&i)).then(|| versioned(i % 3, if i % 97 == 2 { 95_000 } else { [87702, 75689, 80949, 92028][i % 4] }));
        let p = dir.join(format!("{}.SC2Replay", i / 2));
        std::fs::write(&p, k.as_ref().map(|s| &s.bytes[..]).unwrap_or(b"")).unwrap();
        files.push((p, k));
    }
    let t = Tree { root, files };
    let jobs: Vec<(usize, usize, Option<u32>)> = [100usize, 255, 256, 257, 300, usize::MAX].iter().flat_map(|a| [63usize, 100, 128, 256, usize::MAX].map(|b| (*a, b))).flat_map(|(a, b)| [(a, b, None), (a, b, Some(80949))])
        .chain([100usize, 300, usize::MAX].iter().flat_map(|a| [1usize, 2, 3, 4].map(|b| (*a, b))).flat_map(|(a, b)| [(a, b, None), (a, b, Some(95_000))]))
        .collect();
    par_for(&jobs, |&(scan_max_files, process_max_files, min_version)| {
        let out = s.path().join(format!("l{:?}", std::thread::current().id()));
        let _ = std::fs::create_dir(&out);
        for serially in [true, false] {
            snapshot(cx, &t, &out, units, &WriteArrowIpcProps { scan_max_files, process_max_files, traverse_max_depth: 9, min_version, max_version: None }, serially, 9);
        }
        cx.state_bytes(format!("large{scan_max_files}{process_max_files}{min_version:?}").as_bytes());
    });
    cx.phase("large", json!({"replays": 300, "limits": jobs.len()}));
}

/// The command tells about its progress on the standard output, which is not ours to fill.
pub fn quiet(f: impl FnOnce()) {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe {
        let keep = libc::dup(1);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::close(null);
        OUT.store(keep, std::sync::atomic::Ordering::Relaxed);
        f();
        OUT.store(1, std::sync::atomic::Ordering::Relaxed);
        let _ = std::io::stdout().flush();
        libc::dup2(keep, 1);
        libc::close(keep);
    }
}
