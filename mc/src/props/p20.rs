//! Finding the replays of a directory: every small directory tree, every bound.
use super::*;
use crate::rp::Scratch;
use serde_json::json;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]
pub enum Node {
    Replay,
    /// A file of another name.
    Other,
    Dir(Vec<Node>),
}
use Node::*;

/// All lists of up to `width` nodes with directories nested up to `depth`; the order of the
/// siblings does not matter to the directory, so each multiset once.
fn trees(depth: usize, width: usize) -> Vec<Vec<Node>> {
    let mut kinds = vec![Replay, Other];
    if depth > 0 {
        kinds.extend(trees(depth - 1, if depth > 2 { width.min(1) } else { width.min(2) }).into_iter().map(Dir));
    }
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    let mut level = out.clone();
    for _ in 0..width {
        level = level.iter().flat_map(|l| (l.last().copied().unwrap_or(0)..kinds.len()).map(move |k| l.iter().copied().chain([k]).collect())).collect();
        out.extend(level.clone());
    }
    out.into_iter().map(|l| l.into_iter().map(|k| kinds[k].clone()).collect()).collect()
}

const OTHERS: [&str; 7] = ["SC2Replay", "b.sc2replay", "c.SC2Replay.bak", "d.SC2Map", "e.SC2Replays", ".SC2Replay", "fSC2Replay"];
const DIRS: [&str; 3] = ["plain", "named.SC2Replay", "with space.d"];
const FIRST: [&str; 4] = ["", ".", " ", "-"];

/// Makes the tree; `salt` rotates the names (and with them the order the directory lists them in).
fn make(at: &Path, nodes: &[Node], depth: usize, salt: usize, found: &mut Vec<(PathBuf, usize)>) {
    for (i, n) in nodes.iter().enumerate() {
        let k = i * 7 + salt * 3 + depth;
        match n {
            Replay => {
                let p = at.join(format!("{}{}{i}.SC2Replay", FIRST[k / 4 % 4], ["game", "Ä ö", "a.b", "zz.tar"][k % 4]));
                std::fs::write(&p, b"x").unwrap();
                found.push((p, depth));
            }
            Other => std::fs::write(at.join(OTHERS[k % OTHERS.len()]), b"x").unwrap(),
            Dir(c) => {
                let p = at.join(format!("{}{i}{}", FIRST[k / 3 % 4], DIRS[k % 3]));
                std::fs::create_dir(&p).unwrap();
                make(&p, c, depth + 1, salt, found);
            }
        }
    }
}

fn check(cx: &Ctx, key: &str, root: &Path, found: &[(PathBuf, usize)], max_files: usize, max_depth: usize, what: &dyn Fn() -> serde_json::Value) {
    cx.steps(1);
    let replay = || json!({"tree": what(), "max_files": max_files, "max_depth": max_depth});
    match guard(|| s2protocol::get_matching_files(root.to_path_buf(), max_files, max_depth).map_err(|e| e.to_string())) {
        Ok(Ok(got)) => {
            let all: BTreeSet<&PathBuf> = found.iter().filter(|f| f.1 <= max_depth).map(|f| &f.0).collect();
            let set: BTreeSet<&PathBuf> = got.iter().collect();
            if set.len() != got.len() {
                cx.violation(&format!("{key}/twice"), &format!("{got:?}"), replay());
            }
            if !set.is_subset(&all) {
                cx.violation(&format!("{key}/wrong"), &format!("{got:?} of {all:?}"), replay());
            }
            if got.len() != all.len().min(max_files) {
                cx.violation(&format!("{key}/count"), &format!("{} files of {}", got.len(), all.len()), replay());
            }
        }
        Ok(Err(e)) => cx.violation(&format!("{key}/error"), &e, replay()),
        Err(p) => cx.violation(&format!("{key}/panic"), &p, replay()),
    }
}

pub fn run(cx: &Ctx) {
    let mut all = trees(2, 3);
    if cx.thorough {
        // One level deeper: narrow ones, and every tree of two levels below the root, alone or not.
        all.extend(trees(3, 3));
        for t in trees(2, 2) {
            all.extend([vec![Dir(t.clone())], vec![Replay, Dir(t.clone())], vec![Dir(t.clone()), Dir(vec![Dir(t)])]]);
        }
    }
    let jobs: Vec<(usize, &Vec<Node>)> = all.iter().enumerate().collect();
    let s = Scratch::new();
    par_for(&jobs, |(n, t)| {
        let root = s.path().join(format!("t{n}"));
        std::fs::create_dir(&root).unwrap();
        let mut found = vec![];
        make(&root, t, 1, *n, &mut found);
        cx.state(hash_bytes(format!("{t:?}").as_bytes()));
        cx.trace();
        for max_files in 0..=found.len() + 1 {
            for max_depth in 0..=5 {
                check(cx, "trees", &root, &found, max_files, max_depth, &|| json!(format!("{t:?}")));
            }
        }
        check(cx, "trees", &root, &found, usize::MAX, usize::MAX, &|| json!(format!("{t:?}")));
        std::fs::remove_dir_all(&root).unwrap();
    });
    cx.phase("trees", json!({"trees": all.len(), "bounds": "all file limits up to the number of files + 1 and unlimited, all depths 0 to 5"}));
    // Deep and wide ones.
    for depth in 1..=12usize {
        let root = s.path().join(format!("deep{depth}"));
        let mut t = vec![Replay];
        for _ in 1..depth {
            t = vec![Dir(t), Replay];
        }
        std::fs::create_dir(&root).unwrap();
        let mut found = vec![];
        make(&root, &t, 1, depth, &mut found);
        cx.trace();
        for max_depth in 0..=13 {
            for max_files in [0, 1, depth / 2, depth, 100] {
                check(cx, "deep", &root, &found, max_files, max_depth, &|| json!({"depth": depth}));
            }
        }
    }
    let root = s.path().join("wide");
    std::fs::create_dir(&root).unwrap();
    let t: Vec<Node> = (0..300).map(|i| if i % 10 == 9 { Dir(vec![Replay; 3]) } else if i % 3 == 0 { Other } else { Replay }).collect();
    let mut found = vec![];
    // unique names for the other files
    for (i, n) in t.iter().enumerate() {
        match n {
            Other => std::fs::write(root.join(format!("o{i}.txt")), b"x").unwrap(),
            Replay => {
                let p = root.join(format!("g{i}.SC2Replay"));
                std::fs::write(&p, b"x").unwrap();
                found.push((p, 1));
            }
            Dir(c) => {
                let p = root.join(format!("d{i}"));
                std::fs::create_dir(&p).unwrap();
                make(&p, c, 2, i, &mut found);
            }
        }
    }
    cx.trace();
    for max_files in (0..found.len() + 2).step_by(cx.pick(7, 1)) {
        for max_depth in 0..=3 {
            check(cx, "wide", &root, &found, max_files, max_depth, &|| json!("300 entries"));
        }
    }
    // Links: to a file they count, dangling ones do not.
    let root = s.path().join("links");
    std::fs::create_dir(&root).unwrap();
    let target = s.file("target.bin", b"x");
    let l = root.join("link.SC2Replay");
    std::os::unix::fs::symlink(&target, &l).unwrap();
    std::os::unix::fs::symlink(s.path().join("nowhere"), root.join("dangling.SC2Replay")).unwrap();
    // A linked directory is one level like any other; names that are no text count.
    let far = s.path().join("far/deeper");
    std::fs::create_dir_all(&far).unwrap();
    std::fs::write(far.join("x.SC2Replay"), b"x").unwrap();
    std::fs::write(s.path().join("far/y.SC2Replay"), b"x").unwrap();
    std::os::unix::fs::symlink(s.path().join("far"), root.join("linked")).unwrap();
    let odd = root.join(<std::ffi::OsStr as std::os::unix::ffi::OsStrExt>::from_bytes(b"\xff\xfe.SC2Replay"));
    std::fs::write(&odd, b"x").unwrap();
    std::fs::write(root.join("empty.SC2Replay"), b"").unwrap();
    let found = vec![(l, 1usize), (odd, 1), (root.join("empty.SC2Replay"), 1), (root.join("linked/y.SC2Replay"), 2), (root.join("linked/deeper/x.SC2Replay"), 3)];
    for max_files in 0..7 {
        for max_depth in 0..5 {
            check(cx, "links", &root, &found, max_files, max_depth, &|| json!("links"));
        }
    }
    // What is no directory has no files.
    let file = s.file("one.SC2Replay", b"x");
    for p in [file, s.path().join("nowhere"), s.path().join("nowhere.SC2Replay")] {
        for (mf, md) in [(0, 0), (1, 1), (5, 5)] {
            check(cx, "no-directory", &p, &[], mf, md, &|| json!(p.to_str()));
        }
    }
    cx.sample(json!(format!("{:?}", all[all.len() / 2])));
}
