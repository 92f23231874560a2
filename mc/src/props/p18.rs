//! Arrow files: what is written is read back with an independent reading of the columns.
use super::*;
use crate::rp::*;
use crate::sm::*;
use crate::spec::*;
use arrow::array::*;
use arrow::datatypes::{DataType, Schema, TimeUnit};
use arrow::ipc::reader::FileReader;
use arrow::ipc::writer::FileWriter;
use s2protocol::InitData;
use s2protocol::arrow_store::ArrowIpcTypes;
use s2protocol::arrow_store::ipc_writer::*;
use s2protocol::game_events::*;
use s2protocol::tracker_events::ReplayTrackerEvent;
use serde_json::{Map, Value as J, json};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::sync::Arc;

/// The batches of a file, as rows.
pub fn read(p: &Path) -> Result<(Schema, Vec<Vec<J>>), String> {
    let f = std::fs::File::open(p).map_err(|e| e.to_string())?;
    let r = FileReader::try_new(f, None).map_err(|e| e.to_string())?;
    let schema = r.schema().as_ref().clone();
    let mut out = vec![];
    for b in r {
        out.push(rows(&b.map_err(|e| e.to_string())?)?);
    }
    Ok((schema, out))
}
fn rows(b: &RecordBatch) -> Result<Vec<J>, String> {
    let mut out = vec![Map::new(); b.num_rows()];
    for (f, c) in b.schema().fields().iter().zip(b.columns()) {
        for (i, o) in out.iter_mut().enumerate() {
            let v = if c.is_null(i) { J::Null } else { cell(c.as_ref(), i)? };
            if o.insert(f.name().clone(), v).is_some() {
                return Err(format!("two columns {}", f.name()));
            }
        }
    }
    Ok(out.into_iter().map(J::Object).collect())
}
fn cell(c: &dyn Array, i: usize) -> Result<J, String> {
    macro_rules! num {
        ($t:ty) => {
            json!(c.as_any().downcast_ref::<$t>().unwrap().value(i))
        };
    }
    Ok(match c.data_type() {
        DataType::UInt8 => num!(UInt8Array),
        DataType::UInt16 => num!(UInt16Array),
        DataType::UInt32 => num!(UInt32Array),
        DataType::UInt64 => num!(UInt64Array),
        DataType::Int8 => num!(Int8Array),
        DataType::Int16 => num!(Int16Array),
        DataType::Int32 => num!(Int32Array),
        DataType::Int64 => num!(Int64Array),
        DataType::Float32 => num!(Float32Array),
        DataType::Float64 => num!(Float64Array),
        DataType::Boolean => num!(BooleanArray),
        DataType::Utf8 => num!(StringArray),
        DataType::LargeUtf8 => num!(LargeStringArray),
        DataType::Timestamp(u, None) => {
            let (v, per) = match u {
                TimeUnit::Nanosecond => (c.as_any().downcast_ref::<TimestampNanosecondArray>().unwrap().value(i), 1_000_000_000i64),
                TimeUnit::Microsecond => (c.as_any().downcast_ref::<TimestampMicrosecondArray>().unwrap().value(i), 1_000_000),
                TimeUnit::Millisecond => (c.as_any().downcast_ref::<TimestampMillisecondArray>().unwrap().value(i), 1_000),
                TimeUnit::Second => (c.as_any().downcast_ref::<TimestampSecondArray>().unwrap().value(i), 1),
            };
            // 100 ns steps since 1601
            let tenth = v as i128 * 10_000_000 / per as i128 + 116_444_736_000_000_000;
            json!(p21::datetime(tenth as i64, 0))
        }
        t => return Err(format!("a column of {t}")),
    })
}

/// Row types and the names their columns are to have.
pub fn names(what: &str) -> Vec<&'static str> {
    let ext = ["ext_replay_loop", "ext_replay_seconds", "ext_fs_id"];
    let v: Vec<&'static str> = match what {
        "upgrades" => vec!["player_id", "name", "count"],
        "unit_born" => vec![
            "unit_tag_index", "unit_tag_recycle", "unit_type_name", "control_player_id", "upkeep_player_id", "x", "y", "creator_unit_tag_index", "creator_unit_tag_recycle", "creator_unit_type_name",
            "creator_ability_name", "player_name",
        ],
        "unit_died" => vec!["unit_died_name", "unit_tag_index", "unit_tag_recycle", "killer_player_id", "x", "y", "unit_killer_name", "killer_unit_tag_index", "killer_unit_tag_recycle"],
        "cmd_target_point" => vec![
            "user_id", "player_name", "cmd_flags", "abil_link", "abil_cmd_index", "ability", "sequence", "unit_name", "target_point_x", "target_point_y", "target_point_z", "unit_group",
        ],
        "cmd_target_unit" => vec![
            "user_id", "player_name", "cmd_flags", "abil_link", "abil_cmd_index", "ability", "sequence", "unit_name", "target_unit_flags", "tag", "snapshot_unit_link", "snapshot_control_player_id",
            "snapshot_upkeep_player_id", "snapshot_point_x", "snapshot_point_y", "snapshot_point_z", "target_unit_name",
        ],
        _ => vec![],
    };
    if v.is_empty() { v } else { v.into_iter().chain(ext).collect() }
}

pub fn kind_of(name: &str) -> ArrowIpcTypes {
    match name {
        "stats" => ArrowIpcTypes::Stats,
        "upgrades" => ArrowIpcTypes::Upgrades,
        "unit_born" => ArrowIpcTypes::UnitBorn,
        "unit_died" => ArrowIpcTypes::UnitDied,
        "cmd_target_point" => ArrowIpcTypes::CmdTargetPoint,
        "cmd_target_unit" => ArrowIpcTypes::CmdTargetUnit,
        "details" => ArrowIpcTypes::Details,
        _ => ArrowIpcTypes::UserInitData,
    }
}
pub const KINDS: [&str; 6] = ["cmd_target_point", "cmd_target_unit", "stats", "upgrades", "unit_born", "unit_died"];

/// A replay on the disk with the rows it adds.
#[derive(Clone)]
pub struct Source {
    pub what: &'static str,
    pub bytes: Vec<u8>,
    pub evs: Vec<(i64, Ev)>,
    pub players: Vec<(i64, &'static str)>,
    pub build: u32,
    pub details: J,
    pub init: J,
    /// The initial data can be read; the events can be read.
    pub valid: bool,
    pub events: bool,
}

fn pairs(evs: Vec<Ev>, at: &[i64]) -> Vec<(i64, Ev)> {
    evs.into_iter().zip(at.iter().copied()).map(|(e, l)| (l, e)).collect()
}

pub fn source(what: &'static str, build: u32, players: &[(i64, &'static str)], evs: Vec<(i64, Ev)>) -> Source {
    let mut r = Replay::new(build, players);
    let m = module(build);
    // Details and lobby with a join: everyone has a slot.
    let d = p21::details_with(players.iter().enumerate().map(|(i, p)| p21::player(p.1, Some(i as i64))).collect());
    let d = crate::fx::with(d, &[("m_title", V::Bytes(format!("map of {what}").into_bytes())), ("m_time_local_offset", V::Int(72_000_000_000))]);
    let n = players.iter().map(|p| p.0 + 1).max().unwrap_or(0) as usize;
    // Users who do not play.
    let n = if what == "b" { n.max(17) } else { n };
    let i = p21::init_with(m, (0..n).map(|i| p21::user(m, i)).collect(), players.iter().enumerate().map(|(i, p)| p21::slot(m, Some(i as i64), Some(p.0))).collect());
    r.details = crate::fx::tagged("GameSDetails", &d);
    r.init = crate::fx::packed_bytes(m, "ReplaySInitData", &i);
    r.push(&evs);
    Source { what, bytes: r.bytes(), evs, players: players.to_vec(), build, details: p06::agnostic(&d).unwrap(), init: p07::agnostic(&i, build).unwrap(), valid: true, events: true }
}

pub fn sources() -> Vec<Source> {
    let all = vec![
        setup(1, Some(0), Some(0)),
        born(1, 1, "Probe", 1, (10, 20), None, None),
        born(2, 1, "Marine", 1, (255, 0), Some(1), Some("Train")),
        select(0, 10, &[tag(1, 1), tag(2, 1)]),
        cmd(0, Some((10, 0)), GameSCmdData::TargetPoint(coord(4096, 8191, -4096)), 1),
        cmd(0, Some((11, 0)), GameSCmdData::TargetUnit(target(tag(1, 1), 1)), 2),
        upgrade(1),
        stats(1, 7),
        died(1, Some(2)),
        stats(2, 9),
        upgrade(2),
    ];
    let other = vec![
        setup(2, Some(3), Some(0)),
        born(7, 2, "Zergling", 2, (1, 2), None, Some("Morph")),
        born(8, 2, "Larva", 2, (1, 2), Some(0x3fff), None),
        select(3, 10, &[tag(7, 2)]),
        cmd(3, None, GameSCmdData::TargetPoint(coord(1, 2, 3)), 5),
        cmd(3, Some((10, 1)), GameSCmdData::TargetUnit(target(tag(9, 9), 4)), 6),
        uinit(6, "Nexus", 2, (7, 6)),
        done(6),
        died(7, None),
        upgrade(3),
        stats(2, 1),
    ];
    let quiet = vec![setup(1, Some(0), Some(0)), positions(1, &[0, 4, 5])];
    let mut out = vec![
        source("a", 87702, &[(0, "Ann"), (3, "Ref")], pairs(all.clone(), &[0, 0, 0, 5, 5, 6, 700, 700, 701, 900, 901])),
        source("b", 75689, &[(3, "Eve")], pairs(other, &[0, 1, 2, 3, 4, 100_000, 100_001, 100_002, 100_003, 100_003, 100_004])),
        source("quiet", 87702, &[(0, "Zoe")], pairs(quiet, &[0, 1])),
    ];
    // No archive any more when the events are read, and no tracker events.
    let mut gone = out[0].clone();
    (gone.what, gone.events) = ("gone", false);
    gone.bytes = b"gone".to_vec();
    out.push(gone);
    out
}
pub fn stats(player: u8, n: i32) -> Ev {
    use s2protocol::tracker_events::{PlayerStats, PlayerStatsEvent};
    let zero = crate::fx::default_of(aligned(), "ReplayTrackerSPlayerStatsEvent");
    let Ev::T(ReplayTrackerEvent::PlayerStats(e)) = (match p03::agnostic(&V::Enum(0, "EPlayerStats".into(), Some(Box::new(zero)))).map(|j| serde_json::from_value::<ReplayTrackerEvent>(j).unwrap()) {
        Some(e) => Ev::T(e),
        None => panic!("no statistics"),
    }) else {
        panic!("no statistics")
    };
    let mut j = serde_json::to_value(&e.stats).unwrap();
    for (i, (k, v)) in j.as_object_mut().unwrap().iter_mut().enumerate() {
        *v = json!(if k.starts_with("food") { n } else { n * 1000 + i as i32 });
    }
    let stats: PlayerStats = serde_json::from_value(j).unwrap();
    Ev::T(ReplayTrackerEvent::PlayerStats(PlayerStatsEvent { player_id: player, stats }))
}

impl Source {
    /// The initial data as the reader would give it; the file need not be readable any more.
    pub fn init_data(&self, p: &Path, id: u64) -> InitData {
        let mut j = self.init.clone();
        j["ext_fs_id"] = json!(id);
        j["ext_fs_file_name"] = json!(p.to_str().unwrap());
        j["ext_fs_sha256"] = json!(p07::sha256(&self.bytes));
        serde_json::from_value(j).unwrap()
    }
    pub fn rows(&self, kind: &str, p: &Path, id: u64) -> Vec<J> {
        if kind == "details" {
            if !self.events {
                return vec![];
            }
            let i = json!(self.init_data(p, id));
            return p21::joined(&self.details, &i).iter().map(p22::flat).collect();
        }
        if !self.events {
            return vec![];
        }
        let mut m = p17::model_of(&self.players);
        // the names of the lobby's users
        p17::expected(&mut m, &self.evs, id).into_iter().find(|x| x.0 == kind).unwrap().1
    }
}

fn batch(n: usize, from: i64) -> ArrayRef {
    use arrow::datatypes::{Field, Fields};
    let f: Fields = vec![Field::new("a", DataType::Int64, false), Field::new("b", DataType::Utf8, true)].into();
    let a: ArrayRef = Arc::new(Int64Array::from((0..n as i64).map(|i| from + i).collect::<Vec<_>>()));
    let b: ArrayRef = Arc::new(StringArray::from((0..n as i64).map(|i| if i % 3 == 2 { None } else { Some(format!("row {}", from + i)) }).collect::<Vec<_>>()));
    Arc::new(StructArray::new(f, vec![a, b], None))
}
fn batch_schema() -> Schema {
    match batch(1, 0).data_type() {
        DataType::Struct(f) => Schema::new(f.clone()),
        _ => unreachable!(),
    }
}
fn batch_rows(n: usize, from: i64) -> Vec<J> {
    (0..n as i64).map(|i| json!({"a": from + i, "b": if i % 3 == 2 { J::Null } else { json!(format!("row {}", from + i)) }})).collect()
}

/// One call of the writer in a history.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Write(usize),
    /// Two writes that meet the lock held by another thread.
    Contend(usize, usize),
    /// A thread panics while it holds the lock.
    Poison,
}

fn writer_history(cx: &Ctx, s: &Scratch, n: usize, ops: &[Op]) {
    let p = s.path().join(format!("w{n}.arrow"));
    let rp = || json!({"history": format!("{ops:?}")});
    let w = match guard(|| open_arrow_mutex_writer(p.clone(), batch_schema()).map_err(|e| e.to_string())) {
        Ok(Ok(w)) => w,
        r => return cx.violation("writer/open", &format!("{:?}", r.map(|r| r.map(|_| ()))), rp()),
    };
    let mut want: Vec<J> = vec![];
    let mut from = 0;
    let mut poisoned = false;
    cx.steps(ops.len() as u64);
    for o in ops {
        match *o {
            Op::Write(n) => {
                let got = guard(|| write_to_arrow_mutex_writer(&w, batch(n, from), n));
                let ok = if n == 0 || poisoned { None } else { Some(n) };
                if got != Ok(ok) {
                    cx.violation("writer/result", &format!("got {got:?} want {ok:?}"), rp());
                }
                if ok.is_some() {
                    want.extend(batch_rows(n, from));
                }
                from += n as i64;
            }
            Op::Contend(a, b) => {
                let started = std::sync::atomic::AtomicUsize::new(0);
                let (x, y) = (from, from + a as i64);
                let (ra, rb) = std::thread::scope(|sc| {
                    let lock = w.lock().ok();
                    let go = |n: usize, from: i64| {
                        let (started, w) = (&started, &w);
                        sc.spawn(move || {
                            started.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                            guard(|| write_to_arrow_mutex_writer(w, batch(n, from), n))
                        })
                    };
                    let t = (go(a, x), go(b, y));
                    while started.load(std::sync::atomic::Ordering::SeqCst) < 2 {
                        std::thread::yield_now();
                    }
                    std::thread::sleep(std::time::Duration::from_millis(3));
                    drop(lock);
                    (t.0.join().unwrap(), t.1.join().unwrap())
                });
                let ok = |n: usize| if n == 0 || poisoned { None } else { Some(n) };
                if ra != Ok(ok(a)) || rb != Ok(ok(b)) {
                    cx.violation("writer/contention", &format!("got {ra:?} and {rb:?}"), rp());
                }
                if !poisoned {
                    // either order
                    let mut l = vec![batch_rows(a, x), batch_rows(b, y)];
                    l.retain(|b| !b.is_empty());
                    want.push(json!({"either": l}));
                }
                from += (a + b) as i64;
            }
            Op::Poison => {
                std::thread::scope(|sc| {
                    let w = &w;
                    let _ = sc.spawn(move || guard(|| {
                        let _l = w.lock();
                        panic!("poison")
                    })).join();
                });
                poisoned = true;
            }
        }
    }
    let closed = guard(|| close_arrow_mutex_writer(w).map_err(|e| e.to_string()));
    if poisoned {
        if closed.as_ref().map(|r| r.is_err()) != Ok(true) {
            cx.violation("writer/close-poisoned", &format!("{closed:?}"), rp());
        }
    } else if closed != Ok(Ok(())) {
        cx.violation("writer/close", &format!("{closed:?}"), rp());
    } else {
        match read(&p) {
            Ok((schema, b)) => {
                let got: Vec<J> = b.into_iter().flatten().collect();
                if !same(&got, &want) {
                    cx.violation("writer/rows", &format!("got {} want {}", trunc(&json!(got).to_string()), trunc(&json!(want).to_string())), rp());
                }
                if schema.fields() != batch_schema().fields() {
                    cx.violation("writer/schema", &format!("{schema:?}"), rp());
                }
            }
            Err(e) => cx.violation("writer/unreadable", &e, rp()),
        }
    }
    cx.trace();
    cx.state_bytes(format!("{ops:?}").as_bytes());
    let _ = std::fs::remove_file(&p);
}
/// Rows against rows with groups of batches in either order.
fn same(got: &[J], want: &[J]) -> bool {
    let mut rest = got;
    for w in want {
        match w.get("either").and_then(|e| e.as_array()) {
            Some(l) => {
                let lists: Vec<Vec<J>> = l.iter().map(|b| b.as_array().unwrap().clone()).collect();
                let (ab, ba): (Vec<J>, Vec<J>) = (lists.iter().flatten().cloned().collect(), lists.iter().rev().flatten().cloned().collect());
                let n = ab.len().min(rest.len());
                if rest[..n] != ab[..] && rest[..n] != ba[..] {
                    return false;
                }
                rest = &rest[n..];
            }
            None => match rest.split_first() {
                Some((f, r)) if f == w => rest = r,
                _ => return false,
            },
        }
    }
    rest.is_empty()
}

fn writer(cx: &Ctx, s: &Scratch) {
    let ops = [Op::Write(0), Op::Write(1), Op::Write(3), Op::Contend(2, 1), Op::Contend(0, 1), Op::Poison];
    let mut all: Vec<Vec<Op>> = vec![vec![]];
    let mut level = all.clone();
    for _ in 0..cx.pick(4, 5) {
        level = level.iter().flat_map(|l| ops.iter().map(move |o| l.iter().copied().chain([*o]).collect())).collect();
        all.extend(level.clone());
    }
    for n in [7usize, 8, 9, 63, 64, 65, 1000, 1024, 5000, 70_000] {
        all.push(vec![Op::Write(n), Op::Write(1), Op::Write(n)]);
    }
    let jobs: Vec<(usize, Vec<Op>)> = all.into_iter().enumerate().collect();
    par_for(&jobs, |(n, ops)| writer_history(cx, s, *n, ops));
    // The write of a whole table, and places where there can be no file.
    for n in [0usize, 1, 2, 3, 64, 5000] {
        let p = s.path().join("whole.arrow");
        let b: RecordBatch = batch(n, 5).as_any().downcast_ref::<StructArray>().unwrap().into();
        let r = guard(|| write_batches(p.clone(), batch_schema(), b).map_err(|e| e.to_string()));
        let got = read(&p).map(|x| x.1.concat());
        if r != Ok(Ok(())) || got != Ok(batch_rows(n, 5)) {
            cx.violation("table", &format!("{r:?}, {}", trunc(&format!("{got:?}"))), json!({"rows": n}));
        }
        cx.trace();
    }
    for p in [s.path().to_path_buf(), s.path().join("nowhere/file.arrow"), PathBuf::new()] {
        let b: RecordBatch = batch(1, 5).as_any().downcast_ref::<StructArray>().unwrap().into();
        let r = guard(|| write_batches(p.clone(), batch_schema(), b).map_err(|e| e.to_string()));
        let o = guard(|| open_arrow_mutex_writer(p.clone(), batch_schema()).map(|_| ()).map_err(|e| e.to_string()));
        if !matches!((&r, &o), (Ok(Err(_)), Ok(Err(_)))) {
            cx.violation("no-place", &format!("{r:?} {o:?}"), json!({"path": p}));
        }
    }
    cx.phase("writer", json!({"operations": ops.len(), "depth": cx.pick(4, 5), "histories": jobs.len()}));
    let _ = |w: &std::sync::Mutex<FileWriter<std::fs::File>>| w.is_poisoned();
}

fn schemas(cx: &Ctx) {
    for k in KINDS.iter().chain(&["details", "user_init"]) {
        let got = match guard(|| kind_of(k).schema()) {
            Ok(s) => s.fields().iter().map(|f| f.name().clone()).collect::<Vec<_>>(),
            Err(p) => {
                cx.violation(&format!("schema/{k}"), &p, json!(k));
                continue;
            }
        };
        let mut want: Vec<String> = names(k).iter().map(|s| s.to_string()).collect();
        let keys = |j: &J| j.as_object().unwrap().keys().cloned().collect::<Vec<_>>();
        match *k {
            "details" | "user_init" => {
                let s = &sources()[0];
                let p = Path::new("x");
                want = if *k == "details" { keys(&s.rows("details", p, 0)[0]) } else { keys(&p21::user_rows(&json!(s.init_data(p, 0)))[0]) };
            }
            "stats" => want = keys(&sources()[0].rows("stats", Path::new("x"), 0)[0]),
            _ => {}
        }
        let (mut g, mut w) = (got.clone(), want);
        g.sort();
        w.sort();
        if g != w {
            cx.violation(&format!("schema/{k}"), &format!("got {g:?} want {w:?}"), json!(k));
        }
    }
}

/// Runs one of the writers and reads its file back.
fn written(kind: &str, list: &[InitData], out: &Path, units: &HashMap<(u32, String), VersionedBalanceUnit>, serially: bool) -> Result<Result<(Schema, Vec<Vec<J>>), String>, String> {
    let r = guard(|| {
        let t = kind_of(kind);
        match kind {
            "details" if serially => t.handle_details_ipc_cmd(list.to_vec(), out.to_path_buf()),
            "details" => t.handle_read_once_write_all(list.to_vec(), out.to_path_buf()),
            k if k.starts_with("cmd") => t.handle_game_events(list.to_vec(), out.to_path_buf(), units, serially),
            _ => t.handle_tracker_events(list.to_vec(), out.to_path_buf(), units, serially),
        }
        .map_err(|e| e.to_string())
    })?;
    Ok(r.and_then(|_| read(out)))
}

/// Rows of the sources, those of a source together and in order; in the order of the sources if that is fixed.
pub fn contents(cx: &Ctx, key: &str, got: Result<Result<(Schema, Vec<Vec<J>>), String>, String>, kind: &str, want: &[Vec<J>], ordered: bool, rp: &dyn Fn() -> J) {
    cx.steps(1);
    let (schema, got) = match got {
        Ok(Ok(g)) => g,
        Ok(Err(e)) => return cx.violation(&format!("{key}/{kind}/error"), &e, rp()),
        Err(p) => return cx.violation(&format!("{key}/{kind}/panic"), &p, rp()),
    };
    if schema.fields() != kind_of(kind).schema().fields() {
        cx.violation(&format!("{key}/{kind}/schema"), &format!("{schema:?}"), rp());
    }
    let flat: Vec<J> = got.concat();
    let all: Vec<J> = want.concat();
    let fail = |why: &str, k: &str| cx.violation(&format!("{key}/{kind}/{k}"), &format!("{why}: got {} want {}", trunc(&json!(flat).to_string()), trunc(&json!(all).to_string())), rp());
    if ordered {
        if flat != all {
            let k = if flat.len() != all.len() { "count".into() } else { p06::diff(&json!(flat), &json!(all)) };
            fail("in the order of the sources", &k);
        }
    } else {
        // Each group is one source's rows.
        let mut left: Vec<&Vec<J>> = want.iter().filter(|w| !w.is_empty()).collect();
        let mut rest = &flat[..];
        while !rest.is_empty() {
            match left.iter().position(|w| rest.starts_with(w)) {
                Some(i) => rest = &rest[left.remove(i).len()..],
                None => return fail("rows of no source", "rows"),
            }
        }
        if !left.is_empty() {
            fail("a source is missing", "count");
        }
    }
}

fn handlers(cx: &Ctx, s: &Scratch) {
    let src = sources();
    let mut units = p17::versions(87702);
    units.extend(p17::versions(75689));
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    let mut level = lists.clone();
    for _ in 0..cx.pick(3, 4) {
        level = level.iter().flat_map(|l| (0..src.len()).map(move |k| l.iter().copied().chain([k]).collect())).collect();
        lists.extend(level.clone());
    }
    // long lists
    lists.push((0..40).map(|i| (i * 3 + i / 7) % src.len()).collect());
    lists.push((0..40).map(|i| if i % 5 == 0 { 0 } else { 2 }).collect());
    let jobs: Vec<(usize, Vec<usize>)> = lists.into_iter().enumerate().collect();
    par_for(&jobs, |(n, l)| {
        let dir = s.path().join(format!("h{n}"));
        std::fs::create_dir(&dir).unwrap();
        let made: Vec<(InitData, PathBuf, u64)> = l
            .iter()
            .enumerate()
            .map(|(i, k)| {
                let p = dir.join(format!("{i}.SC2Replay"));
                // a file that is gone, or is no replay
                if src[*k].events || i % 2 == 0 {
                    std::fs::write(&p, &src[*k].bytes).unwrap();
                }
                // ids differ from the places
                let id = if i == 0 { u64::MAX } else { 10 - (i as u64) % 10 + (i as u64) / 10 * 10 };
                (src[*k].init_data(&p, id), p, id)
            })
            .collect();
        let inits: Vec<InitData> = made.iter().map(|m| m.0.clone()).collect();
        for kind in KINDS.iter().chain(&["details"]) {
            let want: Vec<Vec<J>> = l.iter().zip(&made).map(|(k, m)| src[*k].rows(kind, &m.1, m.2)).collect();
            let rp = |serially: bool, threads: usize| json!({"sources": l.iter().map(|k| src[*k].what).collect::<Vec<_>>(), "file": kind, "serially": serially, "threads": threads});
            let out = dir.join(format!("{kind}.arrow"));
            // what was there before is replaced
            std::fs::write(&out, vec![b'x'; 10_000]).unwrap();
            contents(cx, "serial", written(kind, &inits, &out, &units, true), kind, &want, true, &|| rp(true, 1));
            contents(cx, "parallel", written(kind, &inits, &out, &units, false), kind, &want, *kind == "details", &|| rp(false, 0));
            cx.trace();
        }
        cx.state_bytes(format!("{l:?}").as_bytes());
        std::fs::remove_dir_all(&dir).unwrap();
    });
    cx.phase("handlers", json!({"sources": src.iter().map(|s| s.what).collect::<Vec<_>>(), "lists": jobs.len(), "files": 7}));
}

/// A source of thousands of rows of each kind: every pair of the flat rows' events, and long runs of one kind.
fn large() -> Source {
    let a = p17::alphabet();
    let mut evs: Vec<(i64, Ev)> = p17::world().into_iter().map(|e| (0, e)).collect();
    evs.extend(de_bruijn(a.len(), 2).iter().enumerate().map(|(i, e)| (14 + i as i64 * 7 / 2, a[*e].clone())));
    let from = evs.last().unwrap().0 + 1;
    let all: Vec<u32> = (0..500).map(|i| tag(1000 + i, 1)).collect();
    for i in 0..3000i64 {
        let u = 1000 + i as u32;
        evs.push((from + i, born(u, 1, "Marine", 1 + (i % 2) as u8, (i as u8, 7), None, None)));
        evs.push((from + i, stats(1, i as i32)));
        evs.push((from + i, upgrade(1 + (i % 3) as u8)));
        if i >= 1000 && i % 5 == 0 {
            evs.push((from + i, died(u - 1, None)));
        }
        if i % 500 == 499 {
            evs.push((from + i, select(0, 10, &all)));
            evs.push((from + i, cmd(0, Some((10, 0)), GameSCmdData::TargetPoint(coord(4096, 8191, i as i32)), i)));
            evs.push((from + i, cmd(0, Some((11, 0)), GameSCmdData::TargetUnit(target(tag(1001, 1), 1)), i)));
        }
    }
    source("large", 87702, &p17::PLAYERS, evs)
}

/// Files of many rows, those of a source in one batch or more, between those of others.
fn many(cx: &Ctx, s: &Scratch) {
    let all = sources();
    let src = [large(), all[0].clone(), all[1].clone()];
    let mut units = p17::versions(87702);
    units.extend(p17::versions(75689));
    let lists: &[&[usize]] = &[&[0], &[0, 1], &[1, 0, 2], &[0, 0], &[2, 0, 1, 0]];
    for (n, l) in lists.iter().enumerate() {
        let dir = s.path().join(format!("m{n}"));
        std::fs::create_dir(&dir).unwrap();
        let made: Vec<(InitData, PathBuf, u64)> = l
            .iter()
            .enumerate()
            .map(|(i, k)| {
                let p = dir.join(format!("{i}.SC2Replay"));
                std::fs::write(&p, &src[*k].bytes).unwrap();
                (src[*k].init_data(&p, 7 + i as u64), p, 7 + i as u64)
            })
            .collect();
        let inits: Vec<InitData> = made.iter().map(|m| m.0.clone()).collect();
        par_for(&KINDS, |kind| {
            let want: Vec<Vec<J>> = l.iter().zip(&made).map(|(k, m)| src[*k].rows(kind, &m.1, m.2)).collect();
            let rows: usize = want.iter().map(|w| w.len()).sum();
            for serially in [true, false] {
                let rp = || json!({"sources": l.iter().map(|k| src[*k].what).collect::<Vec<_>>(), "file": kind, "serially": serially, "rows": rows});
                let out = dir.join(format!("{kind}.{serially}.arrow"));
                contents(cx, "large", written(kind, &inits, &out, &units, serially), kind, &want, serially, &rp);
                cx.trace();
            }
            cx.states_add(rows as u64);
        });
        std::fs::remove_dir_all(&dir).unwrap();
    }
    cx.phase("large", json!({"lists": lists.len(), "events of the large source": src[0].evs.len()}));
}

/// Every deviation of the events and details that rows are made of, many sources to a file.
fn fields(cx: &Ctx, s: &Scratch) {
    for build in [87702u32, 75689] {
        let units = p17::versions(build);
        let jobs = p17::field_jobs(build);
        let parts: Vec<(usize, &[Vec<(i64, Ev)>])> = jobs.chunks(100).enumerate().collect();
        par_for(&parts, |(n, part)| {
            let dir = s.path().join(format!("f{build}-{n}"));
            std::fs::create_dir(&dir).unwrap();
            let made: Vec<(Source, PathBuf, u64)> = part
                .iter()
                .enumerate()
                .map(|(i, evs)| {
                    let src = source("field", build, &p17::PLAYERS, evs.clone());
                    let p = dir.join(format!("{i}.SC2Replay"));
                    std::fs::write(&p, &src.bytes).unwrap();
                    (src, p, i as u64)
                })
                .collect();
            let inits: Vec<InitData> = made.iter().map(|m| m.0.init_data(&m.1, m.2)).collect();
            for kind in KINDS {
                let want: Vec<Vec<J>> = made.iter().map(|m| m.0.rows(kind, &m.1, m.2)).collect();
                let out = dir.join("out.arrow");
                contents(cx, "fields", written(kind, &inits, &out, &units, n % 2 == 0), kind, &want, n % 2 == 0, &|| json!({"build": build, "part": n, "file": kind}));
                cx.traces_add(part.len() as u64);
            }
            cx.states_add(part.len() as u64);
            std::fs::remove_dir_all(&dir).unwrap();
        });
        cx.phase(&format!("fields {build}"), json!({"sources": jobs.len()}));
    }
    // Details: the fields of the rows, and dates up to and beyond what a column can hold.
    let m = packed();
    let lobby = |d: V| p21::init_with(m, vec![p21::user(m, 0), p21::user(m, 1), d], vec![p21::slot(m, Some(1), Some(1)), p21::slot(m, Some(2), Some(2)), p21::slot(m, None, None)]);
    let mut cases: Vec<(V, V)> = vec![];
    for rich in [false, true] {
        crate::choose::explore(1, |c| {
            let d = Gen::new(rich, true).gen_name(aligned(), c, "GameSDetails");
            let l = p21::details_with(vec![p21::player("x", Some(1)), p21::player("y", Some(2))]).field("m_player_list").clone();
            cases.push((crate::fx::with(d, &[("m_player_list", l)]), lobby(p21::user(m, 2))));
        });
        crate::choose::explore(1, |c| {
            let p = crate::fx::with(Gen::new(rich, true).gen_name(aligned(), c, "GameSPlayerDetails"), &[("m_working_set_slot_id", p21::opt(Some(2)))]);
            cases.push((p21::details_with(vec![p21::player("x", Some(1)), p]), lobby(p21::user(m, 2))));
        });
    }
    let ns = |n: i64| n as i128 / 100 + 116_444_736_000_000_000;
    for t in [ns(i64::MIN), ns(i64::MAX), 0, i64::MAX as i128, -i64::MAX as i128, 116_444_736_000_000_000, p21::TIME as i128] {
        for d in -25..=25i128 {
            for o in [0i64, 1, -1, 10, 72_000_000_000, -72_000_000_000, i64::MAX, -i64::MAX] {
                if t.abs() + d.abs() < 1 << 63 {
                    let t = t + d;
                    let v = crate::fx::with(p21::details_with(vec![p21::player("x", Some(1))]), &[("m_time_utc", V::Int(t)), ("m_time_local_offset", V::Int(o as i128))]);
                    cases.push((v, lobby(p21::user(m, 2))));
                }
            }
        }
    }
    let parts: Vec<(usize, &[(V, V)])> = cases.chunks(100).enumerate().collect();
    par_for(&parts, |(n, part)| {
        let dir = s.path().join(format!("d{n}"));
        std::fs::create_dir(&dir).unwrap();
        let (mut inits, mut want) = (vec![], vec![]);
        for (i, (d, l)) in part.iter().enumerate() {
            let bytes = p21::file(87702, d, l);
            let p = dir.join(format!("{i}.SC2Replay"));
            std::fs::write(&p, &bytes).unwrap();
            let (Some(dj), Some(ij)) = (p06::agnostic(d), p21::init_json(l, 87702, &p, &bytes, i as u64)) else { continue };
            inits.push(serde_json::from_value::<InitData>(ij.clone()).unwrap());
            want.push(p21::joined(&dj, &ij).iter().map(p22::flat).collect::<Vec<J>>());
        }
        for serially in [true, false] {
            contents(cx, "detail-fields", written("details", &inits, &dir.join("out.arrow"), &HashMap::new(), serially), "details", &want, true, &|| json!({"part": n}));
        }
        cx.traces_add(part.len() as u64);
        cx.states_add(part.len() as u64);
        std::fs::remove_dir_all(&dir).unwrap();
    });
    cx.phase("details", json!({"sources": cases.len()}));
}

/// Write leases on files: whoever opens one waits until it is given back.
pub struct Gates(Vec<Option<std::fs::File>>);
impl Gates {
    pub fn close(files: &[PathBuf]) -> Option<Gates> {
        use std::os::fd::AsRawFd;
        unsafe { libc::signal(libc::SIGIO, libc::SIG_IGN) };
        let mut out = vec![];
        for p in files {
            let f = std::fs::OpenOptions::new().read(true).write(true).open(p).ok()?;
            if unsafe { libc::fcntl(f.as_raw_fd(), 1024, libc::F_WRLCK as i32) } != 0 {
                return None;
            }
            out.push(Some(f));
        }
        Some(Gates(out))
    }
    pub fn open(&mut self, i: usize) {
        use std::os::fd::AsRawFd;
        if let Some(f) = self.0[i].take() {
            unsafe { libc::fcntl(f.as_raw_fd(), 1024, libc::F_UNLCK as i32) };
        }
    }
}

/// Every order in which the sources can become readable, and so be finished, on every number of threads.
fn schedules(cx: &Ctx, s: &Scratch) {
    let src = sources();
    let mut units = p17::versions(87702);
    units.extend(p17::versions(75689));
    let n = cx.pick(4usize, 5);
    let mut orders: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..n {
        orders = orders.iter().flat_map(|o| (0..n).filter(|i| !o.contains(i)).map(|i| o.iter().copied().chain([i]).collect::<Vec<_>>()).collect::<Vec<_>>()).collect();
    }
    let kinds = [0usize, 1, 3, 0, 1];
    let dir = s.path().join("gates");
    std::fs::create_dir(&dir).unwrap();
    let made: Vec<(InitData, PathBuf, u64)> = (0..n)
        .map(|i| {
            let p = dir.join(format!("{i}.SC2Replay"));
            std::fs::write(&p, &src[kinds[i]].bytes).unwrap();
            (src[kinds[i]].init_data(&p, 100 + i as u64), p, 100 + i as u64)
        })
        .collect();
    let inits: Vec<InitData> = made.iter().map(|m| m.0.clone()).collect();
    let files: Vec<PathBuf> = made.iter().map(|m| m.1.clone()).collect();
    if Gates::close(&files).is_none() {
        cx.assume("the file system has no leases: orders of completion are not controlled");
        return;
    }
    let (mut runs, mut patience) = (0, 500u128);
    let mut seen = std::collections::BTreeSet::new();
    for threads in [n, 2, 1] {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap();
        for kind in KINDS {
            let want: Vec<Vec<J>> = made.iter().enumerate().map(|(i, m)| src[kinds[i]].rows(kind, &m.1, m.2)).collect();
            for o in &orders {
                if threads < n && orders.len() > 24 && o[0] > o[n - 1] {
                    continue;
                }
                let out = dir.join("out.arrow");
                let _ = std::fs::remove_file(&out);
                let mut gates = Gates::close(&files).unwrap();
                let size = || std::fs::metadata(&out).map(|m| m.len()).unwrap_or(0);
                let got = std::thread::scope(|sc| {
                    let t = sc.spawn(|| pool.install(|| written(kind, &inits, &out, &units, false)));
                    for i in o {
                        let before = size();
                        gates.open(*i);
                        // With a thread for each, the next goes on when this one's rows are in the file.
                        if threads == n && !want[*i].is_empty() {
                            let t0 = std::time::Instant::now();
                            while size() <= before.max(8) && t0.elapsed().as_millis() < patience && !t.is_finished() {
                                std::thread::sleep(std::time::Duration::from_micros(100));
                            }
                            // A writer that keeps the rows until the end is not waited for at every gate.
                            if t0.elapsed().as_millis() >= patience && patience > 10 {
                                patience /= 2;
                            }
                        }
                    }
                    t.join().unwrap()
                });
                if let Ok(Ok((_, b))) = &got {
                    let ids: Vec<u64> = b.iter().filter_map(|b| b.first()?.get("ext_fs_id")?.as_u64()).collect();
                    seen.insert((kind, threads, ids));
                }
                runs += 1;
                cx.trace();
                contents(cx, "schedule", got, kind, &want, false, &|| json!({"file": kind, "threads": threads, "order": o}));
            }
        }
    }
    for (k, t, ids) in &seen {
        cx.state_bytes(format!("{k}{t}{ids:?}").as_bytes());
    }
    cx.phase("schedules", json!({"sources": n, "orders": orders.len(), "runs": runs, "different orders of batches seen": seen.len()}));
    let _ = std::fs::remove_dir_all(&dir);
}

pub fn run(cx: &Ctx) {
    let s = Scratch::new();
    writer(cx, &s);
    schemas(cx);
    handlers(cx, &s);
    many(cx, &s);
    fields(cx, &s);
    schedules(cx, &s);
    cx.sample(json!({"history": "write 1 row, write none, two writes that wait for the lock"}));
    cx.sample(json!({"sources": ["a", "gone", "b"], "file": "unit_born", "rows": "those of a, then those of b"}));
}
