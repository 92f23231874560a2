//! Arrow conversion: every record, event and row as a column array and back.
use super::*;
use crate::choose::explore;
use crate::fx::*;
use crate::rp::*;
use crate::spec::*;
use arrow::array::{Array, ArrayRef, RecordBatch, StructArray};
use arrow::datatypes::{DataType, Schema};
use arrow_convert::deserialize::{ArrowDeserialize, TryIntoCollection};
use arrow_convert::field::ArrowField;
use arrow_convert::serialize::{ArrowSerialize, TryIntoArrow};
use s2protocol::arrow_store::ipc_writer::write_batches;
use s2protocol::details::{PlayerLobbyDetails, PlayerLobbyDetailsFlatRow};
use s2protocol::game_events::{CmdTargetPointEventFlatRow, CmdTargetUnitEventFlatRow, GameEvent};
use s2protocol::init_data::UserInitDataFlatRow;
use crate::sm::*;
use s2protocol::tracker_events::{PlayerStatsFlatRow, TrackerEvent, UnitBornEventFlatRow, UnitDiedEventFlatRow, UpgradeEventFlatRow};
use s2protocol::*;
use serde::Serialize;
use std::sync::Mutex;
use serde_json::{Value as J, json};

/// To an array and back; through a file as well when asked.
fn there_and_back<T>(rows: &[T], file: Option<&std::path::Path>) -> Result<Vec<T>, String>
where
    T: ArrowSerialize + ArrowDeserialize + ArrowField<Type = T> + 'static,
{
    let e = |e: arrow::error::ArrowError| e.to_string();
    let a: ArrayRef = rows.try_into_arrow().map_err(e)?;
    if a.len() != rows.len() {
        return Err(format!("an array of {} for {} values", a.len(), rows.len()));
    }
    let a: ArrayRef = match (file, T::data_type()) {
        (Some(p), DataType::Struct(fields)) => {
            let b: RecordBatch = a.as_any().downcast_ref::<StructArray>().unwrap().into();
            write_batches(p.to_path_buf(), Schema::new(fields), b).map_err(|e| e.to_string())?;
            let r = arrow::ipc::reader::FileReader::try_new(std::fs::File::open(p).map_err(|e| e.to_string())?, None).map_err(e)?;
            let mut b: Vec<RecordBatch> = r.collect::<Result<_, _>>().map_err(e)?;
            if b.len() != 1 {
                return Err(format!("{} batches in the file", b.len()));
            }
            std::sync::Arc::new(StructArray::from(b.remove(0)))
        }
        _ => a,
    };
    let back: Vec<T> = a.try_into_collection().map_err(e)?;
    Ok(back)
}

fn round<T>(cx: &Ctx, key: &str, rows: &[T], file: Option<&std::path::Path>)
where
    T: ArrowSerialize + ArrowDeserialize + ArrowField<Type = T> + 'static + std::fmt::Debug + Serialize,
{
    cx.steps(rows.len() as u64);
    cx.trace();
    let show = |v: &[T]| format!("{v:?}");
    let want = show(rows);
    cx.state_bytes(want.as_bytes());
    match guard(|| there_and_back(rows, file)) {
        Ok(Ok(back)) => {
            let got = show(&back);
            if got != want {
                let at = back.iter().zip(rows).position(|(a, b)| format!("{a:?}") != format!("{b:?}"));
                let d = at.map_or("length".to_string(), |i| p06::diff(&json!(&back[i]), &json!(&rows[i])));
                let text = match at {
                    Some(i) => format!("value {i} of {} came back as {:?} want {:?}", rows.len(), back[i], rows[i]),
                    None => format!("{} values came back, want {}", back.len(), rows.len()),
                };
                cx.violation(&format!("{key}/{d}"), &trunc(&text), json!({"values": trunc(&want)}));
            }
        }
        Ok(Err(e)) => cx.violation(&format!("{key}/error"), &e, json!({"values": trunc(&want)})),
        Err(p) => cx.violation(&format!("{key}/panic"), &p, json!({"values": trunc(&want)})),
    }
}

fn tracker(v: &V) -> Option<TrackerEvent> {
    let mut b = vec![];
    tracker_pair(1, 300, v, &mut b);
    let (contents, mpq) = archive(87702, &[("replay.tracker.events", &b)]);
    guard(|| read_tracker_events("x", &mpq, &contents).ok()).ok().flatten()?.pop()
}
fn game(m: &Module, build: u32, v: &V) -> Option<GameEvent> {
    let mut w = BitW::default();
    packed_event(m, "GameEEventId", 1, 300, 3, v, &mut w);
    let (contents, mpq) = archive(build, &[("replay.game.events", &w.out)]);
    guard(|| read_game_events("x", &mpq, &contents).ok()).ok().flatten()?.pop()
}

pub fn run(cx: &Ctx) {
    let scratch = Scratch::new();
    let k = cx.pick(1, 2);
    // (a) every kind of event with every field deviation, alone and all together
    let nt = aligned().variants("ReplayTrackerEEventId").len();
    let ng = packed().variants("GameEEventId").len();
    let jobs: Vec<(bool, usize, bool)> = (0..nt).map(|i| (true, i)).chain((0..ng).map(|i| (false, i))).flat_map(|(t, i)| [(t, i, false), (t, i, true)]).collect();
    let samples = Mutex::new((vec![], vec![]));
    par_for(&jobs, |&(t, i, rich)| {
        let (mut ts, mut gs) = (vec![], vec![]);
        explore(k, |c| {
            if t {
                ts.extend(tracker(&Gen::new(rich, true).gen_variant(aligned(), c, "ReplayTrackerEEventId", i)));
            } else {
                gs.extend(game(packed(), 87702, &Gen::new(rich, false).gen_variant(packed(), c, "GameEEventId", i)));
            }
        });
        let place = scratch.path().join(format!("{t}{i}{rich}.arrow"));
        ts.iter().for_each(|e| round(cx, "tracker", std::slice::from_ref(e), None));
        gs.iter().for_each(|e| round(cx, "game", std::slice::from_ref(e), None));
        round(cx, "tracker/all", &ts, Some(&place));
        round(cx, "game/all", &gs, Some(&place));
        let mut s = samples.lock().unwrap();
        s.0.extend(ts.first().cloned());
        s.1.extend(gs.first().cloned());
    });
    let (mut ts, mut gs) = samples.into_inner().unwrap();
    ts.sort_by_key(|e| format!("{e:?}"));
    gs.sort_by_key(|e| format!("{e:?}"));
    cx.phase("events", json!({"deviations": k, "tracker kinds": ts.len(), "game kinds": gs.len()}));
    // (b) mixed kinds in one array
    let n = ts.len();
    par_for(&(0..n.pow(3)).collect::<Vec<_>>(), |&s| round(cx, "tracker/mixed", &[s / n / n, s / n % n, s % n].map(|i| ts[i].clone()), None));
    let n = gs.len();
    par_for(&(0..n.pow(2)).collect::<Vec<_>>(), |&s| round(cx, "game/mixed", &[s / n, s % n, s / n].map(|i| gs[i].clone()), None));
    cx.phase("mixed", json!({"tracker": ts.len().pow(3), "game": n * n}));
    // (c) the records of a replay, with every field deviation
    let parts = ["SUserInitialData", "GameSGameDescription", "GameSLobbyState", "GameSLobbySlot"];
    let all = Mutex::new((vec![], vec![]));
    par_for(&[0usize, 1, 2].iter().flat_map(|w| [false, true].map(|r| (*w, r))).flat_map(|(w, r)| parts.map(|p| (w, r, p))).filter(|j| j.0 > 0 || j.2 == parts[0]).collect::<Vec<_>>(), |&(what, rich, part)| {
        let (mut ds, mut is) = (vec![], vec![]);
        explore(1, |c| match what {
            0 => {
                let ps = (0..1 + c.picks().len()).map(|_| Gen::new(rich, false).gen_name(aligned(), c, "GameSPlayerDetails")).collect();
                let mut v = with(Gen::new(rich, false).gen_name(aligned(), c, "GameSDetails"), &[("m_player_list", V::Opt(Some(Box::new(V::Arr(ps)))))]);
                // Arrow keeps times in nanoseconds since 1970, which end in the years 1677 and 2262.
                let nanos = |k: &str| v.field(k).int() * 100 - if k == "m_time_utc" { 11_644_473_600_000_000_000 } else { 0 };
                let (utc, local) = (nanos("m_time_utc"), nanos("m_time_local_offset"));
                if [utc, utc + local, utc - local].iter().any(|t| i64::try_from(*t).is_err()) {
                    v.set("m_time_utc", V::Int(p21::TIME as i128));
                }
                let (contents, mpq) = archive(87702, &[("replay.details", &tagged("GameSDetails", &v))]);
                let d = guard(|| read_details("x", &mpq, &contents).ok()).ok().flatten();
                ds.extend(d.map(|d| d.set_metadata(u64::MAX - c.picks().len() as u64)).filter(|d| d.ext_datetime.and_utc().timestamp_nanos_opt().is_some()));
            }
            w => {
                let (m, build) = if w == 1 { (packed(), 87702) } else { (packed75689(), 75689) };
                let v = p07::whole(m, part, vec![Gen::new(rich, false).gen_name(m, c, part)]);
                let (contents, mpq) = archive(build, &[("replay.initData", &packed_bytes(m, "ReplaySInitData", &v))]);
                is.extend(guard(|| read_init_data("x", &mpq, &contents).ok()).ok().flatten());
            }
        });
        let place = scratch.path().join(format!("{what}{rich}{part}.arrow"));
        ds.iter().for_each(|e| round(cx, "details", std::slice::from_ref(e), None));
        is.iter().for_each(|e| round(cx, "initial data", std::slice::from_ref(e), None));
        round(cx, "details/all", &ds, Some(&place));
        round(cx, "initial data/all", &is, Some(&place));
        let mut a = all.lock().unwrap();
        a.0.extend(ds);
        a.1.extend(is);
    });
    let (ds, is) = all.into_inner().unwrap();
    cx.phase("records", json!({"details": ds.len(), "initial data": is.len()}));
    // (d) the rows of every collection
    let (mut players, mut users) = (vec![], vec![]);
    for build in [87702u32, 75689] {
        let m = crate::rp::module(build);
        for n in 0..=15usize {
            let d = p21::details_with((0..n).map(|i| p21::player(&format!("player {i}"), Some(n as i64 - i as i64))).collect());
            let i = p21::init_with(m, (0..n).map(|i| p21::user(m, i)).collect(), (0..n).map(|i| p21::slot(m, Some(i as i64 + 1), (i % 3 > 0).then_some(i as i64))).collect());
            let p = p21::me(&scratch, "", &p21::file(build, &d, &i));
            let Ok(init) = InitData::try_from((p, u64::MAX - n as u64)) else { continue };
            let rows: Vec<PlayerLobbyDetailsFlatRow> = Vec::<PlayerLobbyDetails>::try_from(&init).unwrap().into_iter().map(|p| p.into()).collect();
            round(cx, "player row", &rows, Some(&scratch.path().join("players.arrow")));
            players.extend(rows);
            let rows = Vec::<UserInitDataFlatRow>::from(&init);
            round(cx, "user row", &rows, Some(&scratch.path().join("users.arrow")));
            users.extend(rows);
        }
    }
    round(cx, "player row/all", &players, Some(&scratch.path().join("players.arrow")));
    round(cx, "user row/all", &users, Some(&scratch.path().join("users.arrow")));
    let collected = Mutex::new(Rows::default());
    for build in [87702u32, 75689] {
        let base = Replay::new(build, &p17::PLAYERS);
        let p = scratch.file(&format!("base{build}.SC2Replay"), &base.bytes());
        let init = InitData::try_from((p, u64::MAX)).unwrap();
        let units = p17::versions(build);
        let mut jobs = p17::field_jobs(build);
        let a = p17::alphabet();
        let world: Vec<(i64, Ev)> = p17::world().into_iter().map(|e| (0, e)).collect();
        jobs.extend((0..a.len().pow(2)).map(|s| world.iter().cloned().chain([(14, a[s / a.len()].clone()), (1 << 20, a[s % a.len()].clone())]).collect()));
        par_for(&jobs, |evs| {
            let mut r = base.clone();
            r.push(evs);
            let mut init = init.clone();
            init.ext_fs_file_name = p21::me(&scratch, "", &r.bytes()).to_str().unwrap().into();
            // What cannot be collected is another property's concern.
            let Ok(rows) = guard(|| {
                let it = || SC2EventIterator::new(&init, units.clone()).unwrap();
                Rows(
                    it().collect_into_game_cmd_target_points_flat_rows(),
                    it().collect_into_game_cmd_target_units_flat_rows(),
                    it().collect_into_player_stats_flat_rows(),
                    it().collect_into_upgrades_flat_rows(),
                    it().collect_into_unit_born_flat_rows(),
                    it().collect_into_unit_died_flat_rows(),
                )
            }) else {
                return;
            };
            rows.check(cx, None);
            collected.lock().unwrap().add(rows);
        });
        cx.phase(&format!("rows {build}"), json!({"histories": jobs.len()}));
    }
    let rows = collected.into_inner().unwrap();
    rows.check(cx, Some(scratch.path()));
    cx.phase("rows/all", rows.counts());
    // (e) every pattern of two values over more rows than a byte of the validity map has bits
    patterns(cx, "details", &ds);
    patterns(cx, "initial data", &is);
    patterns(cx, "tracker", &ts);
    patterns(cx, "game", &gs);
    patterns(cx, "player row", &players);
    patterns(cx, "user row", &users);
    patterns(cx, "cmd_target_point", &rows.0);
    patterns(cx, "cmd_target_unit", &rows.1);
    patterns(cx, "stats", &rows.2);
    patterns(cx, "upgrades", &rows.3);
    patterns(cx, "unit_born", &rows.4);
    patterns(cx, "unit_died", &rows.5);
}

/// All words of nine letters over the shortest and the longest value, and no value at all.
fn patterns<T>(cx: &Ctx, key: &str, rows: &[T])
where
    T: ArrowSerialize + ArrowDeserialize + ArrowField<Type = T> + 'static + std::fmt::Debug + Serialize + Clone + Sync,
{
    round(cx, key, &rows[..0], None);
    let len = |r: &&T| format!("{r:?}").len();
    let (Some(a), Some(b)) = (rows.iter().min_by_key(len), rows.iter().max_by_key(len)) else { return };
    par_for(&(0..1usize << 9).collect::<Vec<_>>(), |w| {
        let v: Vec<T> = (0..9).map(|i| if w >> i & 1 == 1 { a.clone() } else { b.clone() }).collect();
        round(cx, &format!("{key}/pattern"), &v, None);
    });
    cx.phase(&format!("patterns {key}"), json!({"words": 512, "length": 9}));
}

#[derive(Default)]
struct Rows(Vec<CmdTargetPointEventFlatRow>, Vec<CmdTargetUnitEventFlatRow>, Vec<PlayerStatsFlatRow>, Vec<UpgradeEventFlatRow>, Vec<UnitBornEventFlatRow>, Vec<UnitDiedEventFlatRow>);
impl Rows {
    fn add(&mut self, o: Rows) {
        self.0.extend(o.0);
        self.1.extend(o.1);
        self.2.extend(o.2);
        self.3.extend(o.3);
        self.4.extend(o.4);
        self.5.extend(o.5);
    }
    fn check(&self, cx: &Ctx, dir: Option<&std::path::Path>) {
        let p = |n: &str| dir.map(|d| d.join(n));
        round(cx, "cmd_target_point", &self.0, p("0.arrow").as_deref());
        round(cx, "cmd_target_unit", &self.1, p("1.arrow").as_deref());
        round(cx, "stats", &self.2, p("2.arrow").as_deref());
        round(cx, "upgrades", &self.3, p("3.arrow").as_deref());
        round(cx, "unit_born", &self.4, p("4.arrow").as_deref());
        round(cx, "unit_died", &self.5, p("5.arrow").as_deref());
    }
    fn counts(&self) -> J {
        json!({"cmd_target_point": self.0.len(), "cmd_target_unit": self.1.len(), "stats": self.2.len(), "upgrades": self.3.len(), "unit_born": self.4.len(), "unit_died": self.5.len()})
    }
}
