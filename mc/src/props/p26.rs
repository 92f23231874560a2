//! Loops to seconds, and stored times to dates.
use super::*;
use s2protocol::{convert_game_loop_to_seconds, convert_tracker_loop_to_seconds, transform_to_naivetime};
use serde_json::json;

/// Whether rounding to single precision explains the seconds.
fn plausible(l: i64, got: u32) -> bool {
    let at = |f: f64| (l as f64 * 68.58391 * f / 1000.0) as u32;
    (at(1.0 - 3e-7)..=at(1.0 + 3e-7)).contains(&got)
}

fn date(cx: &Ctx, key: &str, utc: i64, off: i64) {
    match guard(|| transform_to_naivetime(utc, off)) {
        Ok(Some(d)) => {
            let got = json!(d);
            let got = got.as_str().unwrap();
            let want = p21::datetime(utc, off);
            if got != want {
                cx.violation(key, &format!("got {got} want {want}"), json!({"time_utc": utc, "time_local_offset": off}));
            }
        }
        Ok(None) => cx.violation(&format!("{key}/none"), "no date", json!({"time_utc": utc, "time_local_offset": off})),
        Err(p) => cx.violation(&format!("{key}/panic"), &p, json!({"time_utc": utc, "time_local_offset": off})),
    }
}

pub fn run(cx: &Ctx) {
    // Every loop up to a bound, then around the powers of two.
    let top = 1i64 << cx.pick(26, 31);
    let chunks: Vec<i64> = (0..256).collect();
    par_for(&chunks, |c| {
        let (lo, hi) = (top / 256 * c, top / 256 * (c + 1));
        let mut last = if lo == 0 { 0 } else { convert_game_loop_to_seconds(lo - 1) };
        for l in lo..hi {
            let (g, t) = (convert_game_loop_to_seconds(l), convert_tracker_loop_to_seconds(l));
            if !plausible(l, g) || !plausible(l, t) {
                cx.violation("seconds", &format!("loop {l} is at {g} s and {t} s"), json!({"loop": l}));
            }
            if g < last {
                cx.violation("seconds/order", &format!("loop {l} is at {g} s, the one before at {last} s"), json!({"loop": l}));
            }
            last = g;
        }
    });
    cx.steps(top as u64 * 2);
    cx.states_add(top as u64);
    let mut last = 0;
    let mut loops: Vec<i64> = vec![13735, i64::MAX];
    for b in 24..63 {
        for d in [-257i64, -1, 0, 1, 255] {
            loops.push((1i64 << b) + d);
        }
    }
    loops.sort_unstable();
    for l in loops {
        match guard(|| (convert_game_loop_to_seconds(l), convert_tracker_loop_to_seconds(l))) {
            Ok((g, t)) => {
                if !plausible(l, g) || !plausible(l, t) {
                    cx.violation("seconds/large", &format!("loop {l} is at {g} s and {t} s"), json!({"loop": l}));
                }
                if g < last {
                    cx.violation("seconds/large-order", &format!("loop {l}: {g} after {last}"), json!({"loop": l}));
                }
                last = g;
            }
            Err(p) => cx.violation("seconds/panic", &p, json!({"loop": l})),
        }
    }
    cx.phase("seconds", json!({"every loop below": top, "and around": "2^24 .. 2^62"}));
    // Dates: every day of 1601 to 2500 with offsets, every second of some days, every 10th of a microsecond of some seconds.
    let day = 864_000_000_000i64;
    let days: Vec<i64> = (0..328_717 + 10).collect();
    let chunks: Vec<&[i64]> = days.chunks(4096).collect();
    let offs: Vec<i64> = [0i64, -14, -9, -1, 1, 2, 12].iter().map(|h| h * day / 24).chain([day / 24 * 11 / 2, 1, -1, 15, -15, 12_345_678_901]).collect();
    par_for(&chunks, |c| {
        for d in *c {
            let times: &[i64] = if cx.thorough { &[0, 9, 10, day / 2 + 1_234_567, day - 1] } else { &[0, day - 1] };
            for t in times {
                for o in if cx.thorough { &offs[..] } else { &offs[(*d as usize % offs.len())..][..1] } {
                    date(cx, "date/day", d * day + t, *o);
                }
            }
        }
    });
    cx.steps(days.len() as u64 * 2);
    cx.states_add(days.len() as u64);
    let days = [150_000i64, 145_731 + 59, 157_112, 0];
    par_for(&days, |d| {
        for s in (0..86_400i64).step_by(cx.pick(7, 1)) {
            date(cx, "date/second", d * day + s * 10_000_000 + s % 13, offs[s as usize % offs.len()]);
        }
        for n in 0..cx.pick(20_000i64, 2_000_000) {
            date(cx, "date/step", d * day + 86_000 * 10_000_000 + n, offs[n as usize % offs.len()]);
        }
    });
    // All pairs of offsets and times at the boundaries.
    let edges: Vec<i64> = [0i64, 1, 9, 10, 11, 116_444_736_000_000_000, 132_223_104_000_000_000, i64::MAX / 2, i64::MAX, i64::MIN, i64::MIN / 2].iter().flat_map(|e| [e.saturating_sub(10), e.saturating_sub(1), *e, e.saturating_add(1), e.saturating_add(10)]).collect();
    for a in &edges {
        for b in edges.iter().chain(&offs) {
            date(cx, "date/edge", *a, *b);
            cx.steps(1);
        }
    }
    // The record of the details carries that date.
    for (utc, off) in [(132_223_104_000_000_000i64, 0i64), (132_223_104_012_345_678, 72_000_000_000), (132_223_104_012_345_678, -36_000_000_000), (0, 0), (1, 1)] {
        let mut d = s2protocol::details::Details::default();
        (d.time_utc, d.time_local_offset) = (utc, off);
        cx.trace();
        match guard(|| d.set_metadata(5)) {
            Ok(d) => {
                cx.expect_eq("date/details", &(json!(d.ext_datetime).as_str().unwrap().to_string(), d.ext_fs_id, d.time_utc, d.time_local_offset), &(p21::datetime(utc, off), 5, utc, off), || json!([utc, off]));
            }
            Err(p) => cx.violation("date/details-panic", &p, json!([utc, off])),
        }
    }
    cx.traces_add(top as u64);
    cx.phase("dates", json!({"days": "every day of 1601 to 2500", "offsets": offs.len()}));
    cx.sample(json!({"loop": 13735, "seconds": 942}));
}
