//! Unit tags, their index and recycle count: all of them.
use super::*;
use s2protocol::tracker_events::{unit_tag, unit_tag_index, unit_tag_recycle};
use serde_json::json;

pub fn run(cx: &Ctx) {
    let indexes: Vec<u32> = (0..1 << 14).collect();
    par_for(&indexes, |&i| {
        let mut n = 0u64;
        for r in 0..1u32 << 18 {
            n += 1;
            let t = unit_tag(i, r);
            let want = (i as i64) * (1 << 18) + r as i64;
            if t != want || unit_tag_index(want) != i || unit_tag_recycle(want) != r {
                cx.violation("round trip", &format!("unit {i}-{r}: tag {t}, of which the index is {} and the recycle count {}", unit_tag_index(want), unit_tag_recycle(want)), json!({"index": i, "recycle": r}));
                return;
            }
        }
        cx.steps(n * 3);
        cx.states_add(n);
        cx.traces_add(n);
    });
    cx.phase("tags", json!("all 2^32 pairs of an index and a recycle count"));
    cx.sample(json!({"index": 0x3fff, "recycle": 0x3ffff, "tag": u32::MAX}));
}
