//! Unit positions: every short list of relative positions.
use crate::ctx::*;
use crate::sm::*;
use s2protocol::tracker_events::*;
use serde_json::json;

pub fn run(cx: &Ctx) {
    let asp = Aspects { pos: true, hint: true, event: true, ..Default::default() };
    let world = || {
        seeded(
            initial(&[(0, "Ann")]),
            &[
                born(1, 1, "Probe", 1, (10, 11), None, None),
                born(2, 1, "Marine", 1, (20, 21), None, None),
                born(5, 1, "Marine", 1, (50, 51), None, None),
                born(0x3fff, 1, "Nexus", 1, (60, 61), None, None),
            ],
        )
    };
    // All lists of up to n triples over these deltas and coordinates.
    let deltas = [0, 1, 3, 4, 0x3ffe, -1];
    let coords = [(0, 0), (1, -1), (255, 3), (-200, 8191)];
    let mut lists: Vec<Vec<i32>> = vec![vec![]];
    let mut level = lists.clone();
    for _ in 0..cx.pick(3, 4) {
        let mut next = vec![];
        for l in &level {
            for d in deltas {
                for (x, y) in coords {
                    let mut l = l.clone();
                    l.extend([d, x, y]);
                    next.push(l);
                }
            }
        }
        lists.extend(next.iter().cloned());
        level = next;
    }
    let firsts = [1u32, 0, 2, 5, 0x3fff];
    let base = world();
    par_for(&lists, |l| {
        for f in firsts {
            // A trailing incomplete triple must not matter.
            for extra in 0..3usize {
                if extra > 0 && l.len() > 6 {
                    continue;
                }
                let mut l = l.clone();
                l.extend(&[1, 77][..extra]);
                let ev = positions(f, &l);
                let (mut r, mut m) = base.clone();
                if let Err((k, w)) = step_both(&asp, &mut r, &mut m, &ev, 99) {
                    cx.violation(&format!("positions/{k}"), &w, json!({"first": f, "items": l}));
                }
                // The list of positions itself.
                let got = guard(|| UnitPositionsEvent { first_unit_index: f, items: l.clone() }.to_unit_positions_vec());
                let mut idx = f as i64;
                let want: Vec<(i64, i64, i64)> = l
                    .chunks_exact(3)
                    .map(|c| {
                        idx += c[0] as i64;
                        (idx, c[1] as i64 * 4, c[2] as i64 * 4)
                    })
                    .collect();
                if want.iter().all(|w| w.0 >= 0) {
                    match got {
                        Ok(g) => {
                            let g: Vec<(i64, i64, i64)> = g.iter().map(|p| (p.tag as i64, p.x as i64, p.y as i64)).collect();
                            cx.expect_eq("positions/list", &g, &want, || json!({"first": f, "items": l}));
                        }
                        Err(p) => cx.violation("positions/list-panic", &p, json!({"first": f, "items": l})),
                    }
                }
                cx.steps(2);
                cx.trace();
            }
        }
        cx.state_bytes(format!("{l:?}").as_bytes());
    });
    cx.phase("lists", json!({"lists": lists.len(), "first indexes": firsts.len()}));
    // Positions among other lifecycle events.
    let a = vec![
        positions(1, &[0, 1, 2, 1, 3, 4]),
        positions(0, &[2, 9, 9, 0, 8, 8]),
        positions(5, &[0, -3, 77]),
        died(1, None),
        died(2, None),
        born(1, 2, "Probe", 1, (200, 100), None, None),
        uinit(2, "Nexus", 1, (0, 255)),
        change(2, "Marine"),
        done(2),
        change(7, "Larva"),
        positions(7, &[0, 5, 6]),
    ];
    explore_product(cx, "history", world(), &a, 40, true, 300_000, &asp);
    super::sweeps::run(cx, &Aspects { pos: true, ..Default::default() });
}
