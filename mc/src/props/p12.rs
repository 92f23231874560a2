//! Selections and control groups under every history of selection events.
use crate::ctx::*;
use crate::sm::*;
use s2protocol::game_events::*;
use s2protocol::state::UnitChangeHint;
use serde_json::json;

pub fn world() -> (s2protocol::SC2ReplayState, Model) {
    seeded(
        initial(&[(0, "Ann"), (3, "Bob")]),
        &[
            born(1, 1, "Probe", 1, (1, 1), None, None),
            born(2, 1, "Marine", 1, (2, 2), None, None),
            born(0x3fff, 1, "Nexus", 2, (3, 3), None, None),
        ],
    )
}

pub fn edges() -> Vec<Ev> {
    let (t1, t2, t9) = (tag(1, 1), tag(2, 1), tag(9, 1));
    let mut a: Vec<Ev> = [&[][..], &[t1], &[t1, t2], &[t2, t1], &[t9, t1]].iter().map(|t| select(0, 10, t)).collect();
    a.push(select(0, 0, &[t1]));
    a.push(select(0, 9, &[t2]));
    a.push(select(0, 9, &[]));
    for g in [0, 9] {
        for k in KINDS {
            a.push(group(0, g, k));
        }
    }
    a.push(died(1, None));
    a.push(died(2, Some(1)));
    a.push(born(1, 2, "Marine", 1, (5, 5), None, None));
    a.push(change(1, "Nexus"));
    a
}

pub fn two_users() -> Vec<Ev> {
    let (t1, t2, t3) = (tag(1, 1), tag(2, 1), tag(0x3fff, 1));
    let mut a = vec![select(0, 10, &[t1]), select(0, 10, &[t2, t1]), select(3, 10, &[t3]), select(3, 10, &[]), select(7, 10, &[t2]), select(0, 15, &[t2]), select(0, 11, &[t1])];
    for u in [0, 3] {
        for k in KINDS {
            a.push(group(u, 4, k));
        }
    }
    a.push(group(3, 11, GameEControlGroupUpdate::ERecall));
    a.push(group(3, 15, GameEControlGroupUpdate::ESet));
    a.push(group(7, 4, GameEControlGroupUpdate::ERecall));
    a.push(died(0x3fff, None));
    a
}

/// Every one of the ten groups through every kind of update, from a full house.
fn all_groups() -> Vec<Ev> {
    let mut a = vec![select(0, 10, &[tag(1, 1)]), select(0, 10, &[tag(2, 1), tag(1, 1)])];
    for g in 0..10 {
        for k in KINDS {
            a.push(group(0, g, k));
        }
        a.push(select(0, g, &[tag(2, 1)]));
    }
    a.push(died(2, None));
    a
}

pub fn run(cx: &Ctx) {
    let asp = Aspects { groups: true, selection: true, ..Default::default() };
    explore_product(cx, "edges", world(), &edges(), cx.pick(7, 40), true, cx.pick(20_000, 800_000), &asp);
    explore_product(cx, "two-users", world(), &two_users(), 40, true, 800_000, &asp);
    explore_product(cx, "all-groups", world(), &all_groups(), cx.pick(4, 6), true, cx.pick(20_000, 300_000), &asp);
    // Two players with the same units: only what is in the groups, not the mark on the unit.
    let (t1, t2) = (tag(1, 1), tag(2, 1));
    let mut shared = vec![died(1, None)];
    for u in [0, 3] {
        shared.push(select(u, 10, &[t1, t2]));
        shared.push(select(u, 10, &[t2]));
        for k in KINDS {
            shared.push(group(u, 9, k));
        }
    }
    explore_product(cx, "shared", world(), &shared, 40, true, 300_000, &Aspects { groups: true, ..Default::default() });
    // Tags of one index that differ in their recycle count are different tags.
    let (new, top) = (tag(1, 2), tag(1, 0x3ffff));
    let mut reused: Vec<Ev> = [&[t1][..], &[new], &[top, t2], &[new, t1], &[t2, new]].iter().map(|t| select(0, 10, t)).collect();
    reused.push(select(0, 0, &[t1, new]));
    reused.push(select(0, 9, &[top]));
    for g in [0, 9] {
        for k in KINDS {
            reused.push(group(0, g, k));
        }
    }
    reused.push(died(1, None));
    reused.push(died(2, None));
    reused.push(born(1, 2, "Marine", 1, (5, 5), None, None));
    explore_product(cx, "reused", world(), &reused, cx.pick(6, 40), true, cx.pick(20_000, 300_000), &asp);
    partial_deltas(cx);
    super::sweeps::run(cx, &asp);
}

/// A selection delta that keeps part of the selection: what the mask does not remove stays.
fn partial_deltas(cx: &Ctx) {
    let (t1, t2, t3) = (tag(1, 1), tag(2, 1), tag(0x3fff, 1));
    let idx = |v: &[u16]| GameSelectionIndexArrayType { value: v.to_vec() };
    let cases: Vec<(&str, GameSSelectionMask, Vec<u32>)> = vec![
        ("none", GameSSelectionMask::None, vec![t1, t2, t3]),
        ("one-indices", GameSSelectionMask::OneIndices(idx(&[0])), vec![t2, t3]),
        ("zero-indices", GameSSelectionMask::ZeroIndices(idx(&[0])), vec![t1, t3]),
    ];
    for (name, mask, want) in cases {
        let (mut r, mut m) = world();
        let first = select(0, 10, &[t1, t2]);
        apply(&mut r, &first, 1);
        m.step(&first, 1);
        let mut e = select(0, 10, &[t3]);
        if let Ev::G(_, ReplayGameEvent::SelectionDelta(d)) = &mut e {
            d.m_delta.m_remove_mask = mask;
        }
        cx.steps(2);
        cx.trace();
        if let Err(p) = guard(|| matches!(apply(&mut r, &e, 2).change_hint, UnitChangeHint::Selection(_))) {
            cx.violation(&format!("partial-delta/{name}/panic"), &p, json!({"event": format!("{e:?}")}));
            continue;
        }
        let mut got = r.user_state[&0].control_groups[10].clone();
        got.sort_unstable();
        // The known finding is that the delta replaces; anything else that is wrong is another one.
        let key = if got == [t3] { format!("partial-delta/{name}") } else { format!("partial-delta/{name}/other") };
        cx.expect_eq(&key, &got, &want, || json!({"event": format!("{e:?}"), "selection before": [t1, t2]}));
    }
}
