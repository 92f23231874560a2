//! Unit registry under every history of lifecycle events.
use crate::ctx::*;
use crate::sm::*;

pub fn alphabet() -> Vec<Ev> {
    let mut a = vec![];
    for (i, o) in [(1u32, 0x3fffu32), (0x3fff, 1)] {
        a.push(born(i, 1, "Probe", 1, (10, 250), None, None));
        a.push(born(i, 2, "Marine", 2, (0, 7), Some(o), Some("Train")));
        a.push(uinit(i, "Nexus", 2, (255, 3)));
        a.push(done(i));
        a.push(change(i, "Larva"));
        a.push(change(i, "Marine"));
        a.push(owner(i, 3));
        a.push(owner(i, 1));
        a.push(died(i, None));
        a.push(died(i, Some(o)));
        a.push(died(i, Some(i)));
    }
    a.push(positions(1, &[0, 40, 41, 0x3ffe, -7, 200]));
    a.push(setup(1, Some(4), Some(2)));
    a.push(setup(2, Some(5), None));
    a
}

pub fn run(cx: &Ctx) {
    let asp = Aspects { registry: true, look: true, ..Default::default() };
    let init = || initial(&[(4, "Ann"), (5, "Bob")]);
    // Histories that are told apart by the loops too.
    explore_product(cx, "lifecycle", init(), &alphabet(), cx.pick(4, 5), false, 400_000, &asp);
    // Deeper, with the loops abstracted.
    explore_product(cx, "lifecycle-deep", init(), &alphabet(), cx.pick(8, 40), true, cx.pick(60_000, 1_000_000), &asp);
    // One unit, every event that names it, with a name that leaves the balance data and a selection.
    let mut one = vec![];
    for i in [0u32] {
        for (p, n) in [(0u8, "Probe"), (4, "Zergling")] {
            one.push(born(i, 1, n, p, (p, 9), None, Some("Morph")));
            one.push(uinit(i, n, p, (8, p)));
            one.push(change(i, n));
            one.push(owner(i, p));
        }
        one.push(done(i));
        one.push(died(i, Some(i)));
        one.push(select(4, 10, &[tag(i, 1)]));
        one.push(select(4, 10, &[]));
    }
    explore_product(cx, "one-unit", init(), &one, 40, true, 400_000, &asp);
    super::sweeps::run(cx, &asp);
}
