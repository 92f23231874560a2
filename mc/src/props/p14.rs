//! Camera, player set-up and the names it gives, under every history.
use crate::ctx::*;
use crate::sm::*;

pub fn run(cx: &Ctx) {
    let asp = Aspects { camera: true, setup: true, event: true, ..Default::default() };
    let init = || initial(&[(0, "Ann"), (3, "Bob"), (16, "Cid")]);
    let mut a = vec![];
    for u in [0, 3, 7] {
        a.push(cam_save(u, 100 + u, 65535));
        a.push(cam_save(u, 0, u));
        a.push(cam_upd(u, Some((u, 40 + u))));
        a.push(cam_upd(u, None));
    }
    // Two users may share a player: the name is that of the one with the lowest number.
    a.push(setup(1, Some(3), Some(5)));
    a.push(setup(15, Some(0), Some(5)));
    a.push(setup(1, Some(0), Some(5)));
    a.push(setup(2, Some(3), None));
    a.push(setup(15, Some(16), Some(0)));
    a.push(setup(4, Some(0), Some(1)));
    a.push(setup(3, None, Some(1)));
    a.push(setup(9, Some(7), None));
    for p in [0, 1, 2, 3, 4, 9, 15] {
        a.push(upgrade(p));
    }
    explore_product(cx, "camera-and-setup", init(), &a, 40, true, 600_000, &asp);
    // The names the units get from the set-up.
    let mut b = vec![setup(1, Some(0), Some(5)), setup(2, Some(3), None), setup(1, Some(3), None), setup(4, Some(0), Some(1)), upgrade(1), upgrade(4)];
    for p in [1, 2, 4] {
        b.push(born(1, 1, "Probe", p, (1, 1), None, None));
        b.push(uinit(2, "Marine", p, (1, 1)));
        b.push(owner(1, p));
    }
    b.push(died(1, None));
    explore_product(cx, "names", init(), &b, 40, true, 400_000, &Aspects { registry: true, event: true, setup: true, ..Default::default() });
    super::sweeps::run(cx, &asp);
}
