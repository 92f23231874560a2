//! Change hints: what is handed out is what the registry holds after the event.
use super::*;
use crate::sm::*;

pub fn run(cx: &Ctx) {
    let asp = Aspects { hint: true, ..Default::default() };
    explore_product(cx, "lifecycle", initial(&[(4, "Ann"), (5, "Bob")]), &p11::alphabet(), cx.pick(6, 30), true, cx.pick(20_000, 300_000), &asp);
    explore_product(cx, "selection", p12::world(), &p12::edges(), cx.pick(6, 30), true, cx.pick(20_000, 300_000), &asp);
    explore_product(cx, "two-users", p12::world(), &p12::two_users(), 30, true, 300_000, &asp);
    explore_product(cx, "commands", p13::world(), &p13::alphabet(), cx.pick(5, 30), true, cx.pick(20_000, 200_000), &asp);
    // Everything about two units at once.
    let (t1, t2) = (tag(1, 1), tag(2, 1));
    let mix = vec![
        born(1, 2, "Probe", 1, (9, 9), Some(2), Some("Train")),
        uinit(2, "Nexus", 2, (8, 8)),
        done(2),
        change(1, "Larva"),
        owner(2, 3),
        died(1, Some(2)),
        died(2, Some(1)),
        died(1, Some(1)),
        born(1, 3, "Marine", 1, (7, 9), Some(1), None),
        change(2, "Nexus"),
        owner(1, 1),
        select(0, 10, &[tag(9, 1), t1]),
        positions(1, &[0, 4, 5, 1, 6, 7]),
        select(0, 10, &[t1, t2]),
        select(0, 10, &[t2]),
        group(0, 3, s2protocol::game_events::GameEControlGroupUpdate::ESet),
        group(0, 3, s2protocol::game_events::GameEControlGroupUpdate::ERecall),
        cmd(0, Some((10, 0)), s2protocol::game_events::GameSCmdData::TargetUnit(target(t2, 1)), 1),
        upd_point(0, coord(1, 2, 3)),
        upd_unit(0, target(t1, 2)),
        cam_save(0, 4, 4),
        setup(1, Some(0), None),
        upgrade(1),
    ];
    explore_product(cx, "mixed", p12::world(), &mix, cx.pick(6, 30), true, cx.pick(20_000, 300_000), &asp);
    super::sweeps::run(cx, &asp);
}
