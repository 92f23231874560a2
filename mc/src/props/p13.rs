//! Commands and their targets under every history of selections and commands.
use crate::ctx::*;
use crate::sm::*;
use s2protocol::game_events::GameSCmdData;

pub fn alphabet() -> Vec<Ev> {
    let (t0, t1, t2, t3, t9) = (tag(0, 3), tag(1, 1), tag(2, 1), tag(0x3fff, 0x3ffff), tag(9, 1));
    let mut a = vec![select(0, 10, &[t1]), select(0, 10, &[t2, t9, t1]), select(0, 10, &[t3]), select(0, 10, &[]), select(3, 10, &[t2])];
    // No target, another command of the same ability, and one that no unit knows.
    a.push(cmd(0, Some((10, 0)), GameSCmdData::None, 0));
    a.push(cmd(0, Some((10, 1)), GameSCmdData::Data(9), 1));
    a.push(cmd(0, Some((11, 0)), GameSCmdData::TargetPoint(coord(4096, 2048, -4096)), 2));
    a.push(cmd(0, Some((99, 0)), GameSCmdData::TargetUnit(target(t3, 1)), 3));
    a.push(cmd(0, Some((10, 0)), GameSCmdData::TargetUnit(target(t1, 2)), 4));
    a.push(cmd(0, Some((10, 0)), GameSCmdData::TargetUnit(target(t9, 3)), 5));
    a.push(cmd(0, Some((10, 0)), GameSCmdData::TargetUnit(target(t0, 4)), 6));
    a.push(cmd(0, None, GameSCmdData::TargetUnit(target(t3, 5)), 7));
    a.push(cmd(3, Some((10, 0)), GameSCmdData::TargetUnit(target(t1, 6)), 8));
    a.push(cmd(7, Some((10, 0)), GameSCmdData::None, 9));
    a.push(upd_point(0, coord(-4096, 6000, 12)));
    a.push(upd_unit(0, target(t3, 7)));
    a.push(upd_unit(0, target(t1, 8)));
    a.push(upd_unit(0, target(t9, 9)));
    a.push(upd_unit(3, target(2, 10)));
    a.push(upd_point(7, coord(1, 2, 3)));
    a.push(change(1, "Marine"));
    a.push(change(0x3fff, "Probe"));
    a.push(died(0x3fff, None));
    a.push(died(1, None));
    // Unregistered units first, an index that is born later, other groups.
    a.push(select(0, 10, &[t9, t2]));
    a.push(born(9, 1, "Zergling", 2, (9, 9), None, None));
    a.push(select(0, 4, &[t1, t3]));
    a.push(group(0, 4, s2protocol::game_events::GameEControlGroupUpdate::ERecall));
    a
}

/// The registered tag indexes 2 and 3 are what the raw tags 2 and (0, 3) would be mistaken for.
pub fn world() -> (s2protocol::SC2ReplayState, Model) {
    seeded(
        initial(&[(0, "Ann"), (3, "Bob")]),
        &[
            born(1, 1, "Probe", 1, (1, 1), None, None),
            born(2, 1, "Marine", 1, (2, 2), None, None),
            born(3, 1, "Marine", 2, (2, 9), None, None),
            born(0x3fff, 1, "Nexus", 2, (3, 3), None, None),
        ],
    )
}

pub fn run(cx: &Ctx) {
    let asp = Aspects { cmd: true, event: true, ..Default::default() };
    explore_product(cx, "commands", world(), &alphabet(), cx.pick(4, 5), false, 500_000, &asp);
    explore_product(cx, "commands-deep", world(), &alphabet(), cx.pick(6, 40), true, cx.pick(30_000, 250_000), &asp);
    super::sweeps::run(cx, &asp);
    // A point by itself.
    let vals = [0i64, 1, -1, 4096, 8191, -4097, i32::MAX as i64, i32::MIN as i64];
    for x in vals {
        for y in vals {
            for z in vals {
                let v = s2protocol::Vec3D::from(coord(x, y, z as i32));
                let f = |i: i64| i as f32 / 4096.0;
                cx.trace();
                cx.expect_eq("point", &[v.x(), v.y(), v.z()], &[f(x), -f(y), f(z)], || serde_json::json!([x, y, z]));
            }
        }
    }
}
