//! Small replays for the demonstrations under seeded/.
use crate::choose::explore;
use crate::fx::*;
use crate::rp::*;
use crate::sm::*;
use crate::spec::*;
use s2protocol::game_events::*;
use std::path::Path;

pub fn write(dir: &Path) {
    let put = |name: &str, data: &[u8]| std::fs::write(dir.join(name), data).unwrap();
    for s in crate::props::p18::sources().iter().take(3) {
        put(&format!("{}.SC2Replay", s.what), &s.bytes);
    }
    put("twins.SC2Replay", &Replay::new(87702, &[(0, "Ann"), (1, "Ann")]).bytes());
    // Births with odd optional parts, then a long wait.
    let mut r = Replay::new(87702, &[(0, "Ann")]);
    r.push(&[(0, born(1, 1, "Larva", 1, (1, 2), Some(0), Some(""))), (2_500_000, born(2, 1, "Drone", 1, (3, 4), None, None))]);
    put("births.SC2Replay", &r.bytes());
    // Commands: the highest flags, every kind of data, snapshots without players.
    for (name, build) in [("cmds", 87702), ("cmds-old", 75689)] {
        let mut r = Replay::new(build, &[(0, "Ann")]);
        let m = module(build);
        let mut w = BitW::default();
        let ev = |e: &Ev| match e {
            Ev::G(_, e) => wire_game(m, e),
            _ => unreachable!(),
        };
        packed_event(m, "GameEEventId", 0, 3, 0, &ev(&cmd(0, Some((9, 1)), GameSCmdData::Data(0xfedc_ba98), 4)), &mut w);
        // A kind that is skipped, with a delta.
        packed_event(m, "GameEEventId", 0, 4, 0, &skipped(m), &mut w);
        packed_event(m, "GameEEventId", 0, 5, 0, &ev(&cam_upd(0, Some((0, 7)))), &mut w);
        packed_event(m, "GameEEventId", 1, 600, 0, &ev(&select(0, 10, &(1..200).map(|i| tag(i, 1)).collect::<Vec<_>>())), &mut w);
        r.game = w.out;
        let mut w = BitW::default();
        for (i, (rec, t)) in [("EAll", "gl hf"), ("EBattlenet", " two  words "), ("EObservers", "")].iter().enumerate() {
            packed_event(m, "GameEMessageId", 0, i as u32 + 1, i as i64, &chat(m, rec, t.as_bytes()), &mut w);
        }
        r.message = w.out;
        put(&format!("{name}.SC2Replay"), &r.bytes());
    }
}
/// A game event without version independent form.
fn skipped(m: &Module) -> V {
    let i = m.variants("GameEEventId").iter().position(|v| v.1 == "EUserFinishedLoadingSync").unwrap();
    let mut s = None;
    explore(0, |c| s = Some(Gen::new(false, true).gen_variant(m, c, "GameEEventId", i)));
    s.unwrap()
}
/// A chat message.
fn chat(m: &Module, recipient: &str, text: &[u8]) -> V {
    let v = m.variants("GameEMessageId");
    let i = v.iter().position(|v| v.1 == "EChat").unwrap();
    let mut out = None;
    explore(1, |c| {
        let e = Gen::new(false, true).gen_variant(m, c, "GameEMessageId", i);
        let V::Enum(_, _, Some(p)) = &e else { panic!() };
        if let V::Enum(_, r, _) = p.field("m_recipient")
            && r == recipient
            && out.is_none()
        {
            let text = like_bytes(p.field("m_string"), text);
            let V::Enum(t, n, Some(p)) = e.clone() else { panic!() };
            let mut p = *p;
            p.set("m_string", text);
            out = Some(V::Enum(t, n, Some(Box::new(p))));
        }
    });
    out.unwrap()
}
fn like_bytes(old: &V, b: &[u8]) -> V {
    match old {
        V::New(v) => V::New(Box::new(like_bytes(v, b))),
        _ => V::Bytes(b.to_vec()),
    }
}
