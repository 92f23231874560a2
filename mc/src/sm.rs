//! Reference model of the replay state machine and its product exploration with the real one.
//!
//! The model is written from the meaning of the events, keeps its own data types and never calls
//! the handlers.  `explore_product` walks breadth first over all event sequences of an alphabet,
//! steps the real `SC2ReplayState` and the model side by side and compares the chosen aspects after
//! every transition.  Two sequences that lead to the same (real, model) pair of states are merged.
use crate::ctx::*;
use s2protocol::game_events::*;
use s2protocol::state::*;
use s2protocol::tracker_events::*;
use s2protocol::*;
use serde_json::{Value as J, json};
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Clone, Debug)]
pub enum Ev {
    T(ReplayTrackerEvent),
    G(i64, ReplayGameEvent),
}

#[derive(Clone, Debug, PartialEq)]
pub enum MData {
    None,
    Point([f32; 3]),
    Unit { flags: u16, timer: u8, tag: u32, link: u16, ctrl: Option<i64>, upkeep: Option<i64>, point: [f32; 3] },
    Data(u32),
}
#[derive(Clone, Debug, PartialEq)]
pub struct MCmd {
    pub flags: i64,
    pub abil: Option<(u16, String, i64, Option<u8>)>,
    pub data: MData,
    pub sequence: i64,
    pub other_unit: Option<u32>,
    pub other_name: Option<String>,
    pub unit_group: Option<u32>,
}
impl MCmd {
    fn idle() -> Self {
        MCmd { flags: 0, abil: None, data: MData::None, sequence: 0, other_unit: None, other_name: None, unit_group: None }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct MUnit {
    pub tag: u32,
    pub last: i64,
    pub owner: Option<u8>,
    pub pname: Option<String>,
    pub name: String,
    pub pos: [f32; 3],
    pub init: i64,
    pub creator_ability: Option<String>,
    pub radius: f32,
    pub color: [u8; 4],
    pub sel: bool,
    pub is_init: bool,
    pub cmd: MCmd,
}
fn pt(c: &GameSMapCoord3D) -> [f32; 3] {
    [c.x as f32 / 4096.0, -(c.y as f32) / 4096.0, c.z as f32 / 4096.0]
}
impl MUnit {
    pub fn of(u: &SC2Unit) -> Self {
        MUnit {
            tag: u.tag_index,
            last: u.last_game_loop,
            owner: u.user_id,
            pname: u.player_name.clone(),
            name: u.name.clone(),
            pos: u.pos.0,
            init: u.init_game_loop,
            creator_ability: u.creator_ability_name.clone(),
            radius: u.radius,
            color: u.color,
            sel: u.is_selected,
            is_init: u.is_init,
            cmd: MCmd {
                flags: u.cmd.cmd_flags,
                abil: u.cmd.abil.as_ref().map(|a| (a.abil_link, a.ability.clone(), a.abil_cmd_index, a.abil_cmd_data)),
                data: match &u.cmd.data {
                    SC2UnitCmdData::None => MData::None,
                    SC2UnitCmdData::TargetPoint(p) => MData::Point(p.0),
                    SC2UnitCmdData::TargetUnit(t) => MData::Unit {
                        flags: t.target_unit_flags,
                        timer: t.timer,
                        tag: t.tag,
                        link: t.snapshot_unit_link,
                        ctrl: t.snapshot_control_player_id,
                        upkeep: t.snapshot_upkeep_player_id,
                        point: t.snapshot_point.0,
                    },
                    SC2UnitCmdData::Data(d) => MData::Data(*d),
                },
                sequence: u.cmd.sequence,
                other_unit: u.cmd.other_unit,
                other_name: u.cmd.other_unit_name.clone(),
                unit_group: u.cmd.unit_group,
            },
        }
    }
}

#[derive(Clone, Debug)]
pub struct MUser {
    pub name: String,
    pub groups: Vec<Vec<u32>>,
    pub cam: (i64, i64),
    pub setup: (Option<u8>, Option<u32>),
}
#[derive(Clone, Debug, Default)]
pub struct Model {
    pub units: BTreeMap<u32, MUnit>,
    pub users: BTreeMap<i64, MUser>,
    pub book: Book,
}

#[derive(Clone, Debug)]
pub enum MHint {
    None,
    Registered(MUnit, Option<MUnit>),
    Positions(Vec<MUnit>),
    TargetPoints(Vec<MUnit>),
    TargetUnits(Vec<MUnit>, MUnit),
    Unregistered(Option<MUnit>, MUnit),
    Abilities(Vec<MUnit>, Option<MUnit>),
    /// The units whose selection changed; units whose selection was renewed may be there too.
    Selection { changed: Vec<u32>, renewed: Vec<u32> },
}

/// The balance data the exploration runs with: radius and command names of a few units.
#[derive(Clone, Debug, Default)]
pub struct Book {
    pub radius: HashMap<String, f32>,
    pub commands: HashMap<(String, u16, i64), String>,
}

pub fn minimal_unit(id: &str, radius: Option<f32>) -> J {
    json!({"@id": id, "meta": {"@name": "1", "@tooltip": "2"}, "life": {"@start": 1, "@max": 1}, "armor": {"@start": 0, "@max": 0},
        "shieldArmor": {"@start": 0, "@max": 0}, "score": {}, "misc": {"@radius": radius}})
}
pub fn book() -> (Book, VersionedBalanceUnits) {
    let mut b = Book::default();
    let mut units = HashMap::new();
    let mut probe = minimal_unit("Probe", Some(0.375));
    probe["abilities"] = json!({"ability": [
        {"@id": "stop", "@index": 10, "command": [{"@id": "Stop", "@index": 0, "meta": {"@name": "1", "@tooltip": "2"}}, {"@id": "HoldFire", "@index": 1, "meta": {"@name": "1", "@tooltip": "2"}}]},
    ]});
    probe["builds"] = json!({"unit": [{"@id": "Pylon", "@ability": 11, "@index": 0}]});
    let mut marine = minimal_unit("Marine", Some(0.5));
    marine["abilities"] = json!({"ability": [
        {"@id": "halt", "@index": 10, "command": [{"@id": "Halt", "@index": 0, "meta": {"@name": "1", "@tooltip": "2"}}]},
    ]});
    let mut nexus = minimal_unit("Nexus", Some(2.0));
    nexus["trains"] = json!({"unit": [{"@id": "Probe", "@ability": 10, "@index": 1}]});
    for (n, j) in [("Probe", probe), ("Marine", marine), ("Nexus", nexus)] {
        b.radius.insert(n.into(), j["misc"]["@radius"].as_f64().unwrap() as f32);
        units.insert(n.to_string(), serde_json::from_value::<VersionedBalanceUnit>(j).unwrap());
    }
    for (n, l, i, s) in [
        ("Probe", 10, 0, "stop.Stop"),
        ("Probe", 10, 1, "stop.HoldFire"),
        ("Probe", 11, 0, "Build.Pylon"),
        ("Marine", 10, 0, "halt.Halt"),
        ("Nexus", 10, 1, "Train.Probe"),
    ] {
        b.commands.insert((n.into(), l, i), s.into());
    }
    (b, units)
}

impl Model {
    fn pname(&self, player: u8) -> Option<String> {
        self.users.values().find(|u| u.setup.0 == Some(player)).map(|u| u.name.clone())
    }
    fn look(book: &Book, u: &mut MUnit) {
        let r = book.radius.get(&u.name).copied().unwrap_or(0.45);
        u.radius = if u.sel { r * 2.0 } else { r };
        u.color = match u.name.as_str() {
            "Nexus" => FREYA_PINK,
            "Probe" | "Larva" => FREYA_LIGHT_GRAY,
            "Pylon" => FREYA_YELLOW,
            // Names with a colour of their own: which one is a matter of taste, not of correctness.
            n if get_unit_sized_color(n, 100, &Default::default()).1 != FREYA_WHITE || n == "XelNagaTower" => get_unit_sized_color(n, 100, &Default::default()).1,
            _ => match u.owner.unwrap_or(0) {
                0 => FREYA_LIGHT_GREEN,
                1 => FREYA_LIGHT_BLUE,
                2 => FREYA_LIGHT_GRAY,
                3 => FREYA_ORANGE,
                _ => FREYA_WHITE,
            },
        };
    }
    fn fresh(&self, tag: u32, now: i64, name: &str, owner: Option<u8>, pos: [f32; 3]) -> MUnit {
        let mut u = MUnit {
            tag,
            last: now,
            owner,
            pname: owner.and_then(|o| self.pname(o)),
            name: name.into(),
            pos,
            init: now,
            creator_ability: None,
            radius: 0.0,
            color: [0; 4],
            sel: false,
            is_init: false,
            cmd: MCmd::idle(),
        };
        Self::look(&self.book, &mut u);
        u
    }
    fn selected(&self, user: i64) -> Vec<u32> {
        // The registered units of the active selection, in order.
        self.users
            .get(&user)
            .map(|u| u.groups[10].iter().map(|t| t >> 18).filter(|i| self.units.contains_key(i)).collect())
            .unwrap_or_default()
    }
    fn select(&mut self, user: i64, tags: Vec<u32>, now: i64) -> MHint {
        let before: HashSet<u32> = self.units.values().filter(|u| u.sel).map(|u| u.tag).collect();
        let old = self.selected(user);
        let mut renewed = vec![];
        for i in &old {
            let u = self.units.get_mut(i).unwrap();
            u.sel = false;
            u.last = now;
        }
        for t in &tags {
            let i = t >> 18;
            if let Some(u) = self.units.get_mut(&i) {
                if old.contains(&i) {
                    renewed.push(i);
                }
                u.sel = true;
                u.last = now;
            }
        }
        for u in self.units.values_mut() {
            Self::look(&self.book, u);
        }
        let after: HashSet<u32> = self.units.values().filter(|u| u.sel).map(|u| u.tag).collect();
        self.users.get_mut(&user).unwrap().groups[10] = tags;
        MHint::Selection { changed: before.symmetric_difference(&after).copied().collect(), renewed }
    }

    pub fn step(&mut self, ev: &Ev, now: i64) -> MHint {
        let none = MHint::None;
        match ev {
            Ev::T(ReplayTrackerEvent::UnitBorn(e)) => {
                let creator = e.creator_unit_tag_index.and_then(|c| {
                    self.units.get_mut(&c).map(|u| {
                        u.last = now;
                        u.clone()
                    })
                });
                let mut n = self.fresh(e.unit_tag_index, now, &e.unit_type_name, Some(e.control_player_id), [e.x as f32, e.y as f32, 0.0]);
                n.creator_ability = e.creator_ability_name.clone();
                if let Some(u) = self.units.get(&e.unit_tag_index) {
                    n.init = u.init;
                    n.sel = u.sel;
                    n.is_init = u.is_init;
                    n.cmd = u.cmd.clone();
                    Self::look(&self.book, &mut n);
                }
                self.units.insert(n.tag, n.clone());
                MHint::Registered(n, creator)
            }
            Ev::T(ReplayTrackerEvent::UnitInit(e)) => {
                let mut n = self.fresh(e.unit_tag_index, now, &e.unit_type_name, Some(e.control_player_id), [e.x as f32, e.y as f32, 0.0]);
                if let Some(u) = self.units.get(&e.unit_tag_index) {
                    n.init = u.init;
                    n.sel = u.sel;
                    n.cmd = u.cmd.clone();
                    n.creator_ability = u.creator_ability.clone();
                    Self::look(&self.book, &mut n);
                }
                n.is_init = true;
                self.units.insert(n.tag, n.clone());
                MHint::Registered(n, None)
            }
            Ev::T(ReplayTrackerEvent::UnitDone(e)) => match self.units.get_mut(&e.unit_tag_index) {
                None => none,
                Some(u) => {
                    u.is_init = false;
                    u.last = now;
                    Self::look(&self.book, u);
                    MHint::Registered(u.clone(), None)
                }
            },
            Ev::T(ReplayTrackerEvent::UnitTypeChange(e)) => match self.units.get_mut(&e.unit_tag_index) {
                None => {
                    let n = self.fresh(e.unit_tag_index, now, &e.unit_type_name, None, [0.0; 3]);
                    self.units.insert(n.tag, n);
                    none
                }
                Some(u) => {
                    let old = u.clone();
                    u.name = e.unit_type_name.clone();
                    u.last = now;
                    Self::look(&self.book, u);
                    MHint::Registered(u.clone(), Some(old))
                }
            },
            Ev::T(ReplayTrackerEvent::UnitOwnerChange(e)) => {
                let pname = self.pname(e.control_player_id);
                match self.units.get_mut(&e.unit_tag_index) {
                    None => none,
                    Some(u) => {
                        let old = u.clone();
                        u.owner = Some(e.control_player_id);
                        u.pname = pname;
                        u.last = now;
                        Self::look(&self.book, u);
                        MHint::Registered(u.clone(), Some(old))
                    }
                }
            }
            Ev::T(ReplayTrackerEvent::UnitDied(e)) => {
                for u in self.users.values_mut() {
                    for g in &mut u.groups {
                        g.retain(|t| t >> 18 != e.unit_tag_index);
                    }
                }
                match self.units.remove(&e.unit_tag_index) {
                    None => none,
                    Some(u) => MHint::Unregistered(e.killer_unit_tag_index.and_then(|k| self.units.get(&k).cloned()), u),
                }
            }
            Ev::T(ReplayTrackerEvent::UnitPosition(e)) => {
                let mut idx = e.first_unit_index as i64;
                let mut seen = vec![];
                for c in e.items.chunks_exact(3) {
                    idx += c[0] as i64;
                    if let Some(u) = u32::try_from(idx).ok().and_then(|i| self.units.get_mut(&i)) {
                        u.pos = [c[1] as f32, c[2] as f32, 0.0];
                        u.last = now;
                        seen.push(u.tag);
                    }
                }
                MHint::Positions(seen.iter().map(|i| self.units[i].clone()).collect())
            }
            Ev::T(ReplayTrackerEvent::PlayerSetup(e)) => {
                if let Some(u) = e.user_id.and_then(|u| self.users.get_mut(&(u as i64))) {
                    u.setup = (Some(e.player_id), e.slot_id);
                }
                none
            }
            Ev::T(_) => none,
            Ev::G(user, ReplayGameEvent::CameraSave(e)) => {
                if let Some(u) = self.users.get_mut(user) {
                    u.cam = (e.m_target.x, e.m_target.y);
                }
                none
            }
            Ev::G(user, ReplayGameEvent::CameraUpdate(e)) => {
                if let (Some(u), Some(t)) = (self.users.get_mut(user), &e.m_target) {
                    u.cam = (t.x, t.y);
                }
                none
            }
            Ev::G(user, ReplayGameEvent::Cmd(e)) => {
                let target = match &e.m_data {
                    GameSCmdData::TargetUnit(t) => self.units.get(&(t.m_tag >> 18)).cloned(),
                    _ => None,
                };
                let mut units = vec![];
                if let Some(a) = &e.m_abil {
                    for i in self.selected(*user) {
                        let u = self.units.get_mut(&i).unwrap();
                        let name = self.book.commands.get(&(u.name.clone(), a.m_abil_link, a.m_abil_cmd_index)).cloned().unwrap_or_default();
                        u.cmd = MCmd {
                            flags: e.m_cmd_flags,
                            abil: Some((a.m_abil_link, name, a.m_abil_cmd_index, a.m_abil_cmd_data)),
                            data: match &e.m_data {
                                GameSCmdData::None => MData::None,
                                GameSCmdData::TargetPoint(p) => MData::Point(pt(p)),
                                GameSCmdData::TargetUnit(t) => munit(t),
                                GameSCmdData::Data(d) => MData::Data(*d),
                            },
                            sequence: e.m_sequence,
                            other_unit: e.m_other_unit,
                            other_name: target.as_ref().map(|t| t.name.clone()),
                            unit_group: e.m_unit_group,
                        };
                        u.last = now;
                        units.push(u.clone());
                    }
                }
                MHint::Abilities(units, target)
            }
            Ev::G(user, ReplayGameEvent::CmdUpdateTargetPoint(e)) => {
                let mut units = vec![];
                for i in self.selected(*user) {
                    let u = self.units.get_mut(&i).unwrap();
                    u.cmd.data = MData::Point(pt(&e.m_target));
                    u.cmd.other_unit = None;
                    u.cmd.other_name = None;
                    u.last = now;
                    units.push(u.clone());
                }
                MHint::TargetPoints(units)
            }
            Ev::G(user, ReplayGameEvent::CmdUpdateTargetUnit(e)) => match self.units.get(&(e.m_target.m_tag >> 18)).cloned() {
                None => none,
                Some(target) => {
                    let mut units = vec![];
                    for i in self.selected(*user) {
                        let u = self.units.get_mut(&i).unwrap();
                        u.cmd.data = munit(&e.m_target);
                        u.cmd.other_name = Some(target.name.clone());
                        u.last = now;
                        units.push(u.clone());
                    }
                    MHint::TargetUnits(units, target)
                }
            },
            Ev::G(user, ReplayGameEvent::SelectionDelta(e)) => {
                let g = e.m_control_group_id as usize;
                let tags = e.m_delta.m_add_unit_tags.clone();
                if g > 10 {
                    return none;
                }
                if !self.users.contains_key(user) {
                    return MHint::Selection { changed: vec![], renewed: vec![] };
                }
                if g == 10 {
                    return self.select(*user, tags, now);
                }
                self.users.get_mut(user).unwrap().groups[g] = tags;
                MHint::Selection { changed: vec![], renewed: vec![] }
            }
            Ev::G(user, ReplayGameEvent::ControlGroupUpdate(e)) => {
                use GameEControlGroupUpdate::*;
                let g = e.m_control_group_index as usize;
                if g > 10 {
                    return none;
                }
                if !self.users.contains_key(user) {
                    return MHint::Selection { changed: vec![], renewed: vec![] };
                }
                let u = self.users.get_mut(user).unwrap();
                let act = u.groups[10].clone();
                if matches!(e.m_control_group_update, ESetAndSteal | EAppendAndSteal) {
                    for h in &mut u.groups[..10] {
                        h.retain(|t| !act.contains(t));
                    }
                }
                match e.m_control_group_update {
                    ESet | ESetAndSteal => u.groups[g] = act,
                    EClear => u.groups[g].clear(),
                    EAppend | EAppendAndSteal => {
                        for t in act {
                            if !u.groups[g].contains(&t) {
                                u.groups[g].push(t);
                            }
                        }
                    }
                    ERecall => {
                        let tags = u.groups[g].clone();
                        return self.select(*user, tags, now);
                    }
                }
                MHint::Selection { changed: vec![], renewed: vec![] }
            }
            Ev::G(..) => none,
        }
    }
}
fn munit(t: &GameSCmdDataTargetUnit) -> MData {
    MData::Unit {
        flags: t.m_target_unit_flags,
        timer: t.m_timer,
        tag: t.m_tag,
        link: t.m_snapshot_unit_link,
        ctrl: t.m_snapshot_control_player_id,
        upkeep: t.m_snapshot_upkeep_player_id,
        point: pt(&t.m_snapshot_point),
    }
}

// ---------------------------------------------------------------------------------------------
// Aspects

#[derive(Clone, Copy, Default)]
pub struct Aspects {
    /// Which units there are; owner, name, position, initialization, creation, last update.
    pub registry: bool,
    pub look: bool,
    pub selection: bool,
    pub cmd: bool,
    pub groups: bool,
    pub camera: bool,
    pub setup: bool,
    /// The change hint against the registry after the event.
    pub hint: bool,
    /// The event that comes back.
    pub event: bool,
    /// Only the position and the last update of units.
    pub pos: bool,
}

fn sorted(v: &[u32]) -> Vec<u32> {
    let mut v = v.to_vec();
    v.sort_unstable();
    v
}

fn compare(a: &Aspects, r: &SC2ReplayState, m: &Model) -> Result<(), (String, String)> {
    let bad = |k: &str, g: String, w: String| Err((k.to_string(), format!("got {} want {}", trunc(&g), trunc(&w))));
    if a.registry || a.look || a.selection || a.cmd || a.pos {
        let mut got: Vec<u32> = r.units.keys().copied().collect();
        got.sort_unstable();
        let want: Vec<u32> = m.units.keys().copied().collect();
        if got != want {
            return bad("registered-units", format!("{got:?}"), format!("{want:?}"));
        }
        for (i, w) in &m.units {
            let g = MUnit::of(&r.units[i]);
            if let Err(e) = compare_unit(a, &g, w) {
                return Err(e);
            }
        }
    }
    for (id, w) in &m.users {
        let Some(g) = r.user_state.get(id) else { return bad("users", "missing".into(), format!("{id}")) };
        if a.groups {
            for (i, wg) in w.groups.iter().enumerate() {
                let gg = sorted(&g.control_groups[i]);
                if gg != sorted(wg) {
                    return bad(if i == 10 { "active-selection" } else { "control-group" }, format!("user {id} group {i} {gg:?}"), format!("{wg:?}"));
                }
            }
        }
        if a.camera && (g.camera_pos.x, g.camera_pos.y) != w.cam {
            return bad("camera", format!("user {id} {:?}", g.camera_pos), format!("{:?}", w.cam));
        }
        if a.setup {
            let d = &g.player_lobby_details;
            if (d.tracker_setup_player_id, d.tracker_setup_slot_id) != w.setup {
                return bad("player-setup", format!("user {id} {:?}", (d.tracker_setup_player_id, d.tracker_setup_slot_id)), format!("{:?}", w.setup));
            }
        }
    }
    if r.user_state.len() != m.users.len() {
        return bad("users", format!("{}", r.user_state.len()), format!("{}", m.users.len()));
    }
    Ok(())
}
fn compare_unit(a: &Aspects, g: &MUnit, w: &MUnit) -> Result<(), (String, String)> {
    let bad = |k: &str, g: String, w: String| Err((k.to_string(), format!("got {} want {}", trunc(&g), trunc(&w))));
    if a.registry {
        let f = |u: &MUnit| (u.tag, u.owner, u.pname.clone(), u.name.clone(), u.pos, u.init, u.creator_ability.clone(), u.is_init);
        if f(g) != f(w) {
            return bad("unit", format!("{:?}", f(g)), format!("{:?}", f(w)));
        }
    }
    if a.pos && g.pos != w.pos {
        return bad("position", format!("{:?}", g.pos), format!("{:?}", w.pos));
    }
    if (a.registry || a.pos || a.cmd) && g.last != w.last {
        return bad("last-update", format!("unit {} {}", g.tag, g.last), format!("{}", w.last));
    }
    if a.look && (g.radius, g.color) != (w.radius, w.color) {
        return bad("radius-color", format!("unit {} {:?}", g.tag, (g.radius, g.color)), format!("{:?}", (w.radius, w.color)));
    }
    if a.selection && (g.sel, g.radius) != (w.sel, w.radius) {
        return bad("is-selected", format!("unit {} {:?}", g.tag, (g.sel, g.radius)), format!("{:?}", (w.sel, w.radius)));
    }
    if a.cmd && g.cmd != w.cmd {
        return bad("unit-cmd", format!("{:?}", g.cmd), format!("{:?}", w.cmd));
    }
    Ok(())
}

fn compare_hint(r: &SC2ReplayState, before: Option<&MUnit>, got: &UnitChangeHint, want: &MHint) -> Result<(), (String, String)> {
    let bad = |k: &str, w: String| Err((k.to_string(), format!("got {} want {}", trunc(&format!("{got:?}")), trunc(&w))));
    let of = |v: &Vec<SC2Unit>| v.iter().map(MUnit::of).collect::<Vec<_>>();
    // Fields the hint is about; the exact selection history of `last` is another property's.
    let eq = |g: &MUnit, w: &MUnit| {
        let (mut g, mut w) = (g.clone(), w.clone());
        (g.last, w.last) = (0, 0);
        g == w
    };
    let eqo = |g: &Option<SC2Unit>, w: &Option<MUnit>| match (g, w) {
        (None, None) => true,
        (Some(g), Some(w)) => eq(&MUnit::of(g), w),
        _ => false,
    };
    let eqv = |g: &Vec<SC2Unit>, w: &Vec<MUnit>| g.len() == w.len() && of(g).iter().zip(w).all(|(g, w)| eq(g, w));
    // Groups are sets: commands reach their units in no particular order.
    let eqs = |g: &Vec<SC2Unit>, w: &Vec<MUnit>| {
        let (mut g, mut w) = (g.clone(), w.clone());
        g.sort_by_key(|u| u.tag_index);
        w.sort_by_key(|u| u.tag);
        eqv(&g, &w)
    };
    // Units that the event changed are reported as they are now, last update included.
    let now = |v: &[SC2Unit]| v.iter().all(|u| r.units.get(&u.tag_index).is_some_and(|x| MUnit::of(x) == MUnit::of(u)));
    let name = match got {
        UnitChangeHint::Registered { .. } => "Registered",
        UnitChangeHint::Positions(_) => "Positions",
        UnitChangeHint::TargetPoints(_) => "TargetPoints",
        UnitChangeHint::TargetUnits { .. } => "TargetUnits",
        UnitChangeHint::Unregistered { .. } => "Unregistered",
        UnitChangeHint::Abilities { .. } => "Abilities",
        UnitChangeHint::Selection(_) => "Selection",
        UnitChangeHint::None => "None",
    };
    if got.variant_name() != name {
        return bad("hint-name", format!("{name}, not {}", got.variant_name()));
    }
    match (got, want) {
        (UnitChangeHint::None, MHint::None) => Ok(()),
        (UnitChangeHint::Registered { unit, creator }, MHint::Registered(w, c)) => {
            if !eq(&MUnit::of(unit), w) {
                return bad("hint-unit", format!("{w:?}"));
            }
            if !r.units.get(&unit.tag_index).is_some_and(|u| MUnit::of(u) == MUnit::of(unit)) {
                return bad("hint-not-registry", format!("{:?}", r.units.get(&unit.tag_index)));
            }
            // The former state of the unit itself is just that, another unit is the creator.
            let past = creator.as_ref().is_none_or(|c| c.tag_index == unit.tag_index);
            let as_it_was = creator.as_ref().map(MUnit::of).as_ref() == before;
            if !eqo(creator, c) || !past && !now(creator.as_slice()) || before.is_some() && !as_it_was {
                return bad("hint-creator", format!("{c:?}"));
            }
            Ok(())
        }
        (UnitChangeHint::Positions(v), MHint::Positions(w)) if eqv(v, w) && now(v) => Ok(()),
        (UnitChangeHint::TargetPoints(v), MHint::TargetPoints(w)) if eqs(v, w) && now(v) => Ok(()),
        (UnitChangeHint::TargetUnits { units, target }, MHint::TargetUnits(w, t)) if eqs(units, w) && now(units) && eq(&MUnit::of(target), t) => Ok(()),
        (UnitChangeHint::Unregistered { killer, killed }, MHint::Unregistered(k, d)) if eqo(killer, k) && now(killer.as_slice()) && eq(&MUnit::of(killed), d) && Some(&MUnit::of(killed)) == before => Ok(()),
        (UnitChangeHint::Abilities { units, target, .. }, MHint::Abilities(w, t)) if eqs(units, w) && now(units) && eqo(target, t) => Ok(()),
        (UnitChangeHint::Selection(v), MHint::Selection { changed, renewed }) => {
            let mut seen = HashSet::new();
            for u in v {
                if !seen.insert(u.tag_index) {
                    return bad("hint-twice", format!("unit {} once", u.tag_index));
                }
                if !r.units.get(&u.tag_index).is_some_and(|x| MUnit::of(x) == MUnit::of(u)) {
                    return bad("hint-not-registry", format!("{:?}", r.units.get(&u.tag_index)));
                }
                if !changed.contains(&u.tag_index) && !renewed.contains(&u.tag_index) {
                    return bad("hint-unrelated-unit", format!("{changed:?} {renewed:?}"));
                }
            }
            if let Some(c) = changed.iter().find(|c| !seen.contains(c)) {
                return bad("hint-misses-unit", format!("unit {c}"));
            }
            Ok(())
        }
        _ => bad("hint", format!("{want:?}")),
    }
}

// ---------------------------------------------------------------------------------------------
// Exploration

pub fn initial(users: &[(i64, &str)]) -> (SC2ReplayState, Model) {
    let (b, units) = book();
    let mut r = SC2ReplayState::default().with_balance_units(units);
    let mut m = Model { book: b, ..Default::default() };
    for (id, name) in users {
        let mut d = details::PlayerLobbyDetails::default();
        d.player_details.name = name.to_string();
        d.lobby_slot.user_id = Some(*id);
        // Bob looks on: the state treats all users alike.
        if *name == "Bob" {
            (d.lobby_slot.observe, d.player_details.observe) = (1, 1);
        }
        r.user_state.insert(*id, SC2UserState::new(d));
        m.users.insert(*id, MUser { name: name.to_string(), groups: vec![vec![]; 11], cam: (0, 0), setup: (None, None) });
    }
    (r, m)
}

/// A hash of what is written.
struct HashOut(std::collections::hash_map::DefaultHasher);
impl std::fmt::Write for HashOut {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        std::hash::Hasher::write(&mut self.0, s.as_bytes());
        Ok(())
    }
}

/// Identity of a pair of states: all that the state shows, what this model does not know of too (a
/// field that is new may steer what comes), except, when `merge_loops`, the game loops, which no
/// transition reads.
fn ident(r: &mut SC2ReplayState, m: &Model, merge_loops: bool) -> u64 {
    use std::fmt::Write;
    use std::mem::take;
    let mut s = HashOut(Default::default());
    let units = take(&mut r.units);
    let mut users = take(&mut r.user_state);
    let fixed = (take(&mut r.init_data), take(&mut r.details), take(&mut r.balance_units));
    let _ = write!(s, "{r:?}");
    let mut keys: Vec<_> = units.keys().copied().collect();
    keys.sort_unstable();
    for k in keys {
        let mut u = units[&k].clone();
        if merge_loops {
            (u.last_game_loop, u.init_game_loop) = (0, 0);
        }
        let _ = write!(s, "{u:?};");
    }
    for u in m.units.values() {
        let mut u = u.clone();
        if merge_loops {
            (u.last, u.init) = (0, 0);
        }
        let _ = write!(s, "{u:?};");
    }
    for (id, u) in &m.users {
        let g = users.get_mut(id).unwrap();
        let d = take(&mut g.player_lobby_details);
        let _ = write!(s, "{id}{:?}{:?}{:?}{g:?}{:?}{:?};", u.groups, u.cam, u.setup, d.tracker_setup_player_id, d.tracker_setup_slot_id);
        g.player_lobby_details = d;
    }
    (r.units, r.user_state, r.init_data, r.details, r.balance_units) = (units, users, fixed.0, fixed.1, fixed.2);
    std::hash::Hasher::finish(&s.0)
}

/// The shortest cyclic sequence over 0..n with every sequence of length k in it.
pub fn de_bruijn(n: usize, k: usize) -> Vec<usize> {
    fn db(t: usize, p: usize, n: usize, k: usize, a: &mut Vec<usize>, out: &mut Vec<usize>) {
        if t > k {
            if k % p == 0 {
                out.extend(&a[1..=p]);
            }
        } else {
            a[t] = a[t - p];
            db(t + 1, p, n, k, a, out);
            for j in a[t - p] + 1..n {
                a[t] = j;
                db(t + 1, t, n, k, a, out);
            }
        }
    }
    let mut out = vec![];
    db(1, 1, n, k, &mut vec![0; n * k + 1], &mut out);
    out
}

/// One long history that has every sequence of k events in it: what is kept beside the state that
/// identifies it has no place to hide behind the merging of states.
fn one_history(cx: &Ctx, key: &str, init: &(SC2ReplayState, Model), alphabet: &[Ev], a: &Aspects) {
    let most = cx.pick(20_000, 400_000);
    let n = alphabet.len();
    let k = (1..12).take_while(|k| n.pow(*k) <= most).last().unwrap_or(1) as usize;
    let seq = de_bruijn(n, k);
    let (mut r, mut m) = init.clone();
    for (i, e) in seq.iter().chain(&seq[..k - 1]).enumerate() {
        let now = (i as i64 + 1) * 16;
        if let Err((what, text)) = step_both(a, &mut r, &mut m, &alphabet[*e], now) {
            cx.violation(
                &format!("{key}/long/{what}"),
                &text,
                json!({"history": format!("de Bruijn sequence of order {k} over the alphabet of {n} events"), "step": i, "last events": seq[i.saturating_sub(6)..=i.min(seq.len() - 1)].iter().map(|e| format!("{:?}", alphabet[*e])).collect::<Vec<_>>()}),
            );
            return;
        }
    }
    cx.steps(seq.len() as u64);
    cx.trace();
    cx.phase(&format!("{key}: one history"), json!({"events": seq.len(), "every sequence of": k, "alphabet": n}));
}

pub fn apply(r: &mut SC2ReplayState, ev: &Ev, now: i64) -> SC2EventIteratorItem {
    r.handle_transition_to_next_event(match ev {
        Ev::T(e) => SC2EventType::Tracker { tracker_loop: now, event: e.clone() },
        Ev::G(u, e) => SC2EventType::Game { game_loop: now, user_id: *u, player_name: None, event: e.clone() },
    })
}

/// One transition of both machines; Err is the violated aspect.
pub fn step_both(a: &Aspects, r: &mut SC2ReplayState, m: &mut Model, ev: &Ev, now: i64) -> Result<(), (String, String)> {
    step_both_if(true, a, r, m, ev, now)
}
/// `state`: compare the states afterwards, too, not just what the event gave.
pub fn step_both_if(state: bool, a: &Aspects, r: &mut SC2ReplayState, m: &mut Model, ev: &Ev, now: i64) -> Result<(), (String, String)> {
    let before = match ev {
        Ev::T(ReplayTrackerEvent::UnitDied(e)) if a.hint => r.units.get(&e.unit_tag_index).map(MUnit::of),
        Ev::T(ReplayTrackerEvent::UnitTypeChange(e)) if a.hint => r.units.get(&e.unit_tag_index).map(MUnit::of),
        Ev::T(ReplayTrackerEvent::UnitOwnerChange(e)) if a.hint => r.units.get(&e.unit_tag_index).map(MUnit::of),
        _ => None,
    };
    let item = guard(|| apply(r, ev, now)).map_err(|p| ("panic".to_string(), p))?;
    let want = m.step(ev, now);
    if state {
        compare(a, r, m)?;
    }
    if a.hint {
        compare_hint(r, before.as_ref(), &item.change_hint, &want)?;
        if let (UnitChangeHint::Abilities { units, event, .. }, SC2EventType::Game { event: ReplayGameEvent::Cmd(e), .. }) = (&item.change_hint, &item.event_type) {
            let name = |a: &Option<GameSCmdAbil>| a.as_ref().map(|a| a.ability.clone());
            let known = units.is_empty() || units.iter().any(|u| u.cmd.abil.as_ref().map(|a| a.ability.clone()) == name(&e.m_abil));
            if event != e || !known {
                return Err(("hint-command".into(), format!("got {} with {}", trunc(&format!("{event:?}")), trunc(&format!("{e:?}")))));
            }
        }
    }
    if a.event {
        let bad = |w: String| Err(("returned-event".to_string(), format!("got {} want {}", trunc(&format!("{:?}", item.event_type)), trunc(&w))));
        match (&item.event_type, ev) {
            (SC2EventType::Tracker { tracker_loop, event }, Ev::T(e)) => {
                let mut e = e.clone();
                if let ReplayTrackerEvent::Upgrade(u) = &mut e {
                    u.player_name = m.pname(u.player_id);
                }
                if *tracker_loop != now || *event != e {
                    return bad(format!("{now} {e:?}"));
                }
            }
            (SC2EventType::Game { game_loop, user_id, event, .. }, Ev::G(u, e)) => {
                let mut g = event.clone();
                // Which unit's command name the event itself carries is not specified.
                if let (ReplayGameEvent::Cmd(g), ReplayGameEvent::Cmd(e)) = (&mut g, e)
                    && let (Some(g), Some(e)) = (&mut g.m_abil, &e.m_abil)
                {
                    g.ability = e.ability.clone();
                }
                if *game_loop != now || user_id != u || g != *e {
                    return bad(format!("{now} {u} {e:?}"));
                }
            }
            _ => return bad("the other kind".into()),
        }
    }
    Ok(())
}

#[derive(Default)]
pub struct Reach {
    pub states: usize,
    pub transitions: u64,
    pub depth: usize,
    pub saturated: bool,
}

/// Breadth first product exploration. `gap` maps a depth to the loop of its event.
#[allow(clippy::too_many_arguments)]
pub fn explore_product(
    cx: &Ctx,
    key: &str,
    init: (SC2ReplayState, Model),
    alphabet: &[Ev],
    depth: usize,
    merge_loops: bool,
    max_states: usize,
    a: &Aspects,
) -> Reach {
    type Node = (SC2ReplayState, Model, Vec<u16>);
    one_history(cx, key, &init, alphabet, a);
    let mut frontier: Vec<Node> = vec![(init.0, init.1, vec![])];
    let mut seen: HashSet<u64> = HashSet::new();
    let (r, m, _) = &mut frontier[0];
    seen.insert(ident(r, m, merge_loops));
    let mut out = Reach::default();
    for d in 0..depth {
        let now = (d as i64 + 1) * 16;
        let next: std::sync::Mutex<HashMap<u64, Node>> = Default::default();
        let chunks: Vec<&[Node]> = frontier.chunks(8).collect();
        let last = d + 1 == depth;
        // Past the limit the level is still checked in full, but its states need not be kept: it is the last.
        let full = std::sync::atomic::AtomicBool::new(false);
        let room = max_states.saturating_sub(seen.len());
        par_for(&chunks, |chunk| {
            let mut local: Vec<(u64, Node)> = vec![];
            for (r, m, tr) in chunk.iter() {
                for (i, ev) in alphabet.iter().enumerate() {
                    let (mut r2, mut m2) = (r.clone(), m.clone());
                    let res = step_both(a, &mut r2, &mut m2, ev, now);
                    if let Err((k, what)) = res {
                        let mut tr = tr.clone();
                        tr.push(i as u16);
                        cx.violation(
                            &format!("{key}/{k}"),
                            &what,
                            json!({"events": tr.iter().enumerate().map(|(d, i)| format!("loop {}: {:?}", (d + 1) * 16, alphabet[*i as usize])).collect::<Vec<_>>()}),
                        );
                        continue;
                    }
                    let h = ident(&mut r2, &m2, merge_loops);
                    if !seen.contains(&h) {
                        let mut tr = tr.clone();
                        tr.push(i as u16);
                        if last || full.load(std::sync::atomic::Ordering::Relaxed) {
                            local.push((h, (SC2ReplayState::default(), Model::default(), tr)));
                        } else {
                            local.push((h, (r2, m2, tr)));
                        }
                    }
                }
            }
            cx.steps((chunk.len() * alphabet.len()) as u64);
            let mut n = next.lock().unwrap();
            for (h, x) in local {
                // The smallest trace represents the state, so that runs are reproducible.
                match n.entry(h) {
                    std::collections::hash_map::Entry::Vacant(e) => {
                        e.insert(x);
                    }
                    std::collections::hash_map::Entry::Occupied(mut e) => {
                        if x.2 < e.get().2 {
                            e.insert(x);
                        }
                    }
                }
            }
            if n.len() > room && !full.swap(true, std::sync::atomic::Ordering::Relaxed) {
                for x in n.values_mut() {
                    x.0 = SC2ReplayState::default();
                    x.1 = Model::default();
                }
            }
        });
        out.transitions += (frontier.len() * alphabet.len()) as u64;
        out.depth = d + 1;
        let mut next: Vec<(u64, Node)> = next.into_inner().unwrap().into_iter().collect();
        next.sort_by(|x, y| x.1.2.cmp(&y.1.2));
        seen.extend(next.iter().map(|n| n.0));
        if next.is_empty() {
            out.saturated = true;
            break;
        }
        if !last && seen.len() > max_states {
            cx.cap(&format!("{key}: stopped after depth {} with {} states", d + 1, seen.len()));
            break;
        }
        if cx.n_violations() > 0 && d >= 3 {
            break;
        }
        if let Some(n) = next.last() {
            cx.sample(json!({"phase": key, "depth": d + 1, "trace": n.1.2.iter().map(|i| trunc(&format!("{:?}", alphabet[*i as usize]))).collect::<Vec<_>>()}));
        }
        frontier = next.into_iter().map(|n| n.1).collect();
    }
    out.states = seen.len();
    cx.states_add(seen.len() as u64);
    cx.traces_add(out.transitions);
    cx.phase(
        key,
        json!({"alphabet": alphabet.len(), "depth": out.depth, "states": out.states, "transitions": out.transitions, "fixpoint": out.saturated, "loops_abstracted": merge_loops}),
    );
    out
}

// ---------------------------------------------------------------------------------------------
// Event makers

pub fn tag(index: u32, recycle: u32) -> u32 {
    (index << 18) | recycle
}
pub fn born(idx: u32, rec: u32, name: &str, player: u8, pos: (u8, u8), creator: Option<u32>, abil: Option<&str>) -> Ev {
    Ev::T(ReplayTrackerEvent::UnitBorn(UnitBornEvent {
        unit_tag_index: idx,
        unit_tag_recycle: rec,
        unit_type_name: name.into(),
        control_player_id: player,
        upkeep_player_id: player.wrapping_add(1),
        x: pos.0,
        y: pos.1,
        creator_unit_tag_index: creator,
        creator_unit_tag_recycle: creator.map(|_| 1),
        creator_ability_name: abil.map(|s| s.into()),
    }))
}
pub fn uinit(idx: u32, name: &str, player: u8, pos: (u8, u8)) -> Ev {
    Ev::T(ReplayTrackerEvent::UnitInit(UnitInitEvent {
        unit_tag_index: idx,
        unit_tag_recycle: 1,
        unit_type_name: name.into(),
        control_player_id: player,
        upkeep_player_id: player.wrapping_add(1),
        x: pos.0,
        y: pos.1,
    }))
}
pub fn done(idx: u32) -> Ev {
    Ev::T(ReplayTrackerEvent::UnitDone(UnitDoneEvent { unit_tag_index: idx, unit_tag_recycle: 1 }))
}
pub fn died(idx: u32, killer: Option<u32>) -> Ev {
    Ev::T(ReplayTrackerEvent::UnitDied(UnitDiedEvent {
        unit_tag_index: idx,
        unit_tag_recycle: 1,
        killer_player_id: killer.map(|_| 2),
        x: 3,
        y: 4,
        killer_unit_tag_index: killer,
        killer_unit_tag_recycle: killer.map(|_| 1),
    }))
}
pub fn change(idx: u32, name: &str) -> Ev {
    Ev::T(ReplayTrackerEvent::UnitTypeChange(UnitTypeChangeEvent { unit_tag_index: idx, unit_tag_recycle: 1, unit_type_name: name.into() }))
}
pub fn owner(idx: u32, player: u8) -> Ev {
    Ev::T(ReplayTrackerEvent::UnitOwnerChange(UnitOwnerChangeEvent {
        unit_tag_index: idx,
        unit_tag_recycle: 1,
        control_player_id: player,
        upkeep_player_id: player.wrapping_add(1),
    }))
}
pub fn positions(first: u32, items: &[i32]) -> Ev {
    Ev::T(ReplayTrackerEvent::UnitPosition(UnitPositionsEvent { first_unit_index: first, items: items.to_vec() }))
}
pub fn setup(player: u8, user: Option<u32>, slot: Option<u32>) -> Ev {
    Ev::T(ReplayTrackerEvent::PlayerSetup(PlayerSetupEvent { player_id: player, m_type: 1, user_id: user, slot_id: slot }))
}
pub fn upgrade(player: u8) -> Ev {
    Ev::T(ReplayTrackerEvent::Upgrade(UpgradeEvent { player_id: player, player_name: None, upgrade_type_name: "Stimpack".into(), count: 1 }))
}
/// A selection delta that replaces what was selected: the mask keeps nothing.
pub fn select(user: i64, group: u8, tags: &[u32]) -> Ev {
    Ev::G(
        user,
        ReplayGameEvent::SelectionDelta(GameSSelectionDeltaEvent {
            m_control_group_id: group,
            m_delta: GameSSelectionDelta {
                m_subgroup_index: 0,
                m_remove_mask: GameSSelectionMask::ZeroIndices(GameSelectionIndexArrayType { value: vec![] }),
                m_add_subgroups: vec![],
                m_add_unit_tags: tags.to_vec(),
            },
        }),
    )
}
pub fn group(user: i64, idx: u8, kind: GameEControlGroupUpdate) -> Ev {
    Ev::G(
        user,
        ReplayGameEvent::ControlGroupUpdate(GameSControlGroupUpdateEvent { m_control_group_index: idx, m_control_group_update: kind, m_mask: GameSSelectionMask::None }),
    )
}
pub const KINDS: [GameEControlGroupUpdate; 6] = {
    use GameEControlGroupUpdate::*;
    [ESet, EAppend, ERecall, EClear, ESetAndSteal, EAppendAndSteal]
};
pub fn coord(x: i64, y: i64, z: i32) -> GameSMapCoord3D {
    GameSMapCoord3D { x, y, z }
}
pub fn target(tag: u32, n: u16) -> GameSCmdDataTargetUnit {
    GameSCmdDataTargetUnit {
        m_target_unit_flags: n,
        m_timer: n as u8 + 1,
        m_tag: tag,
        m_snapshot_unit_link: n + 2,
        m_snapshot_control_player_id: Some(n as i64 % 3),
        m_snapshot_upkeep_player_id: (n % 2 == 0).then_some(n as i64),
        m_snapshot_point: coord(4096 * n as i64, 8192, -2048),
    }
}
pub fn cmd(user: i64, abil: Option<(u16, i64)>, data: GameSCmdData, seq: i64) -> Ev {
    Ev::G(
        user,
        ReplayGameEvent::Cmd(GameSCmdEvent {
            m_cmd_flags: 0x100 + seq,
            m_abil: abil.map(|(l, i)| GameSCmdAbil { m_abil_link: l, ability: String::new(), m_abil_cmd_index: i, m_abil_cmd_data: (seq % 2 == 0).then_some(7) }),
            m_data: data,
            m_sequence: seq,
            m_other_unit: (seq % 2 == 1).then_some(77),
            m_unit_group: (seq % 3 == 0).then_some(5),
        }),
    )
}
pub fn upd_point(user: i64, p: GameSMapCoord3D) -> Ev {
    Ev::G(user, ReplayGameEvent::CmdUpdateTargetPoint(GameSCmdUpdateTargetPointEvent { m_target: p }))
}
pub fn upd_unit(user: i64, t: GameSCmdDataTargetUnit) -> Ev {
    Ev::G(user, ReplayGameEvent::CmdUpdateTargetUnit(GameSCmdUpdateTargetUnitEvent { m_target: t }))
}
pub fn cam_save(user: i64, x: i64, y: i64) -> Ev {
    Ev::G(user, ReplayGameEvent::CameraSave(CameraSaveEvent { m_which: 1, m_target: GameSPointMini { x, y } }))
}
pub fn cam_upd(user: i64, t: Option<(i64, i64)>) -> Ev {
    Ev::G(
        user,
        ReplayGameEvent::CameraUpdate(CameraUpdateEvent {
            m_target: t.map(|(x, y)| GameSPointMini { x, y }),
            m_distance: Some(3),
            m_pitch: None,
            m_yaw: Some(4),
            m_reason: None,
            m_follow: true,
        }),
    )
}

/// Steps both machines through a prefix that is not itself under test.
pub fn seeded(mut s: (SC2ReplayState, Model), prefix: &[Ev]) -> (SC2ReplayState, Model) {
    for e in prefix {
        let _ = guard(|| apply(&mut s.0, e, 0));
        s.1.step(e, 0);
    }
    s
}
