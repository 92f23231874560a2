//! Whole replay files: version independent events are turned back into wire values, encoded by the
//! independent writers and packed into an archive on disk, for the APIs that only take a file.
use crate::fx::*;
use crate::mpq;
use crate::sm::Ev;
use crate::spec::*;
use s2protocol::game_events::ReplayGameEvent;
use s2protocol::tracker_events::ReplayTrackerEvent;
use serde_json::{Value as J, json};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

/// The wire value of a version independent rendering.
pub fn fill(m: &Module, t: &T, j: &J) -> V {
    match t {
        T::Ref(n) => fill(m, m.get(n), j),
        T::New(t) => {
            let j = match j {
                J::Object(o) if o.len() == 1 && o.contains_key("value") => &o["value"],
                j => j,
            };
            V::New(Box::new(fill(m, t, j)))
        }
        T::Struct(f) => V::Struct(
            f.iter()
                .map(|(n, t, _, p)| {
                    let short = n.strip_prefix("m_").unwrap_or(n);
                    let short2 = n.strip_prefix("m_score_value_").unwrap_or(short);
                    let x = [n.as_str(), short, short2].iter().find_map(|k| j.get(*k)).unwrap_or_else(|| panic!("no {n} in {j}"));
                    let v = if x.is_null() && *p != Presence::Req && !m.packed {
                        V::Absent
                    } else if short2.starts_with("food_") {
                        V::Int(x.as_i64().unwrap() as i128 * 4096)
                    } else {
                        fill(m, t, x)
                    };
                    (n.clone(), v)
                })
                .collect(),
        ),
        T::Enum { v, .. } => {
            let (name, p) = match j {
                J::String(s) => (s.as_str(), None),
                J::Object(o) => {
                    let (k, v) = o.iter().next().unwrap();
                    (k.as_str(), Some(v))
                }
                j => panic!("enum from {j}"),
            };
            let (tag, n, t) = v.iter().find(|x| x.1 == name || x.1.strip_prefix('E') == Some(name)).unwrap_or_else(|| panic!("no variant {name}"));
            let p = match (t, p) {
                (None, _) => None,
                (Some(T::Null), _) => Some(Box::new(V::Null)),
                (Some(t), Some(p)) => Some(Box::new(fill(m, t, p))),
                (Some(t), None) => Some(Box::new(fill(m, t, &J::Null))),
            };
            V::Enum(*tag, n.clone(), p)
        }
        T::Opt(t) => V::Opt(if j.is_null() { None } else { Some(Box::new(fill(m, t, j))) }),
        T::Arr { e, .. } => V::Arr(j.as_array().unwrap().iter().map(|j| fill(m, e, j)).collect()),
        T::Blob { .. } | T::TBlob => V::Bytes(j.as_str().unwrap().as_bytes().to_vec()),
        T::Int { .. } | T::UByte | T::VInt(_) => V::Int(j.as_i64().map(|i| i as i128).or(j.as_u64().map(|u| u as i128)).unwrap()),
        T::Bool | T::TBool => V::Bool(j.as_bool().unwrap()),
        T::Null => V::Null,
        T::BitsVec(_) => {
            let b: Vec<u8> = j.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
            let n = b.len() * 8;
            V::BitBytes(b, n)
        }
        t => panic!("cannot fill {t:?}"),
    }
}

pub fn wire_tracker(e: &ReplayTrackerEvent) -> V {
    fill(aligned(), &T::Ref("ReplayTrackerEEventId".into()), &serde_json::to_value(e).unwrap())
}
pub fn wire_game(m: &Module, e: &ReplayGameEvent) -> V {
    fill(m, &T::Ref("GameEEventId".into()), &serde_json::to_value(e).unwrap())
}

/// A player of the lobby: user id, slot id and name.
#[derive(Clone, Debug)]
pub struct Player {
    pub user: Option<i64>,
    pub slot: Option<u8>,
    pub name: String,
}

#[derive(Clone, Debug)]
pub struct Replay {
    pub build: u32,
    pub players: Vec<Player>,
    pub tracker: Vec<u8>,
    pub game: Vec<u8>,
    pub message: Vec<u8>,
    pub details: Vec<u8>,
    pub init: Vec<u8>,
}

pub fn module(build: u32) -> &'static Module {
    if build <= 75689 { packed75689() } else { packed() }
}

impl Replay {
    pub fn new(build: u32, players: &[(i64, &str)]) -> Self {
        let players: Vec<Player> = players.iter().enumerate().map(|(i, (u, n))| Player { user: Some(*u), slot: Some(i as u8), name: n.to_string() }).collect();
        let mut r = Replay { build, players: players.clone(), tracker: vec![], game: vec![], message: vec![], details: vec![], init: vec![] };
        let arr = |v: Vec<V>| V::New(Box::new(V::Arr(v)));
        let some = |v: V| V::Opt(Some(Box::new(v)));
        let _ = &arr;
        let mut d = default_of(aligned(), "GameSDetails");
        let p0 = default_of(aligned(), "GameSPlayerDetails");
        let list: Vec<V> = players
            .iter()
            .map(|p| with(p0.clone(), &[("m_name", V::Bytes(p.name.clone().into_bytes())), ("m_working_set_slot_id", some(V::Int(p.slot.unwrap() as i128))), ("m_observe", observes(aligned(), p0.field("m_observe"), &p.name))]))
            .collect();
        let pl = like(d.field("m_player_list"), list);
        d.set("m_player_list", pl);
        r.details = tagged("GameSDetails", &d);
        let m = module(build);
        let mut st = default_of(m, "GameSLobbySyncState");
        let mut l = default_of(m, "GameSLobbyState");
        let s0 = default_of(m, "GameSLobbySlot");
        let slots: Vec<V> = players
            .iter()
            .map(|p| {
                let mut s = s0.clone();
                s.set("m_observe", observes(m, s0.field("m_observe"), &p.name));
                s.set("m_user_id", V::Opt(p.user.map(|u| Box::new(int_like(s0.field("m_user_id").opt().unwrap(), u as i128)))));
                s.set("m_working_set_slot_id", V::Opt(p.slot.map(|u| Box::new(int_like(s0.field("m_working_set_slot_id").opt().unwrap(), u as i128)))));
                s
            })
            .collect();
        let sl = like(l.field("m_slots"), slots);
        l.set("m_slots", sl);
        st.set("m_lobby_state", l);
        r.init = packed_bytes(m, "ReplaySInitData", &V::Struct(vec![("m_sync_lobby_state".into(), st)]));
        r
    }
    /// Appends events; the loops are absolute and must not decrease within a stream.
    pub fn push(&mut self, evs: &[(i64, Ev)]) {
        let m = module(self.build);
        let (mut tl, mut gl) = (0i64, 0i64);
        let mut w = BitW::default();
        for (l, e) in evs {
            match e {
                Ev::T(e) => {
                    let d = (l - tl) as u32;
                    tl = *l;
                    tracker_pair(width_of(d), d, &wire_tracker(e), &mut self.tracker);
                }
                Ev::G(u, e) => {
                    let d = (l - gl) as u32;
                    gl = *l;
                    packed_event(m, "GameEEventId", width_of(d), d, *u, &wire_game(m, e), &mut w);
                }
            }
        }
        self.game.extend(w.out);
    }
    pub fn bytes(&self) -> Vec<u8> {
        let files: Vec<(&str, &[u8])> = vec![
            ("replay.details", &self.details),
            ("replay.initData", &self.init),
            ("replay.tracker.events", &self.tracker),
            ("replay.game.events", &self.game),
            ("replay.message.events", &self.message),
        ];
        mpq::build(Some(&header(self.build)), &files)
    }
}
/// Users of these names look on.
fn observes(m: &Module, like: &V, name: &str) -> V {
    let tag = match name {
        "Obs" => 1,
        "Ref" => 2,
        _ => 0,
    };
    match like {
        V::New(v) => V::New(Box::new(observes(m, v, name))),
        V::Enum(..) => {
            let e = m.variants("EObserve").into_iter().find(|x| x.0 == tag).unwrap();
            V::Enum(e.0, e.1.clone(), None)
        }
        v => panic!("{v:?}"),
    }
}
/// The number in the wrapping of another.
pub fn int_like(old: &V, i: i128) -> V {
    match old {
        V::New(v) => V::New(Box::new(int_like(v, i))),
        V::Int(_) => V::Int(i),
        // enumerations by tag: the first variant of the default is kept by name
        v => v.clone(),
    }
}
/// The list in the wrapping (options, newtypes) of another.
pub fn like(old: &V, list: Vec<V>) -> V {
    match old {
        V::New(v) => V::New(Box::new(like(v, list))),
        V::Opt(Some(v)) => V::Opt(Some(Box::new(like(v, list)))),
        V::Arr(_) => V::Arr(list),
        v => panic!("not a list: {v:?}"),
    }
}

/// A directory of its own that goes away with the value.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Self {
        static N: AtomicUsize = AtomicUsize::new(0);
        let d = std::env::temp_dir().join(format!("mc-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
    pub fn file(&self, name: &str, data: &[u8]) -> PathBuf {
        let p = self.0.join(name);
        std::fs::write(&p, data).unwrap();
        p
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
pub fn init_json(i: &s2protocol::InitData) -> J {
    json!(i)
}
