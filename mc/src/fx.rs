//! Encoders of whole streams and replays, built on the frozen wire format.
use crate::choose::{Chooser, explore};
use crate::mpq;
use crate::spec::*;
use s2protocol::MPQ;

pub const SIGNATURE: &[u8] = b"StarCraft II replay\x1b11";

/// The value with no deviation at all.
pub fn default_of(m: &Module, name: &str) -> V {
    let mut out = None;
    explore(0, |c: &mut Chooser| {
        out = Some(Gen::new(false, true).gen_name(m, c, name));
    });
    out.unwrap()
}

pub fn tagged(name: &str, v: &V) -> Vec<u8> {
    let mut out = vec![];
    enc_tagged(aligned(), &T::Ref(name.into()), v, &mut out);
    out
}
pub fn packed_bytes(m: &Module, name: &str, v: &V) -> Vec<u8> {
    let mut w = BitW::default();
    enc_bits(m, &T::Ref(name.into()), v, &mut w);
    w.out
}

pub fn header_value(base_build: u32) -> V {
    let mut h = default_of(aligned(), "ReplaySHeader");
    h.set("m_signature", V::Bytes(SIGNATURE.to_vec()));
    let mut ver = h.field("m_version").clone();
    ver.set("m_base_build", V::Int(base_build as i128));
    h.set("m_version", ver);
    h
}
pub fn header(base_build: u32) -> Vec<u8> {
    tagged("ReplaySHeader", &header_value(base_build))
}

pub fn archive(base_build: u32, files: &[(&str, &[u8])]) -> (Vec<u8>, MPQ) {
    let bytes = mpq::build(Some(&header(base_build)), files);
    let m = mpq::parse(&bytes);
    (bytes, m)
}

/// A loop delta in a given width of the variable width type (0: 6, 1: 14, 2: 22, 3: 32 bits).
pub fn delta_value(width: usize, d: u32) -> V {
    let names = ["MUint6", "MUint14", "MUint22", "MUint32"];
    V::Enum(width as i64, names[width].into(), Some(Box::new(V::Int(d as i128))))
}
/// The narrowest width that holds the delta.
pub fn width_of(d: u32) -> usize {
    match d {
        0..64 => 0,
        64..16384 => 1,
        16384..0x400000 => 2,
        _ => 3,
    }
}

pub fn tracker_pair(width: usize, delta: u32, ev: &V, out: &mut Vec<u8>) {
    enc_tagged(aligned(), &T::Ref("SVarUint32".into()), &delta_value(width, delta), out);
    enc_tagged(aligned(), &T::Ref("ReplayTrackerEEventId".into()), ev, out);
}

/// One game or message event: delta, user id, event id and payload, aligned at the end.
pub fn packed_event(m: &Module, enumeration: &str, width: usize, delta: u32, user: i64, ev: &V, w: &mut BitW) {
    enc_bits(m, &T::Ref("SVarUint32".into()), &delta_value(width, delta), w);
    enc_bits(m, &T::Ref("ReplaySGameUserId".into()), &user_value(user), w);
    enc_bits(m, &T::Ref(enumeration.into()), ev, w);
    w.align();
}
pub fn user_value(user: i64) -> V {
    V::Struct(vec![("m_user_id".into(), V::Int(user as i128))])
}

/// A field list for a struct of the wire format with the values given by name (the rest default).
pub fn with(mut v: V, f: &[(&str, V)]) -> V {
    for (n, x) in f {
        v.set(n, x.clone());
    }
    v
}
