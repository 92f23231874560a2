//! A writer of MPQ archives (the container is the nom_mpq dependency's; this is its inverse).
use s2protocol::MPQ;
use std::collections::HashMap;
use std::sync::OnceLock;

fn table() -> &'static HashMap<u32, u32> {
    static T: OnceLock<HashMap<u32, u32>> = OnceLock::new();
    T.get_or_init(|| {
        let mut seed: u32 = 0x00100001;
        let mut res = HashMap::new();
        for i in 0..256u32 {
            let mut idx = i;
            for _ in 0..5 {
                seed = (seed * 125 + 3) % 0x2AAAAB;
                let t1 = (seed & 0xFFFF) << 16;
                seed = (seed * 125 + 3) % 0x2AAAAB;
                res.insert(idx, t1 | (seed & 0xFFFF));
                idx += 0x100;
            }
        }
        res
    })
}

fn string_hash(s: &str, ty: u32) -> u32 {
    let (mut s1, mut s2) = (0x7FED7FEDu32, 0xEEEEEEEEu32);
    for ch in s.to_uppercase().bytes() {
        let ch = ch as u32;
        let v = table()[&((ty << 8) + ch)];
        s1 = v ^ s1.wrapping_add(s2);
        s2 = ch.wrapping_add(s1).wrapping_add(s2).wrapping_add(s2 << 5).wrapping_add(3);
    }
    s1
}

fn encrypt(data: &[u8], key: u32) -> Vec<u8> {
    let (mut s1, mut s2) = (key, 0xEEEEEEEEu32);
    let mut out = vec![];
    for c in data.chunks_exact(4) {
        s2 = s2.wrapping_add(table()[&(0x400 + (s1 & 0xFF))]);
        let plain = u32::from_le_bytes(c.try_into().unwrap());
        let enc = plain ^ s1.wrapping_add(s2);
        s1 = ((!s1 << 0x15).wrapping_add(0x11111111)) | (s1 >> 0x0B);
        s2 = plain.wrapping_add(s2).wrapping_add(s2 << 5).wrapping_add(3);
        out.extend(enc.to_le_bytes());
    }
    out
}

/// Builds an archive with an optional user data section and the given files.
pub fn build(user_data: Option<&[u8]>, files: &[(&str, &[u8])]) -> Vec<u8> {
    let mut out = vec![];
    if let Some(ud) = user_data {
        let hdr_off = (16 + ud.len()).next_multiple_of(16);
        out.extend(b"MPQ\x1b");
        out.extend((ud.len() as u32).to_le_bytes());
        out.extend((hdr_off as u32).to_le_bytes());
        out.extend((ud.len() as u32).to_le_bytes());
        out.extend(ud);
        out.resize(hdr_off, 0);
    }
    let base = out.len();
    let n_hash = files.len().next_power_of_two().max(4);
    let mut body: Vec<u8> = vec![];
    let mut hash: Vec<u8> = vec![];
    let mut block: Vec<u8> = vec![];
    for (i, (name, data)) in files.iter().enumerate() {
        for x in [string_hash(name, 1), string_hash(name, 2), 0, i as u32] {
            hash.extend(x.to_le_bytes());
        }
        let off = 32 + body.len() as u32;
        body.extend(*data);
        // One piece, of a compressed archive; a file that does not get smaller is stored as it is.
        for x in [off, data.len() as u32, data.len() as u32, 0x8100_0200u32] {
            block.extend(x.to_le_bytes());
        }
    }
    hash.resize(n_hash * 16, 0xff);
    let hash_off = 32 + body.len() as u32;
    let block_off = hash_off + hash.len() as u32;
    let total = block_off + block.len() as u32;
    out.extend(b"MPQ\x1a");
    for x in [32u32, total] {
        out.extend(x.to_le_bytes());
    }
    out.extend(0u16.to_le_bytes());
    out.extend(3u16.to_le_bytes());
    for x in [hash_off, block_off, n_hash as u32, files.len() as u32] {
        out.extend(x.to_le_bytes());
    }
    assert_eq!(out.len(), base + 32);
    out.extend(body);
    out.extend(encrypt(&hash, string_hash("(hash table)", 3)));
    out.extend(encrypt(&block, string_hash("(block table)", 3)));
    out
}

pub fn parse(data: &[u8]) -> MPQ {
    s2protocol::parser::parse(data).expect("our own archive parses").1
}
