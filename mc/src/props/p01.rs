//! Bit packed primitives: every width at every bit offset, all short inputs, all read sequences.
use crate::choose::explore;
use crate::ctx::*;
use crate::spec::BitW;
use s2protocol::*;
use serde_json::json;

/// Reference: position in bits; bit i of the stream is bit (i % 8), counted from the least
/// significant, of byte i / 8.  A value takes its bits chunk by chunk, a chunk never crossing a
/// byte, earlier chunks being more significant.
pub struct RefR<'a> {
    pub d: &'a [u8],
    pub pos: usize,
}
impl RefR<'_> {
    pub fn left(&self) -> usize {
        self.d.len() * 8 - self.pos
    }
    pub fn bits(&mut self, n: usize) -> Option<u64> {
        if n > self.left() {
            return None;
        }
        let mut r = 0u64;
        let mut n = n;
        while n > 0 {
            let o = self.pos % 8;
            let k = (8 - o).min(n);
            let mut c = 0u64;
            for i in 0..k {
                c |= (((self.d[self.pos / 8] >> (o + i)) & 1) as u64) << i;
            }
            r = if k == 64 { c } else { (r << k) | c };
            self.pos += k;
            n -= k;
        }
        Some(r)
    }
    pub fn align(&mut self) -> Option<()> {
        self.pos = self.pos.next_multiple_of(8);
        Some(())
    }
}

fn pos_of(data: &[u8], tail: (&[u8], usize)) -> usize {
    (data.len() - tail.0.len()) * 8 + tail.1
}

/// One operation of the read alphabet, on both sides: rendering of the value and end position.
type R = Option<(String, usize)>;
fn reference(op: (u8, usize), d: &[u8], pos: usize) -> R {
    let mut r = RefR { d, pos };
    let s = match op.0 {
        0 => {
            if op.1 > 64 {
                return None;
            }
            format!("{}", r.bits(op.1)? as i64)
        }
        1 => {
            // a bit string: whole bytes first, then the rest
            let mut v = vec![];
            let mut n = op.1;
            while n > 0 {
                let k = n.min(8);
                v.push(r.bits(k)? as u8);
                n -= k;
            }
            format!("{v:?}")
        }
        2 => {
            r.align()?;
            "()".into()
        }
        3 => format!("{}", r.bits(1)? != 0),
        4 => format!("{}", r.bits(8)?),
        5 => {
            let mut v = vec![];
            for _ in 0..4 {
                v.push(r.bits(8)? as u8);
            }
            format!("{v:?}")
        }
        6 if op.1 > 64 => return None,
        6 => format!("{}", (r.bits(op.1)? as i64).wrapping_add(-(1 << 31))),
        7 => "()".into(),
        _ => unreachable!(),
    };
    Some((s, r.pos))
}
fn implementation(op: (u8, usize), d: &[u8], pos: usize) -> Result<R, String> {
    let input = (&d[pos / 8..], pos % 8);
    guard(|| {
        let r: Result<(usize, String), S2ProtocolError> = (|| {
            Ok(match op.0 {
                0 => take_n_bits_into_i64(input, op.1).map(|(t, v)| (pos_of(d, t), format!("{v}")))?,
                1 => take_bit_array(input, op.1).map(|(t, v)| (pos_of(d, t), format!("{v:?}")))?,
                2 => byte_align(input).map(|(t, v)| (pos_of(d, t), format!("{v:?}")))?,
                3 => parse_bool(input).map(|(t, v)| (pos_of(d, t), format!("{v}")))?,
                4 => take_unaligned_byte(input).map(|(t, v)| (pos_of(d, t), format!("{v}")))?,
                5 => take_fourcc(input).map(|(t, v)| (pos_of(d, t), format!("{v:?}")))?,
                6 => parse_packed_int(input, -(1 << 31), op.1).map(|(t, v)| (pos_of(d, t), format!("{v}")))?,
                7 => take_null(input).map(|(t, v)| (pos_of(d, t), format!("{v:?}")))?,
                _ => unreachable!(),
            })
        })();
        r.ok().map(|(p, s)| (s, p))
    })
}

fn compare(cx: &Ctx, op: (u8, usize), d: &[u8], pos: usize) -> Option<usize> {
    let want = reference(op, d, pos);
    let got = implementation(op, d, pos);
    cx.steps(1);
    if got.as_ref() != Ok(&want) {
        let mut key = format!("op{}/w{}/off{}/{}", op.0, op.1, pos % 8, if want.is_none() { "short" } else { "value" });
        if op == (1, 0) && got == Ok(Some(("[0]".into(), pos))) {
            key = "zero-length-bit-string-reads-as-[0]".into();
        }
        cx.violation(&key, &format!("data {} pos {pos}: got {got:?} want {want:?}", hex(d)), json!({"op": op.0, "width": op.1, "pos": pos, "data": hex(d)}));
    }
    want.map(|w| w.1)
}

pub fn run(cx: &Ctx) {
    // (a) every width, every offset, walking bits and every buffer length
    let widths: Vec<usize> = (0..=72).collect();
    par_for(&widths, |&w| {
        for op in [0u8, 1, 6] {
            for off in 0..8usize {
                let need = (off + w).div_ceil(8);
                for len in 0..=need + 1 {
                    if off / 8 >= len && off > 0 {
                        continue;
                    }
                    let mut pats: Vec<Vec<u8>> = vec![vec![0; len], vec![0xff; len], (0..len).map(|i| (i as u8).wrapping_mul(0x9d) ^ 0x5a).collect()];
                    for bit in 0..len * 8 {
                        let mut p = vec![0u8; len];
                        p[bit / 8] |= 1 << (bit % 8);
                        pats.push(p.clone());
                        p.iter_mut().for_each(|x| *x ^= 0xff);
                        pats.push(p);
                    }
                    for p in pats {
                        compare(cx, (op, w), &p, off);
                        cx.trace();
                        cx.state(hash_bytes(&[&[op, w as u8, off as u8], &p[..]].concat()));
                    }
                }
            }
        }
    });
    // long bit strings (masks, blobs) at every offset
    let lens: Vec<usize> = if cx.thorough { (0..=2100).collect() } else { (0..=130).chain([255, 256, 257, 511, 512, 2040, 2048]).collect() };
    let lens: Vec<usize> = lens.into_iter().chain([8 * 1025, 8 * 4096 + 3, 8 * 4099, 8 * 65_537 + 1]).collect();
    par_for(&lens, |&n| {
        for off in 0..8 {
            let d: Vec<u8> = (0..(n + off).div_ceil(8)).map(|i| (i as u8).wrapping_mul(0x6b) ^ 0xc3).collect();
            if !d.is_empty() || off == 0 {
                compare(cx, (1, n), &d, off);
                if !d.is_empty() {
                    compare(cx, (1, n), &d[..d.len() - 1], off.min((d.len() - 1) * 8));
                }
                cx.trace();
            }
        }
    });
    // widths above 64 must be refused whatever follows
    for w in [65usize, 66, 71, 72, 100, 128, 255, 1000] {
        for off in 0..8 {
            let d = vec![0xffu8; 200];
            compare(cx, (0, w), &d, off);
            cx.trace();
        }
    }
    // (b) all two byte contents for every width that fits
    let hi: Vec<u8> = (0..=255).collect();
    par_for(&hi, |&h| {
        for l in 0..=255u8 {
            let d = [l, h];
            for off in 0..8usize {
                for w in 0..=(16 - off) {
                    if !cx.thorough && !(w <= 9 || w + off == 16) {
                        continue;
                    }
                    compare(cx, (0, w), &d, off);
                }
            }
            cx.trace();
        }
    });
    cx.states_add(65536 * 8);
    // (c) sequences of reads: the position left by one read is where the next one starts
    let alphabet: Vec<(u8, usize)> = vec![
        (0, 1), (0, 2), (0, 3), (0, 5), (0, 6), (0, 7), (0, 8), (0, 9), (0, 11), (0, 13), (0, 16), (0, 27), (0, 32), (0, 33), (0, 64),
        (1, 0), (1, 3), (1, 8), (1, 12), (1, 24), (2, 0), (3, 0), (4, 0), (5, 0), (6, 32), (6, 6), (7, 0),
    ];
    let depth = cx.pick(3, 4);
    let firsts: Vec<usize> = (0..alphabet.len()).collect();
    par_for(&firsts, |&f| {
        let n = explore(0, |c| {
            let mut ops = vec![alphabet[f]];
            for _ in 1..depth {
                ops.push(alphabet[c.free(alphabet.len())]);
            }
            for d in [&DATA_A[..], &DATA_B[..7]] {
                let mut pos = 0;
                for op in &ops {
                    match compare(cx, *op, d, pos) {
                        Some(p) => pos = p,
                        None => break,
                    }
                }
                cx.trace();
            }
        });
        cx.states_add(n);
    });
    // (d) our writer (used by the decode checks) is the inverse of the reference reader
    for w in 0..=64usize {
        for off in 0..8usize {
            let v = 0x0123_4567_89ab_cdefu64 & if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
            let mut b = BitW::default();
            b.bits(0x55, off);
            b.bits(v as u128, w);
            let mut r = RefR { d: &b.out, pos: off };
            assert_eq!(r.bits(w), Some(v), "writer and reference reader disagree");
        }
    }
    cx.sample(json!({"op": "take_n_bits_into_i64", "width": 13, "offset": 5, "data": hex(&DATA_A[..4]), "value": reference((0, 13), &DATA_A, 5).unwrap().0}));
    cx.phase("bounds", json!({"widths": "0..72 and >64 refused", "offsets": "0..7", "sequence_depth": depth, "alphabet": alphabet.len()}));
}

static DATA_A: [u8; 40] = [
    0x07, 0x75, 0x26, 0x7a, 0x50, 0xf8, 0xdf, 0x07, 0xbb, 0xf0, 0xe0, 0x70, 0x00, 0xf0, 0x81, 0x3c, 0x7d, 0x00, 0x01, 0xc0, 0x01, 0x7f, 0x3c, 0x99,
    0xc0, 0x03, 0x1f, 0x1c, 0x5a, 0xa5, 0x12, 0x34, 0x56, 0x78, 0x9a, 0xbc, 0xde, 0xf1, 0x80, 0xfe,
];
static DATA_B: [u8; 8] = [0xff, 0x80, 0x01, 0xaa, 0x55, 0xfe, 0x7f, 0x00];
