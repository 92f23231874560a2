//! Variable length integers and tagged values.
use crate::ctx::*;
use crate::spec::vlq;
use s2protocol::*;
use serde_json::json;

/// Reference decoder: exact value in i128, bytes consumed; None when the input ends inside.
fn reference(d: &[u8]) -> Option<(i128, usize)> {
    let b = *d.first()?;
    let neg = b & 1 == 1;
    let mut mag = ((b >> 1) & 0x3f) as u128;
    let mut cont = b & 0x80 != 0;
    let mut n = 1;
    let mut sh = 6;
    while cont {
        let b = *d.get(n)?;
        let c = (b & 0x7f) as u128;
        if sh < 120 {
            mag |= c << sh;
        } else if c != 0 {
            mag = u128::MAX >> 1;
        }
        sh += 7;
        cont = b & 0x80 != 0;
        n += 1;
    }
    let m = mag.min(i128::MAX as u128) as i128;
    Some((if neg { -m } else { m }, n))
}

fn check_int(cx: &Ctx, d: &[u8]) {
    cx.steps(1);
    let want = reference(d);
    let got = guard(|| parse_vlq_int(d).ok().map(|(t, v)| (v as i128, d.len() - t.len())));
    let ok = match (&got, &want) {
        (Ok(None), None) => true,
        // the exact value, or an error when it does not fit (over-long forms may be refused)
        (Ok(Some(g)), Some(w)) => g == w,
        (Ok(None), Some((v, n))) => v.unsigned_abs() > i64::MAX as u128 || *n > 10,
        _ => false,
    };
    if !ok {
        let class = match &want {
            None => "truncated".to_string(),
            Some((_, n)) => format!("len{n}"),
        };
        cx.violation(&format!("vlq/{class}"), &format!("bytes {}: got {got:?} want {want:?}", hex(d)), json!({"bytes": hex(d)}));
    }
}

pub fn run(cx: &Ctx) {
    // all byte strings of up to 2 bytes (3 in thorough), as they are and followed by more data
    check_int(cx, &[]);
    let b0: Vec<u8> = (0..=255).collect();
    par_for(&b0, |&a| {
        check_int(cx, &[a]);
        for b in 0..=255u8 {
            check_int(cx, &[a, b]);
            if cx.thorough {
                for c in 0..=255u8 {
                    check_int(cx, &[a, b, c]);
                }
            } else {
                for c in [0u8, 1, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0xff] {
                    check_int(cx, &[a, b, c]);
                }
            }
            cx.trace();
        }
    });
    cx.states_add(65536 + 257);
    // every value with at most three set bits in its magnitude, and their neighbours, both signs
    let mut vals: Vec<i128> = vec![];
    for i in 0..63 {
        for j in 0..=i {
            for k in if cx.thorough { 0..=j } else { 0..=0 } {
                let m: i128 = (1i128 << i) | (1 << j) | (1 << k);
                for x in [m - 1, m, m + 1, (1i128 << i) - (1 << j)] {
                    if x <= i64::MAX as i128 {
                        vals.push(x);
                        vals.push(-x);
                    }
                }
            }
        }
    }
    vals.extend(-70000..=70000);
    vals.sort();
    vals.dedup();
    cx.states_add(vals.len() as u64);
    let chunks: Vec<&[i128]> = vals.chunks(4096).collect();
    par_for(&chunks, |vs| {
        for &v in vs.iter() {
            let mut e = vec![];
            vlq(v, &mut e);
            for i in 0..e.len() {
                check_int(cx, &e[..i]);
            }
            check_int(cx, &e);
            let mut e2 = e.clone();
            e2.extend([0xde, 0xad]);
            check_int(cx, &e2);
            // over-long but equal form
            let mut e3 = e.clone();
            *e3.last_mut().unwrap() |= 0x80;
            e3.push(0);
            check_int(cx, &e3);
            // tagged form
            let mut t = vec![9u8];
            t.extend(&e2);
            let got = guard(|| tagged_vlq_int(&t).ok().map(|(t, x)| (x as i128, t.to_vec())));
            if got != Ok(Some((v, vec![0xde, 0xad]))) {
                cx.violation("tagged_int", &format!("{v}: got {got:?}"), json!({"bytes": hex(&t)}));
            }
            cx.steps(1);
            cx.trace();
        }
    });
    // continuation chains of every length, every final byte: never a panic, never a wrong value
    for n in 1..=24usize {
        for fill in [0x80u8, 0xff, 0x81, 0xc0, 0xfe, 0xaa] {
            for last in 0..=255u8 {
                let mut d = vec![fill; n];
                d.push(last);
                check_int(cx, &d);
                let mut d = vec![0x81u8; 1];
                d.extend(vec![0x80; n - 1]);
                d.push(last);
                check_int(cx, &d);
                cx.trace();
            }
        }
    }
    // every tag byte against every tagged reader, every payload length, every truncation
    let readers: Vec<(&str, u8)> = vec![("array", 0), ("bitarray", 1), ("blob", 2), ("choice", 3), ("opt", 4), ("struct", 5), ("bool", 6), ("fourcc", 7), ("int", 9)];
    for (name, right) in &readers {
        for tag in 0..=255u8 {
            let d = [tag, 0x12, 0x34];
            let got = guard(|| {
                let r = match *right {
                    0 => validate_array_tag(&d),
                    1 => validate_bitarray_tag(&d),
                    2 => validate_blob_tag(&d),
                    3 => validate_choice_tag(&d),
                    4 => validate_opt_tag(&d),
                    5 => validate_struct_tag(&d),
                    6 => validate_bool_tag(&d),
                    7 => validate_fourcc_tag(&d),
                    _ => validate_int_tag(&d),
                };
                r.ok().map(|(t, _)| t.len())
            });
            let want = if tag == *right { Some(2) } else { None };
            cx.expect_eq(&format!("validate_{name}/{tag}"), &got, &Ok(want), || json!({"tag": tag}));
            cx.steps(1);
        }
    }
    for tag in 0..=255u8 {
        for n in 0..=300usize {
            if tag > 12 && n > 3 {
                continue;
            }
            // blob of n bytes
            let body: Vec<u8> = (0..n).map(|i| i as u8 ^ 0x5c).collect();
            let mut d = vec![tag];
            vlq(n as i128, &mut d);
            d.extend(&body);
            d.push(0x77);
            let got = guard(|| tagged_blob(&d).ok().map(|(t, b)| (t.to_vec(), b)));
            let want = if tag == 2 { Some((vec![0x77], body.clone())) } else { None };
            cx.expect_eq(&format!("blob/{tag}/{n}"), &got, &Ok(want), || json!({"bytes": hex(&d)}));
            if tag == 2 {
                for cut in 0..d.len() - 1 {
                    let got = guard(|| tagged_blob(&d[..cut]).is_err());
                    cx.expect_eq("blob/truncated", &got, &Ok(true), || json!({"bytes": hex(&d[..cut])}));
                }
            }
            // bit array of n bits
            let nb = n.div_ceil(8);
            let mut d = vec![tag];
            vlq(n as i128, &mut d);
            d.extend(&body[..nb]);
            d.push(0x77);
            let got = guard(|| tagged_bitarray(&d).ok().map(|(t, b)| (t.to_vec(), b)));
            let want = if tag == 1 { Some((vec![0x77], body[..nb].to_vec())) } else { None };
            cx.expect_eq(&format!("bitarray/{tag}/{n}"), &got, &Ok(want), || json!({"bytes": hex(&d)}));
            cx.steps(2);
            cx.trace();
        }
        // negative lengths are errors
        for neg in [-1i128, -2, -8, -64, -(1 << 20), -(i64::MAX as i128)] {
            let mut d = vec![tag];
            vlq(neg, &mut d);
            d.extend([0; 40]);
            for which in 0..2 {
                let got = guard(|| if which == 0 { tagged_blob(&d).is_err() } else { tagged_bitarray(&d).is_err() });
                cx.expect_eq("negative_length", &got, &Ok(true), || json!({"bytes": hex(&d), "reader": which}));
            }
            cx.steps(2);
        }
        for v in 0..=255u8 {
            let d = [tag, v, 0x31, 0x32, 0x33, 0x34];
            let got = guard(|| tagged_bool(&d).ok().map(|(t, b)| (t.len(), b)));
            cx.expect_eq(&format!("bool/{tag}"), &got, &Ok(if tag == 6 { Some((4, v != 0)) } else { None }), || json!({"bytes": hex(&d)}));
            let got = guard(|| tagged_fourcc(&d).ok().map(|(t, b)| (t.len(), b)));
            let want = if tag == 7 { Some((1, u32::from_be_bytes([v, 0x31, 0x32, 0x33]))) } else { None };
            cx.expect_eq(&format!("fourcc/{tag}"), &got, &Ok(want), || json!({"bytes": hex(&d)}));
            for cut in 0..5 {
                let got = guard(|| tagged_fourcc(&d[..cut]).is_err());
                cx.expect_eq("fourcc/truncated", &got, &Ok(true), || json!({"bytes": hex(&d[..cut])}));
            }
            cx.steps(2);
            cx.trace();
        }
    }
    let mut e = vec![];
    vlq(-87702, &mut e);
    cx.sample(json!({"value": -87702, "bytes": hex(&e)}));
    cx.phase("bounds", json!({"all_byte_strings_up_to": cx.pick(2, 3), "values": vals.len(), "continuations": 24}));
}
