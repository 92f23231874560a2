//! The parsers of the map cache files: structured inputs, every cut, every damaged byte, against a
//! reference reader of the three layouts.
use super::*;
use crate::fx::*;
use s2protocol::cache_handles::coords::*;
use s2protocol::cache_handles::document_header::DocumentHeader;
use s2protocol::cache_handles::map_info::MapInfo;
use s2protocol::cache_handles::t3_height_map::T3HeightMap;
use serde_json::json;

const MOD: &str = "bnet:Void (Mod)/0.0/999,file:Mods/Void.SC2Mod";

struct Cur<'a>(&'a [u8]);
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        let (a, b) = self.0.split_at_checked(n)?;
        self.0 = b;
        Some(a)
    }
    fn int(&mut self) -> Option<i32> {
        Some(self.take(4)?.iter().rev().fold(0u32, |a, b| a << 8 | *b as u32) as i32)
    }
    fn short(&mut self) -> Option<usize> {
        let b = self.take(2)?;
        Some(b[0] as usize + 256 * b[1] as usize)
    }
    /// Up to the next zero, which is consumed too.
    fn text(&mut self) -> Option<String> {
        let n = self.0.iter().position(|b| *b == 0)?;
        let s = String::from_utf8_lossy(self.take(n)?).to_string();
        self.take(1)?;
        Some(s)
    }
    fn is(&mut self, want: &[u8]) -> Option<()> {
        (self.take(want.len())? == want).then_some(())
    }
}

type Info = (i32, [i32; 2], [String; 4], [i32; 4], usize);
fn ref_info(b: &[u8]) -> Option<Info> {
    let mut c = Cur(b);
    c.is(b"IpaM")?;
    let version = c.int()?;
    if version > 24 {
        c.take(8)?;
    }
    let (w, h) = (c.int()?, c.int()?);
    if w > 256 || h > 256 {
        return None;
    }
    c.take(8)?;
    while c.0.first() == Some(&0) {
        c.take(1)?;
    }
    let (a, b) = (c.text()?, c.text()?);
    c.take(5)?;
    let (t, f) = (c.text()?, c.text()?);
    let [l, bo, r, to] = [c.int()?, c.int()?, c.int()?, c.int()?];
    if l < 0 || bo < 0 || l >= r || bo >= to || r > w || to > h {
        return None;
    }
    Some((version, [w, h], [a, b, t, f], [l, bo, r, to], c.0.len()))
}
fn got_info(i: MapInfo, tail: usize) -> Info {
    (i.file_version, [i.cell_width, i.cell_height], [i.first_string, i.second_string, i.third_string, i.fourth_string], [i.cell_left, i.cell_bottom, i.cell_right, i.cell_top], tail)
}

type Heights = (i32, i32, Vec<u8>, usize);
fn ref_heights(b: &[u8], dim: (i32, i32)) -> Option<Heights> {
    let mut c = Cur(b);
    c.is(b"HMAP\x65\0\0\0")?;
    let (w, h) = (c.int()?, c.int()?);
    if (w, h) != (dim.0 + 1, dim.1 + 1) {
        return None;
    }
    c.take(16)?;
    let mut d = vec![];
    for _ in 0..w * h {
        let u = c.take(6)?;
        if u[4] > 4 {
            return None;
        }
        d.push(u[4]);
    }
    Some((w, h, d, c.0.len()))
}

type Doc = ([i32; 4], [String; 4], usize);
fn ref_doc(b: &[u8]) -> Option<Doc> {
    let mut c = Cur(b);
    c.is(b"H2CS")?;
    c.take(12)?;
    let (x, y) = (c.int()?, c.int()?);
    c.take(4)?;
    let (e, f) = (c.int()?, c.int()?);
    c.take(12)?;
    let m = c.text()?;
    if m != MOD {
        return None;
    }
    let n = c.short()?;
    c.is(&[0, 0])?;
    let mut t = [m, String::new(), String::new(), String::new()];
    for _ in 0..n {
        let k = c.short()?;
        let name = String::from_utf8_lossy(c.take(k)?).to_string();
        c.is(b"SUne")?;
        let k = c.short()?;
        let value = String::from_utf8_lossy(c.take(k)?).to_string();
        if let Some(i) = ["DocInfo/Name", "DocInfo/DescLong", "DocInfo/DescShort"].iter().position(|k| **k == name) {
            t[i + 1] = value;
        }
    }
    Some(([x, y, e, f], t, c.0.len()))
}
fn got_doc(d: DocumentHeader, tail: usize) -> Doc {
    ([d.maybe_dimension_x1, d.maybe_dimension_y1, d.some_epoch_1, d.some_epoch_2], [d.mod_info, d.name, d.description_long, d.description_short], tail)
}

fn judge<T: PartialEq + std::fmt::Debug>(cx: &Ctx, key: &str, input: &[u8], want: Option<T>, got: Result<Option<T>, String>) {
    cx.steps(1);
    let replay = || json!({"input": hex(&input[..input.len().min(4096)])});
    match got {
        Ok(g) => {
            cx.expect_eq(key, &g, &want, replay);
        }
        Err(p) => cx.violation(&format!("{key}/panic"), &p, replay()),
    }
}
fn info(cx: &Ctx, key: &str, b: &[u8]) {
    cx.state_bytes(b);
    judge(cx, &format!("info/{key}"), b, ref_info(b), guard(|| MapInfo::parse(b).ok().map(|(t, i)| (t == &b[b.len() - t.len()..], got_info(i, t.len()))).map(|(same, i)| if same { i } else { panic!("the rest is not the end of the input") })));
}
fn heights(cx: &Ctx, key: &str, b: &[u8], i: &MapInfo) {
    cx.state_bytes(b);
    judge(cx, &format!("heights/{key}"), b, ref_heights(b, (i.cell_width, i.cell_height)), guard(|| T3HeightMap::parse(b, i).ok().map(|(t, h)| (h.width, h.height, h.data, t.len()))));
}
fn doc(cx: &Ctx, key: &str, b: &[u8]) {
    cx.state_bytes(b);
    judge(cx, &format!("document/{key}"), b, ref_doc(b), guard(|| DocumentHeader::parse(b).ok().map(|(t, d)| got_doc(d, t.len()))));
}

fn cat(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}
fn le(i: i32) -> [u8; 4] {
    i.to_le_bytes()
}
#[allow(clippy::too_many_arguments)]
pub fn info_bytes(version: i32, w: i32, h: i32, zeros: usize, s: [&[u8]; 4], b: [i32; 4], junk: u8, tail: &[u8]) -> Vec<u8> {
    let mut o = cat(&[b"IpaM", &le(version)]);
    if version > 24 {
        o.extend([junk; 8]);
    }
    o.extend(cat(&[&le(w), &le(h), &[junk; 8]]));
    o.extend(vec![0; zeros]);
    o.extend(cat(&[s[0], &[0], s[1], &[0], &[junk; 5], s[2], &[0], s[3], &[0]]));
    b.iter().for_each(|x| o.extend(le(*x)));
    o.extend(tail);
    o
}
pub fn height_bytes(w: i32, h: i32, fill: &dyn Fn(usize) -> u8, tail: &[u8]) -> Vec<u8> {
    let mut o = cat(&[b"HMAP\x65\0\0\0", &le(w), &le(h), &[0xa5; 16]]);
    for i in 0..(w.max(0) as usize) * (h.max(0) as usize) {
        o.extend([i as u8, 0xff, 7, 0x80, fill(i), 9]);
    }
    o.extend(tail);
    o
}
pub fn doc_bytes(ints: [i32; 4], m: &[u8], fields: &[(&[u8], &[u8])], tail: &[u8]) -> Vec<u8> {
    let mut o = cat(&[b"H2CS", &[8, 0, 0, 0], b"2S\0\0", &[1, 5, 0, 14], &le(ints[0]), &le(ints[1]), &[0xee; 4], &le(ints[2]), &le(ints[3]), &[2; 12], m, &[0], &(fields.len() as u16).to_le_bytes(), &[0, 0]]);
    for (n, v) in fields {
        o.extend(cat(&[&(n.len() as u16).to_le_bytes(), n, b"SUne", &(v.len() as u16).to_le_bytes(), v]));
    }
    o.extend(tail);
    o
}

/// All cuts, all single byte changes, all single byte insertions and removals of an input.
fn damage(cx: &Ctx, base: &[u8], f: &(dyn Fn(&str, &[u8]) + Sync)) {
    f("whole", base);
    for n in 0..base.len() {
        f("cut", &base[..n]);
    }
    let at: Vec<usize> = (0..base.len()).collect();
    par_for(&at, |&i| {
        let mut b = base.to_vec();
        for x in 0..=255u8 {
            b[i] = x;
            f("byte", &b);
        }
        let mut b = base.to_vec();
        b.remove(i);
        f("removed", &b);
        for x in [0u8, 1, 0x41, 0xff] {
            let mut b = base.to_vec();
            b.insert(i, x);
            f("inserted", &b);
        }
        // a whole number overwritten
        if i + 4 <= base.len() {
            for x in [0i32, 1, 2, 3, 4, 255, 256, 257, 65535, 65536, i32::MAX, i32::MIN, -1, -2] {
                let mut b = base.to_vec();
                b[i..i + 4].copy_from_slice(&le(x));
                f("number", &b);
            }
        }
    });
    cx.trace();
}

pub fn run(cx: &Ctx) {
    // Map info: versions, sizes, bounds.
    let versions = [0i32, 1, 23, 24, 25, 39, 255, 256, -1, i32::MAX, i32::MIN];
    let mut n = 0u64;
    for v in versions {
        for junk in [0u8, 1, 0xff] {
            for zeros in 0..4 {
                for tail in [&b""[..], b"x", &[0; 9]] {
                    n += 1;
                    info(cx, "versions", &info_bytes(v, 168, 152, zeros, [b"\x04", b"", b"Dark", b"Zerus"], [14, 15, 154, 150], junk, tail));
                }
            }
        }
    }
    let sizes = [0i32, 1, 2, 3, 128, 255, 256, 257, 65536, i32::MAX, -1, i32::MIN];
    let bounds = [0i32, 1, 2, 3, 127, 255, 256, 257, 65536, i32::MAX, -1, i32::MIN];
    let pairs: Vec<(i32, i32)> = sizes.iter().flat_map(|w| sizes.map(|h| (*w, h))).collect();
    par_for(&pairs, |&(w, h)| {
        for l in bounds {
            for b in bounds {
                for r in bounds {
                    for t in bounds {
                        info(cx, "bounds", &info_bytes(39, w, h, 2, [b"\x04", b"", b"Dark", b"Zerus"], [l, b, r, t], 1, b"rest"));
                    }
                }
            }
        }
    });
    n += (pairs.len() * bounds.len().pow(4)) as u64;
    // Every small size with every box in it and just out of it.
    let small: Vec<(i32, i32)> = (0..=4).flat_map(|w| (0..=4).map(move |h| (w, h))).collect();
    par_for(&small, |&(w, h)| {
        for l in -1..=5 {
            for b in -1..=5 {
                for r in -1..=5 {
                    for t in -1..=5 {
                        info(cx, "boxes", &info_bytes(24, w, h, 0, [b"\x04", b"", b"Dark", b"Zerus"], [l, b, r, t], 1, b""));
                    }
                }
            }
        }
    });
    n += 25 * 7u64.pow(4);
    let texts: [&[u8]; 7] = [b"", b"\x04", b"Dark", b"a longer text with spaces, commas", "Zérüs".as_bytes(), &[0xff, 0xfe, 0x41], &[0xe2, 0x82]];
    for a in texts {
        for b in texts {
            for c in texts {
                for d in texts {
                    n += 1;
                    info(cx, "texts", &info_bytes(39, 100, 90, 1, [a, b, c, d], [1, 2, 99, 88], 0, b"tail"));
                }
            }
        }
    }
    cx.traces_add(n);
    for base in [info_bytes(39, 168, 152, 2, [b"\x04", b"", b"Dark", b"Zerus"], [14, 15, 154, 150], 1, b"rest"), info_bytes(24, 32, 256, 0, [b"ab", b"cd", b"", b""], [0, 0, 32, 256], 0, b"")] {
        damage(cx, &base, &|k, b| info(cx, k, b));
    }
    cx.phase("map info", json!({"structured": n}));
    // Derived dimensions.
    let make = |w: i32, h: i32, b: [i32; 4]| MapInfo { file_version: 39, cell_width: w, cell_height: h, cell_left: b[0], cell_bottom: b[1], cell_right: b[2], cell_top: b[3], ..Default::default() };
    for w in [1, 2, 168, 256] {
        for h in [1, 3, 152, 256] {
            for l in [0, 1, w / 2] {
                for b in [0, 2, h / 2] {
                    let (r, t) = (w, h - h / 4);
                    if l >= r || b >= t {
                        continue;
                    }
                    cx.trace();
                    let i = make(w, h, [l, b, r, t]);
                    let got = guard(|| {
                        (i.cell_dim_map(), i.terrain_dim_map(), i.cell_dim_playable(), i.terrain_dim_playable(), i.cell_left_bottom(), i.cell_right_top(), i.terrain_left_bottom(), PlayableTerrainCoord::from_map_terrain(&i, MapTerrainCoord::new(r, t)))
                    });
                    let c = MapCellCoord::new;
                    let m = MapTerrainCoord::new;
                    let want = Ok((c(w, h), m(w + 1, h + 1), c(r - l, t - b), m(r - l + 1, t - b + 1), c(l, b), c(r, t), m(l, b), PlayableTerrainCoord::new(r - l, t - b)));
                    cx.expect_eq("dimensions", &got, &want, || json!([w, h, l, b, r, t]));
                }
            }
        }
    }
    // Coordinates: every quarter of the map, exactly.
    let top = 257 * 4;
    let xs: Vec<i32> = (0..=top).collect();
    par_for(&xs, |&x| {
        for y in (0..=top).step_by(cx.pick(37, 1)) {
            let m = MapCoord::new(x as f32 / 4.0, y as f32 / 4.0);
            let cell = MapCellCoord::from(m);
            let ter = MapTerrainCoord::from(m);
            cx.steps(4);
            cx.expect_eq("coordinates/cell", &cell, &MapCellCoord::new(x / 4, y / 4), || json!([x, y]));
            cx.expect_eq("coordinates/terrain", &ter, &MapTerrainCoord::new((x + 2) / 4, (y + 2) / 4), || json!([x, y]));
            if x % 4 == 0 && y % 4 == 0 {
                let c = MapCellCoord::new(x / 4, y / 4);
                let t = MapTerrainCoord::new(x / 4, y / 4);
                cx.expect_eq("coordinates/center", &MapCoord::from(c), &MapCoord::new(x as f32 / 4.0 + 0.5, y as f32 / 4.0 + 0.5), || json!([x, y]));
                cx.expect_eq("coordinates/corner", &MapCoord::from(t), &m, || json!([x, y]));
                cx.expect_eq("coordinates/cell round trip", &MapCellCoord::from(MapCoord::from(c)), &c, || json!([x, y]));
                cx.expect_eq("coordinates/terrain round trip", &MapTerrainCoord::from(MapCoord::from(t)), &t, || json!([x, y]));
                cx.expect_eq("coordinates/playable", &PlayableTerrainCoord::from_map_terrain(&make(256, 256, [14, 3, 200, 100]), t), &PlayableTerrainCoord::new(x / 4 - 14, y / 4 - 3), || json!([x, y]));
            }
        }
    });
    cx.phase("coordinates", json!({"grid": "every quarter unit from 0 to 257"}));
    // Height maps.
    let dims: Vec<(i32, i32)> = (1..=5).flat_map(|w| (1..=5).map(move |h| (w, h))).collect();
    par_for(&dims, |&(w, h)| {
        let i = make(w, h, [0, 0, w, h]);
        let n = ((w + 1) * (h + 1)) as usize;
        cx.trace();
        for bad in 0..=n {
            for v in 0..=255u8 {
                heights(cx, "unit", &height_bytes(w + 1, h + 1, &|k| if k == bad { v } else { (k % 5) as u8 }, if bad % 2 == 0 { b"" } else { b"more" }), &i);
            }
        }
        let full = height_bytes(w + 1, h + 1, &|k| (k % 5) as u8, &[3; 20]);
        for cut in 0..full.len() {
            heights(cx, "cut", &full[..cut], &i);
        }
        for (dw, dh) in [(-1, 0), (0, -1), (1, 0), (0, 1), (h - w, w - h), (i32::MIN, 0), (-2 - 2 * w, -2 - 2 * h)] {
            heights(cx, "size", &height_bytes((w + 1).saturating_add(dw), (h + 1).saturating_add(dh), &|_| 1, &[1; 300]), &i);
        }
    });
    for (w, h) in [(168, 168), (256, 256), (256, 1), (1, 256), (200, 31)] {
        let i = make(w, h, [0, 0, w, h]);
        cx.trace();
        let full = height_bytes(w + 1, h + 1, &|k| ((k * 7 + k / 257) % 5) as u8, b"the rest");
        heights(cx, "large", &full, &i);
        for cut in [1, 8, 9, 10, 14, full.len() / 2] {
            heights(cx, "large-cut", &full[..full.len() - cut], &i);
        }
    }
    let i2 = make(1, 2, [0, 0, 1, 2]);
    damage(cx, &height_bytes(2, 3, &|k| (k % 5) as u8, b"xy"), &|k, b| heights(cx, k, b, &i2));
    cx.phase("height maps", json!({"sizes": "1..5 squared, every unit times every byte; five large ones"}));
    // Document headers.
    let names: [&[u8]; 8] = [b"DocInfo/Name", b"DocInfo/DescLong", b"DocInfo/DescShort", b"MapInfo/Player01/Name", b"DocInfo/HowToPlayBasic00", b"docinfo/name", b"", &[0xff, 0]];
    let values: [&[u8]; 5] = [b"", b"Tokamak LE", "Ümläut".as_bytes(), &[0xc3, 0x28, 0, 1], b"SUne"];
    let mut lists: Vec<Vec<(usize, usize)>> = vec![vec![]];
    let mut level = lists.clone();
    for _ in 0..cx.pick(2, 3) {
        level = level.iter().flat_map(|l: &Vec<(usize, usize)>| (0..names.len() * values.len()).map(move |i| l.iter().copied().chain([(i / 5, i % 5)]).collect())).collect();
        lists.extend(level.clone());
    }
    // longer ones, all orders of the known names with repetitions
    let mut level: Vec<Vec<(usize, usize)>> = vec![vec![]];
    for k in 0..cx.pick(5, 7) {
        level = level.iter().flat_map(|l| (0..4).map(move |i| l.iter().copied().chain([(i, (i + k) % 5)]).collect())).collect();
        lists.extend(level.clone());
    }
    cx.traces_add(lists.len() as u64);
    par_for(&lists, |l| {
        let f: Vec<(&[u8], &[u8])> = l.iter().map(|(a, b)| (names[*a], values[*b])).collect();
        for tail in [&b""[..], b"\0", b"\x05\0abc"] {
            doc(cx, "fields", &doc_bytes([1, -2, i32::MAX, i32::MIN], MOD.as_bytes(), &f, tail));
        }
    });
    for len in [1usize, 255, 256, 257, 32767, 32768, 65534, 65535] {
        let long = vec![b'y'; len];
        doc(cx, "long", &doc_bytes([0; 4], MOD.as_bytes(), &[(b"DocInfo/DescLong", &long), (&long, b"value"), (b"DocInfo/DescShort", b"end")], b"tail"));
    }
    let many: Vec<(&[u8], &[u8])> = (0..300).map(|i| (names[i % 8], values[i / 8 % 5])).collect();
    for n in [254, 255, 256, 257, 300] {
        doc(cx, "many", &doc_bytes([0; 4], MOD.as_bytes(), &many[..n], b"tail"));
    }
    for m in ["", "bnet:Swarm (Mod)/0.0/999,file:Mods/Swarm.SC2Mod", "bnet:Void (Mod)/0.0/999,file:Mods/Void.SC2Mod ", "xbnet:Void (Mod)/0.0/999,file:Mods/Void.SC2Mod"] {
        doc(cx, "mod", &doc_bytes([0; 4], m.as_bytes(), &many[..3], b"tail"));
    }
    damage(cx, &doc_bytes([93333, -2, 0x58c59ce7, 7], MOD.as_bytes(), &[(b"DocInfo/Name", b"Tokamak LE"), (b"MapInfo/Player03/Name", b"Hostile"), (b"DocInfo/DescShort", b"2")], b"rest"), &|k, b| doc(cx, k, b));
    cx.phase("document headers", json!({"field lists": lists.len()}));
    // Through an archive, under the names of the files.
    let a = info_bytes(39, 3, 2, 2, [b"\x04", b"", b"Dark", b"Zerus"], [0, 1, 3, 2], 1, b"rest");
    let h = height_bytes(4, 3, &|k| (k % 5) as u8, b"more");
    let d = doc_bytes([1, 2, 3, 4], MOD.as_bytes(), &[(b"DocInfo/Name", b"A map")], b"rest");
    for subset in 0..8u32 {
        let files: Vec<(&str, &[u8])> = [("MapInfo", &a[..]), ("t3HeightMap", &h), ("DocumentHeader", &d)].into_iter().enumerate().filter(|(i, _)| subset >> i & 1 == 1).map(|x| x.1).collect();
        let (bytes, mpq) = archive(87702, &files);
        cx.trace();
        cx.steps(3);
        let tail = |n: usize| n;
        let gi = guard(|| MapInfo::from_mpq(&mpq, &bytes).ok().map(|i| got_info(i, tail(4))));
        cx.expect_eq("archive/info", &gi, &Ok((subset & 1 != 0).then(|| ref_info(&a).unwrap())), || json!(subset));
        let gh = guard(|| T3HeightMap::from_mpq(&mpq, &bytes, &make(3, 2, [0, 1, 3, 2])).ok().map(|h| (h.width, h.height, h.data, tail(4))));
        cx.expect_eq("archive/heights", &gh, &Ok((subset & 2 != 0).then(|| ref_heights(&h, (3, 2)).unwrap())), || json!(subset));
        let gd = guard(|| DocumentHeader::from_mpq(&mpq, &bytes).ok().map(|i| got_doc(i, tail(4))));
        cx.expect_eq("archive/document", &gd, &Ok((subset & 4 != 0).then(|| ref_doc(&d).unwrap())), || json!(subset));
    }
    cx.sample(json!({"map info": hex(&a), "document header": hex(&d)}));
}
