//! Balance data: reading JSON and XML directories, writing JSON, and the included assets.
use super::*;
use crate::choose::{Chooser, explore};
use crate::rp::Scratch;
use s2protocol::game_events::*;
use serde_json::{Map, Value as J, json};
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Copy, PartialEq)]
enum K {
    Str,
    U32,
    U16,
    I64,
    F32,
    Obj(&'static str),
    List(&'static str),
}
use K::*;
#[derive(Clone, Copy, PartialEq)]
enum P {
    Req,
    /// Absent is null.
    Opt,
    /// Absent is the empty value.
    Def,
}
use P::*;

/// The recorded shape of the balance data.
fn shape(name: &str) -> &'static [(&'static str, K, P)] {
    match name {
        "unit" => &[
            ("@id", Str, Req),
            ("meta", Obj("meta"), Req),
            ("life", Obj("life"), Req),
            ("shields", Obj("shields"), Opt),
            ("armor", Obj("pair"), Req),
            ("shieldArmor", Obj("pair"), Req),
            ("requires", Obj("units"), Def),
            ("cost", Obj("cost"), Opt),
            ("researches", Obj("researches"), Opt),
            ("movement", Obj("movement"), Opt),
            ("score", Obj("score"), Req),
            ("misc", Obj("misc"), Req),
            ("producer", Obj("named"), Opt),
            ("attributes", Obj("attributes"), Def),
            ("strengths", Obj("units"), Def),
            ("weaknesses", Obj("units"), Def),
            ("weapons", Obj("weapons"), Def),
            ("abilities", Obj("abilities"), Def),
            ("builds", Obj("refs"), Def),
            ("trains", Obj("refs"), Def),
            ("upgrades", Obj("upgrades"), Def),
        ],
        "meta" => &[("@name", Str, Req), ("@tooltip", Str, Req), ("@icon", Str, Opt), ("@race", Str, Opt), ("@hotkey", Str, Opt), ("@source", Str, Opt), ("@index", U32, Opt), ("@type", Str, Opt)],
        "life" => &[("@start", U32, Req), ("@max", U32, Req), ("@regenRate", F32, Opt)],
        "shields" => &[("@start", U32, Req), ("@max", U32, Req), ("@regenRate", F32, Req), ("@delay", F32, Opt)],
        "pair" => &[("@start", U32, Req), ("@max", U32, Req)],
        "named" => &[("@id", Str, Req), ("@name", Str, Req)],
        "units" => &[("unit", List("named"), Def)],
        "cost" => &[("@minerals", U32, Opt), ("@vespene", U32, Opt), ("@supply", F32, Opt), ("@time", F32, Opt), ("@energy", U32, Opt), ("@cooldown", F32, Opt), ("@life", U32, Opt)],
        "researches" => &[("upgrade", List("research"), Def)],
        "research" => &[("@id", Str, Req), ("@ability", U16, Req), ("@index", I64, Req), ("meta", Obj("meta"), Req), ("cost", Obj("cost"), Req)],
        "movement" => &[("@type", Str, Req), ("@speed", F32, Req), ("@acceleration", F32, Req), ("@deceleration", F32, Req), ("@turnRate", F32, Opt)],
        "score" => &[("@build", U32, Opt), ("@kill", U32, Opt)],
        "misc" => &[
            ("@radius", F32, Opt),
            ("@cargoSize", U32, Opt),
            ("@footprint", Str, Opt),
            ("@sightRadius", F32, Opt),
            ("@supply", F32, Opt),
            ("@range", F32, Opt),
            ("@speed", F32, Opt),
            ("@targets", Str, Opt),
            ("@count", U32, Opt),
            ("@cargoCapacity", U32, Opt),
        ],
        "attributes" => &[("attribute", List("attribute"), Def)],
        "attribute" => &[("@type", Str, Opt)],
        "weapons" => &[("weapon", List("weapon"), Def)],
        "weapon" => &[("@id", Str, Req), ("@index", U32, Req), ("meta", Obj("meta"), Req), ("misc", Obj("misc"), Opt), ("score", Obj("effect"), Opt)],
        "effect" => &[("@id", Str, Req), ("@index", U32, Req), ("@radius", F32, Req), ("@damage", U32, Req), ("@max", U32, Req), ("@death", Str, Req), ("@kind", Str, Req), ("bonus", Obj("bonus"), Opt)],
        "bonus" => &[("@damage", U32, Req), ("@max", U32, Req), ("@type", Str, Opt)],
        "abilities" => &[("ability", List("ability"), Def)],
        "ability" => &[("@id", Str, Req), ("@index", U16, Opt), ("command", List("command"), Def)],
        "command" => &[("@id", Str, Opt), ("@index", I64, Req), ("meta", Obj("meta"), Req)],
        "refs" => &[("unit", List("ref"), Def)],
        "ref" => &[("@id", Str, Req), ("@name", Str, Opt), ("@ability", U16, Opt), ("@index", I64, Opt), ("meta", Obj("meta"), Opt), ("cost", Obj("cost"), Opt), ("requires", Obj("units"), Def)],
        "upgrades" => &[("upgrade", List("upgrade"), Def)],
        "upgrade" => &[("@id", Str, Req), ("level", List("level"), Def)],
        "level" => &[("@id", Str, Def), ("@index", U32, Def), ("meta", Obj("meta"), Req), ("requires", List("level-requires"), Def), ("cost", Obj("cost"), Req)],
        "level-requires" => &[("unit", List("named"), Def), ("upgrade", List("upgrade-ref"), Def)],
        "upgrade-ref" => &[("@id", Str, Def), ("@name", Str, Req)],
        n => panic!("{n}"),
    }
}

struct Make<'a> {
    c: &'a mut Chooser,
    /// Everything that can be there is there.
    rich: bool,
    serial: u32,
    /// What deviates, for the classification of the known finding.
    xml: bool,
}

const TEXTS: [&str; 5] = ["", "a & b < c > d \"e\" 'f'", "Zérüs ✓", "  spaces  ", "1"];

impl Make<'_> {
    /// What is stored and what is to be read.
    fn obj(&mut self, name: &'static str) -> (J, J) {
        let (mut input, mut want) = (Map::new(), Map::new());
        for (k, kind, p) in shape(name) {
            let there = match p {
                Req => true,
                _ => self.c.flip() != self.rich,
            };
            if there {
                let (i, w) = self.value(*kind);
                input.insert(k.to_string(), i);
                want.insert(k.to_string(), w);
            } else if *p == Def {
                want.insert(k.to_string(), empty(*kind));
            } else if !self.xml && self.rich {
                // an explicit null is the same as nothing
                input.insert(k.to_string(), J::Null);
            }
        }
        (J::Object(input), J::Object(want))
    }
    fn value(&mut self, k: K) -> (J, J) {
        self.serial += 1;
        let s = self.serial;
        let one = |v: J| (v.clone(), v);
        match k {
            Str => {
                let i = self.c.choose(TEXTS.len() + 1);
                one(if i == 0 { json!(format!("text{s}")) } else { json!(TEXTS[i - 1]) })
            }
            U32 => one(json!([s, 0, u32::MAX, 65536][self.c.choose(4)])),
            U16 => one(json!([s as u16, 0, u16::MAX][self.c.choose(3)])),
            I64 => one(json!([s as i64, 0, -1, i64::MAX, i64::MIN][self.c.choose(5)])),
            F32 => {
                let v = [s as f32 + 0.5, 0.0, 2.9531, -1.0, 999.8437, f32::MAX, f32::MIN_POSITIVE][self.c.choose(7)];
                one(json!(v))
            }
            Obj(n) => self.obj(n),
            List(n) => {
                let c = self.c.choose(4);
                let len = if self.rich { [2, 0, 1, 3] } else { [0, 1, 2, 3] }[c];
                let (mut a, mut b) = (vec![], vec![]);
                for _ in 0..len {
                    let (x, y) = self.obj(n);
                    a.push(x);
                    b.push(y);
                }
                (json!(a), json!(b))
            }
        }
    }
}
fn empty(k: K) -> J {
    match k {
        Str => json!(""),
        U32 | U16 | I64 => json!(0),
        F32 => json!(0.0),
        List(_) => json!([]),
        Obj(n) => J::Object(shape(n).iter().filter(|f| f.2 == Def).map(|f| (f.0.to_string(), empty(f.1))).collect()),
    }
}
/// Without the fields that are null, numbers in single precision where they are fractional.
fn bare(j: &J) -> J {
    match j {
        J::Object(o) => J::Object(o.iter().filter(|x| !x.1.is_null()).map(|(k, v)| (k.clone(), bare(v))).collect()),
        J::Array(a) => J::Array(a.iter().map(bare).collect()),
        J::Number(n) => match n.as_f64() {
            Some(f) if n.is_f64() => json!((f as f32) as f64),
            _ => j.clone(),
        },
        j => j.clone(),
    }
}
/// Without what is empty, all numbers alike.
fn tight(j: &J) -> J {
    match j {
        J::Object(o) => J::Object(o.iter().map(|(k, v)| (k.clone(), tight(v))).filter(|x| !x.1.is_null() && x.1 != json!([]) && x.1 != json!({})).collect()),
        J::Array(a) => J::Array(a.iter().map(tight).collect()),
        J::Number(n) if n.is_f64() => json!(n.as_f64().unwrap() as f32),
        J::Number(n) => json!(n.to_string()),
        j => j.clone(),
    }
}

fn escape(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\'', "&apos;")
}
fn scalar(j: &J) -> String {
    match j {
        J::String(s) => s.clone(),
        J::Number(n) if n.is_f64() => format!("{}", n.as_f64().unwrap() as f32),
        j => j.to_string(),
    }
}
/// The element; `style` turns the order of the children and adds what is to be ignored.
fn xml(tag: &str, kind: &str, j: &J, style: usize, out: &mut String) {
    let o = j.as_object().unwrap();
    let pad = if style & 1 == 1 { "\n  " } else { "" };
    out.push_str(&format!("{pad}<{tag}"));
    if style & 4 == 4 {
        out.push_str(" unheard=\"of\"");
    }
    for (k, v) in o {
        if let Some(k) = k.strip_prefix('@') {
            out.push_str(&format!(" {k}=\"{}\"", escape(&scalar(v))));
        }
    }
    let mut kids: Vec<(&str, &str, &J)> = vec![];
    for (k, kind, _) in shape(kind) {
        let Some(v) = o.get(*k) else { continue };
        let name = if *k == "score" && *kind == Obj("effect") { "effect" } else { k };
        match kind {
            Obj(n) => kids.push((name, n, v)),
            List(n) => kids.extend(v.as_array().unwrap().iter().map(|x| (name, *n, x))),
            _ => (),
        }
    }
    if style & 8 == 8 {
        // Other orders of the elements, equal ones staying together.
        kids.sort_by_key(|k| std::cmp::Reverse(k.0.to_string()));
    }
    if kids.is_empty() && style & 2 == 0 {
        return out.push_str("/>");
    }
    out.push('>');
    if style & 2 == 2 {
        out.push_str("<!-- a remark -->");
    }
    if style & 4 == 4 {
        out.push_str("<stranger id=\"1\"><deep/></stranger>");
    }
    for (k, n, v) in kids {
        xml(k, n, v, style, out);
    }
    out.push_str(&format!("{pad}</{tag}>"));
}
pub fn xml_file(j: &J, style: usize) -> String {
    let mut out = String::from(if style & 1 == 1 { "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n" } else { "" });
    xml("unit", "unit", j, style, &mut out);
    out
}

type Read = Result<Result<BTreeMap<(u32, String), (u32, J)>, String>, String>;
fn tidy<E: std::fmt::Display>(f: impl FnOnce() -> Result<MultiVersionedBalanceUnits, E>) -> Read {
    guard(|| f().map(|m| m.into_iter().map(|(k, u)| (k, (u.version, json!(u)))).collect()).map_err(|e| e.to_string()))
}
fn read_json(p: &Path) -> Read {
    tidy(|| read_balance_data_from_json_dir(p))
}
fn read_xml(p: &Path) -> Read {
    tidy(|| traverse_versioned_balance_abilities(p))
}

type Want = BTreeMap<(u32, String), J>;
fn same(cx: &Ctx, key: &str, got: &Read, want: &Want, known_effect: bool, replay: &dyn Fn() -> J) {
    cx.steps(1);
    let got = match got {
        Ok(Ok(g)) => g,
        Ok(Err(e)) => return cx.violation(&format!("{key}/error"), e, replay()),
        Err(p) => return cx.violation(&format!("{key}/panic"), p, replay()),
    };
    if got.keys().ne(want.keys()) {
        return cx.violation(&format!("{key}/units"), &trunc(&format!("got {:?} want {:?}", got.keys(), want.keys())), replay());
    }
    for ((k, (v, g)), w) in got.iter().zip(want.values()) {
        if *v != k.0 {
            cx.violation(&format!("{key}/version"), &format!("{k:?} says it is of version {v}"), replay());
        }
        let (g, mut w) = (bare(g), bare(w));
        if known_effect && g != w {
            // The effects of the weapons on their own.
            let had = strip(&mut w);
            if had && g == w {
                cx.violation("xml/weapon-effect", "the effect of a weapon is not read", replay());
                continue;
            }
        }
        if g != w {
            let f = p06::diff(&g, &w);
            cx.violation(&format!("{key}/{f}"), &format!("{f}: got {} want {}", trunc(&g.to_string()), trunc(&w.to_string())), replay());
        }
    }
}
fn strip(u: &mut J) -> bool {
    let mut had = false;
    for w in u["weapons"]["weapon"].as_array_mut().into_iter().flatten() {
        had |= w.as_object_mut().unwrap().remove("score").is_some();
    }
    had
}

fn units(k: usize, rich: bool, xml: bool) -> Vec<(J, J)> {
    let mut out = vec![];
    explore(k, |c: &mut Chooser| {
        out.push(Make { c, rich, serial: 0, xml }.obj("unit"));
    });
    out
}

/// The same, at most `size` at a time: they are too many to keep.
fn in_batches(k: usize, rich: bool, xml: bool, size: usize, mut f: impl FnMut(&[(J, J)])) {
    let mut out = vec![];
    explore(k, |c: &mut Chooser| {
        out.push(Make { c, rich, serial: 0, xml }.obj("unit"));
        if out.len() == size {
            f(&out);
            out.clear();
        }
    });
    if !out.is_empty() {
        f(&out);
    }
}

pub fn run(cx: &Ctx) {
    let s = Scratch::new();
    // Records: each unit in a directory of its own.
    for (rich, k) in [(false, cx.pick(2, 3)), (true, 1)] {
        for is_xml in [false, true] {
            let mut made = 0;
            in_batches(k, rich, is_xml, 1 << 14, |all| {
            let chunks: Vec<(usize, &[(J, J)])> = all.chunks(64).enumerate().map(|(n, c)| (made / 64 + n, c)).collect();
            made += all.len();
            par_for(&chunks, |(n, c)| {
                let root = s.path().join(format!("r{rich}{is_xml}{n}"));
                let mut want = Want::new();
                let dir = root.join("95001").join(if is_xml { "BalanceData" } else { "" });
                std::fs::create_dir_all(&dir).unwrap();
                for (i, (input, w)) in c.iter().enumerate() {
                    cx.state_bytes(format!("{is_xml}{input}").as_bytes());
                    cx.trace();
                    let (mut input, mut w) = (input.clone(), w.clone());
                    let id = format!("U{i}");
                    if is_xml {
                        // the unit goes by its id
                        input["@id"] = json!(id);
                        w["@id"] = json!(id);
                        std::fs::write(dir.join(format!("{i}.xml")), xml_file(&input, (n * 64 + i) % 16)).unwrap();
                    } else {
                        std::fs::write(dir.join(format!("{id}.json")), input.to_string()).unwrap();
                    }
                    want.insert((95001, id), w);
                }
                let got = if is_xml { read_xml(&root) } else { read_json(&root) };
                if got.as_ref().is_ok_and(|g| g.as_ref().is_ok_and(|g| g.len() == want.len())) {
                    same(cx, if is_xml { "xml" } else { "json" }, &got, &want, is_xml, &|| json!({"first": c[0].0}));
                } else {
                    // Which one is it?
                    for (i, (input, w)) in c.iter().enumerate() {
                        let one = s.path().join(format!("o{rich}{is_xml}{n}"));
                        let dir = one.join("95001").join(if is_xml { "BalanceData" } else { "" });
                        std::fs::create_dir_all(&dir).unwrap();
                        let (mut input, mut w) = (input.clone(), w.clone());
                        let id = format!("U{i}");
                        if is_xml {
                            input["@id"] = json!(id);
                            w["@id"] = json!(id);
                            std::fs::write(dir.join("u.xml"), xml_file(&input, (n * 64 + i) % 16)).unwrap();
                        } else {
                            std::fs::write(dir.join(format!("{id}.json")), input.to_string()).unwrap();
                        }
                        let got = if is_xml { read_xml(&one) } else { read_json(&one) };
                        same(cx, if is_xml { "xml" } else { "json" }, &got, &Want::from([((95001, id), w)]), is_xml, &|| json!({"unit": input, "xml": xml_file(&input, (n * 64 + i) % 16)}));
                        let _ = std::fs::remove_dir_all(&one);
                    }
                }
                if !is_xml {
                    // Written and read again.
                    if let Ok(Ok(g)) = guard(|| read_balance_data_from_json_dir(&root).map_err(|e| e.to_string())) {
                        let out = s.path().join(format!("w{rich}{n}"));
                        std::fs::create_dir_all(&out).unwrap();
                        if let Ok(Err(e)) | Err(e) = guard(|| write_balance_data_to_json(&out, g).map_err(|e| e.to_string())) {
                            cx.violation("write/error", &e, json!(null));
                        }
                        same(cx, "write", &read_json(&out), &want, false, &|| json!({"first": c[0].0}));
                        std::fs::remove_dir_all(&out).unwrap();
                    }
                }
                std::fs::remove_dir_all(&root).unwrap();
            });
            });
            cx.phase(&format!("records {} {}", if rich { "full" } else { "bare" }, if is_xml { "xml" } else { "json" }), json!({"deviations": k, "units": made}));
        }
    }
    // Directories: what is a version, what is a unit.
    let lean = |id: &str, n: u32| {
        let mut j = crate::sm::minimal_unit(id, Some(n as f32));
        j["life"]["@max"] = json!(n);
        j
    };
    let full = |j: &J| {
        let u: VersionedBalanceUnit = serde_json::from_value(j.clone()).unwrap();
        json!(u)
    };
    // (name, version if it is one)
    let more: [(&str, Option<u32>); 8] = [("95001", Some(95001)), ("v95004", None), ("95 005", None), (" 95006", None), ("95007 ", None), ("95008.0", None), ("0x5f5e", None), ("95_009", None)];
    let plain: [(&str, Option<u32>); 8] = [("95001", Some(95001)), ("95002", Some(95002)), ("0", Some(0)), ("4294967295", Some(u32::MAX)), ("4294967296", None), ("abc", None), ("95001a", None), ("-1", None)];
    for (is_xml, dirs) in [(false, plain), (true, plain), (false, more), (true, more)] {
        let sets: Vec<u32> = (0..256).collect();
        par_for(&sets, |set| {
            for layout in 0..4usize {
                let root = s.path().join(format!("d{is_xml}{set}-{layout}"));
                std::fs::create_dir_all(&root).unwrap();
                let mut want = Want::new();
                let put = |p: &Path, j: &J| std::fs::write(p, if is_xml { xml_file(j, layout) } else { j.to_string() }).unwrap();
                for (i, (name, v)) in dirs.iter().enumerate() {
                    if set >> i & 1 == 0 {
                        continue;
                    }
                    let top = root.join(name);
                    let dir = if is_xml { top.join("BalanceData") } else { top.clone() };
                    std::fs::create_dir_all(if is_xml && layout == 3 { &top } else { &dir }).unwrap();
                    if is_xml && layout == 3 {
                        // no data, or not where it is looked for
                        put(&top.join("Probe.xml"), &lean("Probe", 1));
                        if i % 2 == 0 {
                            std::fs::write(top.join("BalanceData"), b"a file").unwrap();
                        }
                        continue;
                    }
                    let ext = if is_xml { "xml" } else { "json" };
                    for u in 0..layout.min(2) + 1 {
                        let id = ["Probe", "Zergling Mk. 2", "SCV"][u];
                        let j = lean(id, (i * 10 + u) as u32);
                        put(&dir.join(format!("{id}.{ext}")), &j);
                        if let Some(v) = v {
                            want.insert((*v, id.into()), full(&j));
                        }
                    }
                    // What is no unit.
                    std::fs::create_dir_all(dir.join(format!("folder.{ext}"))).unwrap();
                    put(&dir.join(format!("folder.{ext}")).join(format!("Deep.{ext}")), &lean("Deep", 9));
                    if is_xml {
                        std::fs::write(dir.join("notes.txt"), b"<unit/>").unwrap();
                        put(&dir.join("Other.XML"), &lean("Other", 9));
                        std::fs::write(dir.join("broken.xml"), b"<unit id=\"B\"><meta").unwrap();
                        std::fs::write(dir.join("empty.xml"), b"").unwrap();
                        std::fs::write(dir.join("half.xml"), b"<unit id=\"Half\"><meta name=\"1\" tooltip=\"2\"/></unit>").unwrap();
                    }
                }
                // Files beside the versions.
                put(&root.join("95003"), &lean("X", 1));
                put(&root.join("Y.json"), &lean("Y", 1));
                cx.trace();
                let got = if is_xml { read_xml(&root) } else { read_json(&root) };
                same(cx, if is_xml { "xml/directories" } else { "json/directories" }, &got, &want, false, &|| json!({"directories": set, "layout": layout}));
                std::fs::remove_dir_all(&root).unwrap();
            }
        });
    }
    cx.phase("directories", json!({"subsets of names": 512, "layouts": 4}));
    // No directory: nothing from XML, an error from JSON. A broken file: an error from JSON.
    let file = s.file("plain", b"x");
    for p in [file.clone(), s.path().join("nowhere")] {
        same(cx, "xml/none", &read_xml(&p), &Want::new(), false, &|| json!(p.to_str()));
        if !matches!(read_json(&p), Ok(Err(_))) {
            cx.violation("json/none", "no error", json!(p.to_str()));
        }
    }
    let good = lean("Probe", 5).to_string();
    let dir = s.path().join("broken").join("1");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join("A.json"), &good).unwrap();
    for cut in 0..good.len() {
        std::fs::write(dir.join("B.json"), &good[..cut]).unwrap();
        cx.steps(1);
        if !matches!(read_json(dir.parent().unwrap()), Ok(Err(_))) {
            cx.violation("json/broken", "no error", json!({"file": &good[..cut]}));
        }
    }
    for (k, _, p) in shape("unit") {
        // Every required part is required.
        let mut j = lean("Probe", 5);
        if *p == Req {
            j.as_object_mut().unwrap().remove(*k);
            std::fs::write(dir.join("B.json"), j.to_string()).unwrap();
            cx.steps(1);
            if !matches!(read_json(dir.parent().unwrap()), Ok(Err(_))) {
                cx.violation("json/required", "no error", json!({"without": k}));
            }
        }
    }
    // Writing: any keys, over what is there.
    let lists: Vec<u32> = (0..512).collect();
    par_for(&lists, |set| {
        let out = s.path().join(format!("write{set}"));
        std::fs::create_dir_all(out.join("1")).unwrap();
        std::fs::write(out.join("1").join("Probe.json"), lean("Probe", 77).to_string().repeat(3)).unwrap();
        std::fs::write(out.join("1").join("Probe.json"), lean("Probe", 77).to_string()).unwrap();
        let mut want = Want::from([((1, "Probe".to_string()), full(&lean("Probe", 77)))]);
        let mut m = MultiVersionedBalanceUnits::new();
        for (i, (v, n)) in [(1u32, "Probe"), (1, "SCV"), (2, "Probe"), (2, "a.b c"), (u32::MAX, "Ünit"), (0, "Zealot"), (2, "a.json"), (2, "a"), (0, "")].into_iter().enumerate() {
            if set >> i & 1 == 1 {
                let j = lean("SomeId", i as u32);
                let mut u: VersionedBalanceUnit = serde_json::from_value(j.clone()).unwrap();
                u.version = 4711;
                m.insert((v, n.into()), u);
                want.insert((v, n.into()), full(&j));
            }
        }
        cx.trace();
        if let Ok(Err(e)) | Err(e) = guard(|| write_balance_data_to_json(&out, m).map_err(|e| e.to_string())) {
            cx.violation("write/error", &e, json!(set));
        }
        same(cx, "write/keys", &read_json(&out), &want, false, &|| json!({"set": set}));
    });
    // The included assets are the files, unit by unit.
    let got = tidy(read_balance_data_from_included_assets);
    match got {
        Ok(Ok(g)) => {
            let mut n = 0;
            let mut seen = std::collections::BTreeSet::new();
            for d in std::fs::read_dir("/repo/assets/BalanceData").unwrap().flatten() {
                let Ok(v) = d.file_name().to_string_lossy().parse::<u32>() else { continue };
                for f in std::fs::read_dir(d.path()).unwrap().flatten() {
                    let name = f.file_name().to_string_lossy().strip_suffix(".json").unwrap().to_string();
                    let j: J = serde_json::from_slice(&std::fs::read(f.path()).unwrap()).unwrap();
                    cx.steps(1);
                    cx.trace();
                    n += 1;
                    seen.insert((v, name.clone()));
                    match g.get(&(v, name.clone())) {
                        Some((ver, u)) => {
                            if *ver != v {
                                cx.violation("included/version", &format!("{name} of {v} says {ver}"), json!([v, name]));
                            }
                            if tight(u) != tight(&j) {
                                let f = p06::diff(&tight(u), &tight(&j));
                                cx.violation(&format!("included/{f}"), &format!("{name} of {v}: {f}"), json!([v, name]));
                            }
                        }
                        None => cx.violation("included/missing", &format!("{name} of {v}"), json!([v, name])),
                    }
                }
            }
            if let Some(k) = g.keys().find(|k| !seen.contains(k)) {
                cx.violation("included/more", &format!("{k:?}"), json!(format!("{k:?}")));
            }
            cx.states_add(n);
            cx.phase("included assets", json!({"units": n}));
        }
        r => cx.violation("included/error", &format!("{:?}", r.map(|r| r.err())), json!(null)),
    }
    cx.sample(lean("Probe", 5));
}
