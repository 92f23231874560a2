//! The name of an ability command: every small combination of ability, train, build and research
//! lists, and every command of the included balance data.
use super::*;
use crate::sm::minimal_unit;
use s2protocol::game_events::*;
use serde_json::{Value as J, json};
use std::collections::HashMap;

/// What a command is called, read off the plain data.
pub fn name(unit: &J, ability: i64, command: i64) -> String {
    let list = |k: &str, inner: &str| unit[k][inner].as_array().cloned().unwrap_or_default();
    for a in list("abilities", "ability") {
        if a["@index"].as_i64() == Some(ability) {
            for c in a["command"].as_array().unwrap_or(&vec![]) {
                if c["@index"].as_i64() == Some(command) {
                    return format!("{}.{}", a["@id"].as_str().unwrap(), c["@id"].as_str().unwrap_or(""));
                }
            }
        }
    }
    for (k, inner, word) in [("trains", "unit", "Train"), ("builds", "unit", "Build"), ("researches", "upgrade", "Research")] {
        for u in list(k, inner) {
            if u["@ability"].as_i64() == Some(ability) && u["@index"].as_i64() == Some(command) {
                return format!("{word}.{}", u["@id"].as_str().unwrap());
            }
        }
    }
    String::new()
}

fn lists<T: Clone>(items: &[T], n: usize) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    let mut level: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..n {
        level = level.iter().flat_map(|l| items.iter().map(move |i| l.iter().cloned().chain([i.clone()]).collect())).collect();
        out.extend(level.clone());
    }
    out
}

pub fn run(cx: &Ctx) {
    let meta = json!({"@name": "1", "@tooltip": "2"});
    let wide = cx.thorough;
    let commands: Vec<J> = [None, Some("Go")].iter().flat_map(|id| [0i64, 1].map(|i| json!({"@id": id, "@index": i, "meta": meta}))).collect();
    let mut abilities: Vec<J> = vec![];
    for (n, ix) in [None, Some(10), Some(11)].iter().enumerate() {
        for c in lists(&commands, 2) {
            abilities.push(json!({"@id": format!("abil{n}"), "@index": ix, "command": c}));
        }
    }
    let few: Vec<J> = abilities.iter().filter(|a| a["command"].as_array().unwrap().len() < 2).cloned().collect();
    let refs: Vec<J> = [None, Some(10), Some(11)].iter().flat_map(|a| [None, Some(0i64), Some(1)].map(|i| json!({"@id": "X", "@ability": a, "@index": i}))).collect();
    let research: Vec<J> = [10, 11].iter().flat_map(|a| [0i64, 1].map(|i| json!({"@id": "Up", "@ability": a, "@index": i, "meta": meta, "cost": {}}))).collect();
    let named = |l: &[J], p: &str| -> Vec<J> {
        l.iter()
            .enumerate()
            .map(|(i, x)| {
                let mut x = x.clone();
                x["@id"] = json!(format!("{p}{i}"));
                x
            })
            .collect()
    };
    let abils: Vec<Vec<J>> = if wide { lists(&abilities, 2) } else { lists(&abilities, 1).into_iter().chain(lists(&few, 2).into_iter().filter(|l| l.len() == 2)).collect() };
    let short = lists(&refs, 1);
    let long = lists(&refs, 2);
    let researches: Vec<Option<Vec<J>>> = [None].into_iter().chain(lists(&research, if wide { 2 } else { 1 }).into_iter().map(Some)).collect();
    let queries: Vec<(u16, i64)> = [0u16, 10, 11, u16::MAX].iter().flat_map(|a| [-1i64, 0, 1, 2].map(|c| (*a, c))).collect();
    let try_unit = |base: &VersionedBalanceUnit, u: &VersionedBalanceUnit, j: &J| {
        let _ = base;
        let book: VersionedBalanceUnits = HashMap::from([("Unit".to_string(), u.clone())]);
        for (a, c) in &queries {
            cx.steps(1);
            let want = name(j, *a as i64, *c);
            match guard(|| get_indexed_ability_command_name(&book, "Unit", *a, *c)) {
                Ok(got) if got == want => (),
                Ok(got) => cx.violation("name", &format!("command {c} of ability {a} is {got:?}, not {want:?}"), json!({"unit": j, "ability": a, "command": c})),
                Err(p) => cx.violation("name/panic", &p, json!({"unit": j, "ability": a, "command": c})),
            }
            for other in ["", "unit", "Unit "] {
                cx.expect_eq("unknown", &get_indexed_ability_command_name(&book, other, *a, *c), &String::new(), || json!(other));
            }
        }
        cx.trace();
        cx.states_add(1);
    };
    let base: VersionedBalanceUnit = serde_json::from_value(minimal_unit("Unit", None)).unwrap();
    // Abilities against one of each of the others, and the lists of the others against few abilities.
    let mut jobs: Vec<(&Vec<J>, &Vec<J>, &Vec<J>, &Option<Vec<J>>)> = vec![];
    for a in &abils {
        for (i, t) in short.iter().enumerate() {
            for (k, r) in researches.iter().enumerate() {
                if wide && a.len() == 2 && i > 1 && k > 2 {
                    continue;
                }
                jobs.push((a, t, &short[(i + k) % short.len()], r));
            }
        }
    }
    let some: Vec<Vec<J>> = vec![vec![], vec![few[few.len() - 1].clone()]];
    for a in &some {
        for t in &long {
            for b in if wide { &long } else { &short } {
                for r in if wide { &researches[..] } else { &researches[..3] } {
                    jobs.push((a, t, b, r));
                }
            }
        }
    }
    for t in &short {
        for b in &long {
            for r in &researches {
                jobs.push((&some[1], t, b, r));
            }
        }
    }
    let chunks: Vec<&[(&Vec<J>, &Vec<J>, &Vec<J>, &Option<Vec<J>>)]> = jobs.chunks(512).collect();
    par_for(&chunks, |c| {
        for (a, t, b, r) in *c {
            let mut j = json!({"abilities": {"ability": a}, "trains": {"unit": named(t, "T")}, "builds": {"unit": named(b, "B")}});
            if let Some(r) = r {
                j["researches"] = json!({"upgrade": named(r, "R")});
            }
            let mut u = base.clone();
            u.abilities = serde_json::from_value(j["abilities"].clone()).unwrap();
            u.trains = serde_json::from_value(j["trains"].clone()).unwrap();
            u.builds = serde_json::from_value(j["builds"].clone()).unwrap();
            u.researches = serde_json::from_value(j["researches"].clone()).unwrap();
            try_unit(&base, &u, &j);
        }
    });
    cx.phase("units", json!({"combinations": jobs.len(), "queries each": queries.len()}));
    // Boundary numbers, in each of the places.
    let ixs = [0u16, 1, 2, 127, 128, 255, 256, 257, 511, 512, 32767, 32768, 65534, 65535];
    let cs = [0i64, 1, 2, 3, -1, 127, 128, 255, 256, 257, 511, 65535, 65536, 65537, 1 << 31, (1 << 31) - 1, 1 << 32, (1 << 32) + 1, i64::MAX, i64::MIN];
    let places = ["abilities", "trains", "builds", "researches"];
    // A unit with one command in a place.
    let one = |place: &str, id: &str, ix: u16, c: i64| match place {
        "abilities" => json!({"abilities": {"ability": [{"@id": id, "@index": ix, "command": [{"@id": "c", "@index": c, "meta": meta}]}]}}),
        "researches" => json!({"researches": {"upgrade": [{"@id": id, "@ability": ix, "@index": c, "meta": meta, "cost": {}}]}}),
        _ => json!({place: {"unit": [{"@id": id, "@ability": ix, "@index": c}]}}),
    };
    let fill = |j: &J| {
        let mut u = base.clone();
        let or = |k: &str, d: J| if j[k].is_null() { d } else { j[k].clone() };
        u.abilities = serde_json::from_value(or("abilities", json!({"ability": []}))).unwrap();
        u.trains = serde_json::from_value(or("trains", json!({"unit": []}))).unwrap();
        u.builds = serde_json::from_value(or("builds", json!({"unit": []}))).unwrap();
        u.researches = serde_json::from_value(or("researches", J::Null)).unwrap();
        u
    };
    let ask = |key: &str, unit: &str, u: VersionedBalanceUnit, j: &J, ixs: &[u16], cs: &[i64]| {
        let book: VersionedBalanceUnits = HashMap::from([(unit.to_string(), u)]);
        cx.trace();
        for ix in ixs {
            for c in cs {
                cx.steps(1);
                cx.expect_eq(key, &get_indexed_ability_command_name(&book, unit, *ix, *c), &name(j, *ix as i64, *c), || json!([j, ix, c]));
            }
        }
    };
    let jobs: Vec<(&str, u16, i64)> = places.iter().flat_map(|p| ixs.map(|i| cs.map(|c| (*p, i, c)))).flatten().collect();
    par_for(&jobs, |(p, i, c)| {
        let j = one(p, "a", *i, *c);
        ask("numbers", "Unit", fill(&j), &j, &ixs, &cs);
    });
    cx.states_add(jobs.len() as u64);
    // Texts: the unit's own name among them.
    let texts = ["", "Unit", "unit", "Train", "Build.", "a.b", " ", "Ärena", "0", "Research.Unit", "SCV"];
    for p in places {
        for id in texts {
            for unit in ["Unit", "", "SCV", "Ärena"] {
                let j = one(p, id, 7, 1);
                ask("texts", unit, fill(&j), &j, &[7, 8], &[0, 1, 2]);
            }
        }
        // Commands without a name beside those with one, and without commands.
        for list in [vec![], vec![None], vec![Some("x"), None], vec![None, Some("x")], vec![Some(""), Some("Unit")]] {
            let c: Vec<J> = list.iter().enumerate().map(|(i, n)| json!({"@id": n, "@index": i, "meta": meta})).collect();
            let mut j = one(p, "other", 7, 1);
            let mut l = vec![json!({"@id": "first", "@index": 7, "command": c})];
            l.extend(j["abilities"]["ability"].as_array().cloned().unwrap_or_default());
            j["abilities"] = json!({"ability": l});
            ask("nameless", "Unit", fill(&j), &j, &[7, 8], &[0, 1, 2]);
        }
        // Long lists: the last of many.
        for n in [16usize, 33, 64, 100, 300] {
            let mut j = one(p, "a", 0, 0);
            let inner = match p {
                "abilities" => "ability",
                "researches" => "upgrade",
                _ => "unit",
            };
            let l: Vec<J> = (0..n)
                .map(|i| {
                    let mut x = j[p][inner][0].clone();
                    x["@id"] = json!(format!("n{i}"));
                    x[if p == "abilities" { "@index" } else { "@ability" }] = json!(i);
                    if p == "abilities" {
                        x["command"] = json!((0..n.min(40)).map(|c| json!({"@id": format!("c{c}"), "@index": c, "meta": meta})).collect::<Vec<_>>());
                    }
                    x
                })
                .collect();
            j[p][inner] = json!(l);
            let n = n as u16;
            let all = [0, 1, 14, 15, 16, n / 2, n - 2, n - 1, n];
            ask("long", "Unit", fill(&j), &j, &all, &[0, 1, 30, 39, 40]);
        }
    }
    cx.phase("numbers", json!({"places": places, "abilities": ixs.len(), "commands": cs.len(), "texts": texts.len()}));
    // The included data: every command of every unit of every version, and the numbers around it.
    let included = match guard(|| read_balance_data_from_included_assets().map_err(|e| e.to_string())) {
        Ok(Ok(i)) => i,
        r => return cx.violation("included", &format!("cannot be read: {:?}", r.err()), json!(null)),
    };
    let mut versions: std::collections::BTreeMap<u32, VersionedBalanceUnits> = Default::default();
    for ((v, n), u) in included {
        versions.entry(v).or_default().insert(n, u);
    }
    let versions: Vec<(u32, VersionedBalanceUnits)> = versions.into_iter().collect();
    let n_cmds = std::sync::atomic::AtomicU64::new(0);
    par_for(&versions, |(v, book)| {
        for n in book.keys() {
            let text = std::fs::read(format!("/repo/assets/BalanceData/{v}/{n}.json")).unwrap_or_default();
            let Ok(j) = serde_json::from_slice::<J>(&text) else {
                cx.violation("included/name", &format!("no asset of {n} in {v}"), json!([v, n]));
                continue;
            };
            cx.trace();
            let mut asked: Vec<(i64, i64)> = vec![(0, 0), (1, 0)];
            let items = |k: &str, i: &str| j[k][i].as_array().cloned().unwrap_or_default();
            for a in items("abilities", "ability") {
                for c in a["command"].as_array().unwrap_or(&vec![]) {
                    asked.push((a["@index"].as_i64().unwrap_or(0), c["@index"].as_i64().unwrap()));
                }
            }
            for (k, i) in [("trains", "unit"), ("builds", "unit"), ("researches", "upgrade")] {
                for u in items(k, i) {
                    asked.push((u["@ability"].as_i64().unwrap_or(0), u["@index"].as_i64().unwrap_or(0)));
                }
            }
            for (a, c) in asked.clone() {
                asked.extend([(a, c + 1), (a + 1, c), (a, c - 1), ((a - 1).max(0), c)]);
            }
            asked.sort_unstable();
            asked.dedup();
            n_cmds.fetch_add(asked.len() as u64, std::sync::atomic::Ordering::Relaxed);
            for (a, c) in asked {
                cx.steps(1);
                let want = name(&j, a, c);
                let got = get_indexed_ability_command_name(book, n, a as u16, c);
                cx.expect_eq("included/command", &got, &want, || json!({"version": v, "unit": n, "ability": a, "command": c}));
            }
        }
    });
    cx.phase("included data", json!({"versions": versions.len(), "queries": n_cmds.into_inner()}));
    cx.sample(json!({"unit": "Nexus", "trains": {"@id": "Probe", "@ability": 10, "@index": 1}, "name": "Train.Probe"}));
}
