//! NameMap.tla -> NameMap / FName.
use crate::common::*;
use serde_json::Value;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use unreal_asset::containers::{NameMap, SharedResource};
use unreal_asset::types::FName;

/// what the specification knows about a name handed out
#[derive(Clone)]
enum H { Backed { m: usize, idx: i64, number: i64 }, Dummy { text: String, number: i64 } }

fn strs(v: &Value) -> Vec<String> { v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default() }
fn hash(f: &FName) -> u64 { let mut h = DefaultHasher::new(); f.hash(&mut h); h.finish() }

fn one(case: &Value) -> Result<u64, (String, String)> {
    let e = |k: &str, w: String| (format!("names:{k}"), w);
    let mut maps: Vec<SharedResource<NameMap>> = vec![];
    let mut names: Vec<(H, FName)> = vec![];
    let steps = case["h"].as_array().unwrap();
    for (n, st) in steps.iter().enumerate() {
        let l = &st["last"];
        let op = s(l, "op");
        let m = (i(l, "m") - 1).max(0) as usize;
        let text = s(l, "text");
        let allowed: Vec<i64> = l["allowed"].as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default();
        let r = guard(|| -> Result<(), (String, String)> {
            match op {
                "batch" => maps.push(NameMap::from_name_batch(&strs(&l["list"]))),
                "clone" => { let c = maps[m].clone_resource(); maps.push(c) }
                "add" => {
                    let r = maps[m].get_mut().add_name_reference(text.to_string(), l["force"].as_bool().unwrap()) as i64;
                    if !allowed.contains(&r) { return Err(e("add", format!("step {n}: adding {text:?} returned {r}, allowed {allowed:?}"))); }
                }
                "search" => {
                    let r = maps[m].get_ref().search_name_reference(text).map(|x| x as i64);
                    if match r { None => !allowed.is_empty(), Some(x) => !allowed.contains(&x) } {
                        return Err(e("search", format!("step {n}: search {text:?} returned {r:?}, allowed {allowed:?}")));
                    }
                }
                "rename" => *maps[m].get_mut().get_name_reference_mut(i(l, "idx") as i32) = text.to_string(),
                "fname" => {
                    let number = i(l, "number");
                    let f = if number == 0 { maps[m].get_mut().add_fname(text) } else { maps[m].get_mut().add_fname_with_number(text, number as i32) };
                    let FName::Backed { index, .. } = &f else { return Err(e("fname", "a table handed out a name without a table".into())) };
                    let idx = *index as i64;
                    if !allowed.contains(&idx) { return Err(e("fname", format!("step {n}: name {text:?} got index {idx}, allowed {allowed:?}"))); }
                    names.push((H::Backed { m, idx, number }, f));
                }
                "create" => {
                    let (idx, number) = (i(l, "idx"), i(l, "number"));
                    let f = maps[m].get_ref().create_fname(idx as i32, number as i32);
                    names.push((H::Backed { m, idx, number }, f));
                }
                "dummy" => {
                    let number = i(l, "number");
                    let f = if number == 0 { FName::from_slice(text) } else { FName::new_dummy(text.to_string(), number as i32) };
                    names.push((H::Dummy { text: text.to_string(), number }, f));
                }
                x => panic!("unknown op {x}"),
            }
            // every table is what the specification says it is
            let want: Vec<Vec<String>> = st["maps"].as_array().unwrap().iter().map(strs).collect();
            for (k, w) in want.iter().enumerate() {
                let mm = maps[k].get_ref();
                if mm.get_name_map_index_list() != &w[..] { return Err(e("table", format!("step {n} ({op}): table {k} is {:?}, must be {w:?}", mm.get_name_map_index_list()))); }
                if mm.is_empty() != w.is_empty() { return Err(e("table", format!("step {n}: is_empty wrong"))); }
                for (j, t) in w.iter().enumerate() {
                    if mm.get_name_reference(j as i32) != t || &mm.get_owned_name(j as i32) != t { return Err(e("resolve", format!("step {n}: index {j} resolves to {:?}, must be {t:?}", mm.get_name_reference(j as i32)))); }
                }
                // every present text is found, others are not
                for t in ["a", "A", "b", "bb", "", "None"] {
                    let r = mm.search_name_reference(t);
                    match r {
                        Some(x) => if w.get(x as usize).map(|y| y == t) != Some(true) { return Err(e("search", format!("step {n} ({op}): search {t:?} gives {x}, whose text differs"))); },
                        None => if w.iter().any(|y| y == t) { return Err(e("search", format!("step {n} ({op}): {t:?} is present but not found"))); }
                    }
                }
            }
            // every name handed out still resolves
            let content = |h: &H| match h { H::Backed { m, idx, .. } => want[*m][*idx as usize].clone(), H::Dummy { text, .. } => text.clone() };
            let number = |h: &H| match h { H::Backed { number, .. } | H::Dummy { number, .. } => *number };
            for (h, f) in &names {
                let c = content(h);
                if f.get_owned_content() != c || f.get_content(|x| x.to_string()) != c { return Err(e("content", format!("step {n} ({op}): a name resolves to {:?}, must be {c:?}", f.get_owned_content()))); }
                if f.get_number() as i64 != number(h) { return Err(e("number", format!("step {n}: number {} must be {}", f.get_number(), number(h)))); }
                for t in ["a", "A", "b", ""] {
                    if (*f == *t) != (c == t) || f.ends_with(t) != c.ends_with(t) { return Err(e("streq", format!("step {n}: comparison of {c:?} with {t:?}"))); }
                }
            }
            for (h1, f1) in &names { for (h2, f2) in &names {
                let eq = match (h1, h2) {
                    (H::Backed { idx: i1, number: n1, m: m1 }, H::Backed { idx: i2, number: n2, m: m2 }) => {
                        // positions only mean the same within one table (and in clones before they diverge)
                        if m1 != m2 && want[*m1].get(*i1 as usize) != want[*m2].get(*i2 as usize) { continue }
                        i1 == i2 && n1 == n2
                    }
                    (H::Dummy { text: a, number: n1 }, H::Dummy { text: b, number: n2 }) => a == b && n1 == n2,
                    _ => false,
                };
                if (f1 == f2) != eq { return Err(e("eq", format!("step {n}: {f1:?} == {f2:?} is {}, must be {eq}", f1 == f2))); }
                if eq && hash(f1) != hash(f2) { return Err(e("hash", format!("step {n}: equal names hash differently: {f1:?}"))); }
                if f1.eq_content(f2) != (content(h1) == content(h2)) { return Err(e("eq_content", format!("step {n}: {f1:?} {f2:?}"))); }
            } }
            Ok(())
        });
        match r {
            Err(p) => return Err(e("panic", format!("step {n} ({op}): panic: {p}"))),
            Ok(Err(x)) => return Err(x),
            Ok(Ok(())) => {}
        }
    }
    Ok(steps.len() as u64)
}

pub fn replay(file: &str) {
    let mut r = Report::new();
    for c in lines(file) {
        r.cases += 1;
        match one(&c) { Ok(n) => r.steps += n, Err((k, w)) => r.violation(&k, w, &c) }
    }
    r.finish()
}
