//! IndexedMap <-> specs/IndexedMap.tla
use crate::common::*;
use serde_json::{json, Value};
use unreal_asset::containers::indexed_map::{entry::Entry, IndexedMap};

type M = IndexedMap<String, i64>;

/// Perform one operation on the real map; returns the value the call produced.
fn step(m: &mut M, op: &str, k: &str, n: usize, v: i64) -> Value {
    let opt = |x: Option<(usize, String, i64)>| match x {
        Some((i, k, v)) => json!([i, k, v]),
        None => json!([]),
    };
    match op {
        "insert" => { m.insert(k.to_string(), v); json!([]) }
        "or_insert" => json!([*m.entry(k.to_string()).or_insert(v)]),
        "mut_key" => match m.get_by_key_mut(k) {
            Some(x) => { let o = *x; *x = v; json!([o]) }
            None => json!([]),
        },
        "mut_idx" => match m.get_by_index_mut(n) {
            Some(x) => { let o = *x; *x = v; json!([o]) }
            None => json!([]),
        },
        "rem_key" => opt(m.remove_by_key(k)),
        "rem_idx" => opt(m.remove_by_index(n)),
        "ent_remove" => match m.entry(k.to_string()) {
            Entry::Occupied(e) => {
                if e.key() != k { return json!(["wrong entry key", e.key()]); }
                opt(Some(e.remove_entry()))
            }
            Entry::Vacant(e) => {
                if e.into_key() != k { return json!(["wrong vacant key"]); }
                json!([])
            }
        },
        "ent_bump" => match m.entry(k.to_string()) {
            Entry::Occupied(mut e) => { *e.get_mut() += 1; json!([*e.get()]) }
            Entry::Vacant(e) => json!([*e.insert(v)]),
        },
        "bump_all" => {
            // alternate the three mutable views; each must visit every entry once
            let mut c = 0;
            match m.len() % 3 {
                0 => for x in m.values_mut() { *x += 1; c += 1; },
                1 => for (_, _, x) in m.iter_mut() { *x += 1; c += 1; },
                _ => for (_, _, x) in m.iter_key_mut() { *x += 1; c += 1; },
            }
            json!([c])
        }
        "clone" => { let c = m.clone(); *m = c; json!([]) }
        "rebuild" => {
            let old = std::mem::take(m);
            let pairs: Vec<(String, i64)> = old.into_iter().map(|(_, k, v)| (k, v)).collect();
            let keys: Vec<String> = pairs.iter().map(|p| p.0.clone()).collect();
            *m = pairs.into_iter().collect();
            json!(keys)
        }
        _ => json!(["unknown op"]),
    }
}

/// Abstract state as seen through iteration, after checking that every other view agrees.
fn project(m: &M) -> Result<Value, String> {
    let ents: Vec<(usize, String, i64)> = m.iter().map(|(i, k, v)| (i, k.clone(), *v)).collect();
    if m.len() != ents.len() { return Err(format!("len() = {} but {} entries iterate", m.len(), ents.len())); }
    if m.is_empty() != ents.is_empty() { return Err("is_empty disagrees".into()); }
    if m.iter().len() != ents.len() || m.keys().len() != ents.len() || m.values().len() != ents.len() { return Err("iterator len disagrees".into()); }
    let mut rev: Vec<_> = m.iter().rev().map(|(i, k, v)| (i, k.clone(), *v)).collect();
    rev.reverse();
    if rev != ents { return Err("reverse iteration disagrees".into()); }
    if !m.keys().eq(ents.iter().map(|e| &e.1)) { return Err("keys() disagrees".into()); }
    if !m.values().eq(ents.iter().map(|e| &e.2)) { return Err("values() disagrees".into()); }
    if !m.keys().rev().eq(ents.iter().rev().map(|e| &e.1)) { return Err("keys().rev() disagrees".into()); }
    if !m.values().rev().eq(ents.iter().rev().map(|e| &e.2)) { return Err("values().rev() disagrees".into()); }
    let mut byk: Vec<_> = m.iter_key().map(|(i, k, v)| (i, k.clone(), *v)).collect();
    byk.sort();
    let mut srt = ents.clone();
    srt.sort();
    if byk != srt { return Err(format!("key iteration {byk:?} vs ordered iteration {srt:?}")); }
    let max = ents.iter().map(|e| e.0).max().unwrap_or(0);
    for n in 0..=max + 2 {
        let want = ents.iter().find(|e| e.0 == n).map(|e| e.2);
        if m.get_by_index(n).copied() != want { return Err(format!("get_by_index({n}) = {:?}, expected {want:?}", m.get_by_index(n))); }
        if m.contains_index(n) != want.is_some() { return Err(format!("contains_index({n})")); }
    }
    for k in ["a", "b", "c", "d", "e", "f", "g", "h", "zz"] {
        let want = ents.iter().find(|e| e.1 == k).map(|e| e.2);
        if m.get_by_key(k).copied() != want { return Err(format!("get_by_key({k}) = {:?}, expected {want:?}", m.get_by_key(k))); }
        if m.contains_key(&k.to_string()) != want.is_some() { return Err(format!("contains_key({k})")); }
    }
    // consuming and borrowing iteration of a clone agree
    let own: Vec<_> = m.clone().into_iter().collect();
    if own != ents { return Err(format!("consuming iteration {own:?} vs {ents:?}")); }
    let mut ownr: Vec<_> = m.clone().into_iter().rev().collect();
    ownr.reverse();
    if ownr != ents { return Err("reversed consuming iteration disagrees".into()); }
    let bor: Vec<_> = m.into_iter().map(|(i, k, v)| (i, k.clone(), *v)).collect();
    if bor != ents { return Err("borrowing iteration disagrees".into()); }
    if m != &m.clone() { return Err("a clone compares unequal".into()); }
    // equality is determined by the entries: a map with one value changed differs
    if !ents.is_empty() {
        let mut o = m.clone();
        let k = ents[ents.len() / 2].1.clone();
        *o.get_by_key_mut(k.as_str()).unwrap() += 1;
        if &o == m { return Err(format!("maps that differ in the value of {k} compare equal")); }
        let fresh: M = ents.iter().map(|e| (e.1.clone(), e.2)).collect();
        if &fresh != m { return Err("maps with the same entries in the same order compare unequal".into()); }
    }
    Ok(json!(ents.iter().map(|e| json!([e.0, e.1, e.2])).collect::<Vec<_>>()))
}

pub fn replay(file: &str) {
    let mut r = Report::new();
    for tr in lines(file) {
        r.cases += 1;
        let mut m = M::new();
        for (n, e) in tr.as_array().unwrap().iter().enumerate() {
            let op = s(e, "op");
            if op == "fin" { continue; }
            r.steps += 1;
            let got = guard(|| {
                let ret = step(&mut m, op, s(e, "k"), i(e, "n") as usize, i(e, "v"));
                project(&m).map(|st| (ret, st))
            });
            let bad = match got {
                Err(p) => Some(("panic", format!("panic: {p}"))),
                Ok(Err(x)) => Some(("views", x)),
                Ok(Ok((ret, st))) => {
                    if ret != e["ret"] { Some(("ret", format!("returned {ret}, specification {}", e["ret"]))) }
                    else if st != e["st"] { Some(("state", format!("state {st}, specification {}", e["st"]))) }
                    else { None }
                }
            };
            if let Some((kind, what)) = bad {
                r.violation(&format!("imap:{op}:{kind}"), format!("step {} ({op}): {what}", n + 1), &tr);
                break;
            }
        }
    }
    r.finish();
}

pub fn drive(seed: &str, n: &str, len: &str) {
    let mut rng = Rng::new(seed.parse().unwrap());
    let (n, len): (u64, u64) = (n.parse().unwrap(), len.parse().unwrap());
    let ops = ["insert", "insert", "insert", "or_insert", "mut_key", "mut_idx", "rem_key", "rem_idx", "ent_remove", "ent_bump", "bump_all", "clone", "rebuild"];
    let keys = ["a", "b", "c", "d", "e", "f", "g", "h"];
    for _ in 0..n {
        println!("{}", json!({"op": "reset", "k": "", "n": 0, "v": 0, "ret": [], "st": []}));
        let mut m = M::new();
        for _ in 0..len {
            let op = ops[rng.below(ops.len() as u64) as usize];
            if op == "rebuild" && rng.below(4) != 0 { continue; }
            let (k, nn, v) = (keys[rng.below(8) as usize], rng.below(14) as usize, rng.below(50) as i64);
            let got = guard(|| {
                let ret = step(&mut m, op, k, nn, v);
                (ret, project(&m))
            });
            let (ret, st, stop) = match got {
                Ok((ret, Ok(st))) => (ret, st, false),
                Ok((ret, Err(e))) => (ret, json!([[-1, e, -1]]), true),
                Err(p) => (json!(["panic", p]), json!([]), true),
            };
            println!("{}", json!({"op": op, "k": k, "n": nn, "v": v, "ret": ret, "st": st}));
            if stop { break; }
        }
    }
}
