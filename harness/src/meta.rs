//! Mod metadata documents against specs/Meta.tla.
use crate::common::*;
use semver::VersionReq;
use serde_json::{json, Map, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use unreal_mod_metadata::{from_slice, Dependency, DownloadInfo, DownloadMode, Metadata, SyncMode};

fn txt(f: &str, o: &str) -> String { match o { "A" => format!("{f} alpha"), "B" => format!("{f} b\u{e9}ta \"q\""), _ => String::new() } }
fn any(o: &str) -> Value {
    match o {
        "str" => json!("actor"), "str2" => json!(""), "arr" => json!(["/Game/A", "/Game/B"]), "obj" => json!({"/Game/X": ["/Game/Y"], "a": 1}),
        "num" => json!(7), "bool" => json!(true), _ => json!([{"a": [1, 2, {"b": null}]}, "x", 1.5]),
    }
}
fn dl(n: &str) -> Value { json!({"type": "index_file", "url": format!("https://example.com/{n}")}) }
fn integ(o: &str) -> Map<String, Value> {
    let v = match o {
        "one" => json!({"persistent_actors": ["/Game/A"]}),
        "two" => json!({"persistent_actors": ["/Game/A"], "linked_actor_components": {"/Game/B": ["/Game/C"]}}),
        "many" => json!({"a": 1, "b": "two", "c": [3], "d": {"e": 4}, "f": true, "g": 1.5, "h": [], "i": {}}),
        "withnull" => json!({"a": null, "b": [null]}),
        _ => json!({}),
    };
    v.as_object().unwrap().clone()
}
fn dep(o: &Value) -> Value {
    let kind = o[0].as_str().unwrap();
    let r = o.get(1).and_then(|x| x.as_str()).unwrap_or("");
    match kind {
        "empty" => json!({}), "null" => Value::Null, "list" => json!([]),
        "one" => json!({ "ModB": r }), "obj" => json!({ "ModB": {"version": r} }),
        "objdl" => json!({ "ModB": {"version": r, "download": dl("dep")} }),
        "objbad" => json!({ "ModB": {"version": r, "download": {"type": "torrent", "url": "x"}} }),
        "objnov" => json!({ "ModB": {"download": dl("dep")} }),
        "num" => json!({ "ModB": 5 }),
        "many" => json!({ "ModB": "^1", "ModC": {"version": ">=2", "download": dl("c")}, "ModD": "*", "Mod E": {"version": "~0.3", "download": null} }),
        _ => json!({}),
    }
}
fn field(f: &str, o: &Value) -> Option<Value> {
    if f == "dependencies" { return (o[0] != "none").then(|| dep(o)); }
    let o = o.as_str().unwrap();
    if o == "none" { return None; }
    if o == "null" { return Some(Value::Null); }
    Some(match f {
        "schema_version" => match o { "s2" => json!("2"), "neg" => json!(-1), "frac" => json!(1.5), "huge" => json!(u64::MAX), n => json!(n.parse::<u64>().unwrap()) },
        "sync" => match o { "noneval" => json!("none"), "bad" => json!("Server"), "num" => json!(1), x => json!(x) },
        "download" => match o { "dl1" => dl("1"), "dl2" => dl("2"), "badtype" => json!({"type": "http", "url": "x"}), "nourl" => json!({"type": "index_file"}), "str" => json!("https://x"),
            _ => { let mut d = dl("1"); d["comment"] = json!([1]); d } },
        "integrator" => match o { "list" => json!([]), _ => Value::Object(integ(o)) },
        "cpp_loader_dlls" => match o { "empty" => json!([]), "two" => json!(["b.dll", "a.dll"]), "rev" => json!(["a.dll", "b.dll"]), _ => json!(["a.dll", 3]) },
        "extra" => json!({"unknown": [1, 2]}),
        _ if f.contains("actor") || f.contains("mission") || f.contains("item") || f.contains("biome") => any(o),
        _ => match o { "num" => json!(5), "arr" => json!(["x"]), x => json!(txt(f, x)) },
    })
}
fn expected(c: &Value) -> Metadata {
    let m = &c["mod"];
    let opt = |f: &str| { let o = s(m, f); (o != "none").then(|| txt(f, o)) };
    let mut integrator: HashMap<String, Value> = HashMap::new();
    let e = &c["extra"];
    if s(e, "integrator") == "actors" {
        for (k, v) in e["actors"].as_object().unwrap() { let v = v.as_str().unwrap(); if v != "none" { integrator.insert(k.clone(), any(v)); } }
    } else { integrator.extend(integ(s(e, "integrator"))); }
    let info = |n: &str| DownloadInfo { download_mode: DownloadMode::IndexFile, url: format!("https://example.com/{n}") };
    let mut dependencies = HashMap::new();
    if let Some(o) = dep(&e["dependencies"]).as_object() {
        for (k, v) in o {
            let (r, d) = match v { Value::String(r) => (r.clone(), None), v => (s(v, "version").to_string(), v.get("download").and_then(|d| d.get("url")).map(|u| DownloadInfo { download_mode: DownloadMode::IndexFile, url: u.as_str().unwrap().into() })) };
            dependencies.insert(k.clone(), Dependency::new(VersionReq::parse(&r).unwrap(), d));
        }
    }
    Metadata {
        schema_version: 2, name: txt("name", s(m, "name")), mod_id: txt("mod_id", s(m, "mod_id")), mod_version: txt("version", s(m, "version")),
        author: opt("author"), description: opt("description"), game_build: opt("game_build"), homepage: opt("homepage"),
        sync: match s(m, "sync") { "none" => None, "serverclient" => Some(SyncMode::ServerAndClient), "server" => Some(SyncMode::ServerOnly), "client" => Some(SyncMode::ClientOnly), _ => Some(SyncMode::None) },
        download: match s(m, "download") { "dl1" => Some(info("1")), "dl2" => Some(info("2")), _ => None },
        dependencies, integrator,
        cpp_loader_dlls: match s(e, "dlls") { "two" => vec!["b.dll".into(), "a.dll".into()], "rev" => vec!["a.dll".into(), "b.dll".into()], _ => vec![] },
    }
}
/// field by field, so that the verdict does not depend on the library's own equality
fn same(a: &Metadata, b: &Metadata) -> Result<(), &'static str> {
    macro_rules! f { ($($x:ident),*) => { $( if a.$x != b.$x { return Err(stringify!($x)); } )* } }
    f!(schema_version, name, mod_id, author, description, mod_version, game_build, sync, homepage, download, dependencies, integrator, cpp_loader_dlls);
    Ok(())
}
fn h(m: &Metadata) -> u64 { let mut s = DefaultHasher::new(); m.hash(&mut s); s.finish() }

pub fn replay(file: &str) {
    let mut r = Report::new();
    let mut pool: Vec<(Metadata, Metadata)> = vec![];
    for case in lines(file) {
        r.cases += 1;
        let mut o = Map::new();
        for (f, v) in case["doc"].as_object().unwrap() { if let Some(v) = field(f, v) { o.insert(f.clone(), v); } }
        let ok = case["ok"] == true;
        let bytes = serde_json::to_vec(&Value::Object(o)).unwrap();
        let shown = String::from_utf8_lossy(&bytes).into_owned();
        let res = guard(|| -> Result<(), (&'static str, String)> {
            let got = from_slice(&bytes);
            match (got, ok) {
                (Err(e), false) => { let _ = e.to_string(); }
                (Ok(_), false) => return Err(("accept", "a malformed or unsupported document is accepted".into())),
                (Err(e), true) => return Err(("reject", format!("a valid document is rejected: {e}"))),
                (Ok(m), true) => {
                    let want = expected(&case);
                    same(&m, &want).map_err(|f| ("decode", format!("field {f} is decoded as {m:?}")))?;
                    let enc = serde_json::to_vec(&m).map_err(|e| ("encode", e.to_string()))?;
                    let back = from_slice(&enc).map_err(|e| ("encode", format!("own encoding is rejected: {e}")))?;
                    same(&back, &want).map_err(|f| ("roundtrip", format!("field {f} changes when encoded and decoded again: {back:?}")))?;
                    if m != back || m != m.clone() || h(&m) != h(&back) || h(&m) != h(&want) { return Err(("equal", "equal metadata compare or hash as different".into())); }
                    for (a, w) in pool.iter().rev().take(12) {
                        let eq = same(w, &want).is_ok();
                        if (*a == m) != eq || (eq && h(a) != h(&m)) { return Err(("equal", format!("comparison with {a:?} gives {}, expected {eq}", *a == m))); }
                    }
                    pool.push((m, want));
                    if pool.len() > 64 { pool.remove(0); }
                }
            }
            Ok(())
        });
        r.stat(if ok { "accepted" } else { "rejected" });
        let step = if bytes.len() > 200 { 17 } else { 5 };
        let cut = guard(|| (0..bytes.len()).step_by(step).find(|k| from_slice(&bytes[..*k]).is_ok()));
        match (res, cut) {
            (Ok(Ok(())), Ok(None)) => {}
            (Ok(Err((k, w))), _) => r.violation(&format!("meta:{k}"), format!("{shown}: {w}"), &case),
            (Err(p), _) | (_, Err(p)) => r.violation("meta:panic", format!("{shown}: panic: {p}"), &case),
            (_, Ok(Some(k))) => r.violation("meta:cut", format!("{shown} cut to {k} bytes is accepted"), &case),
        }
    }
    r.finish();
}
