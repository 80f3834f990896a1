//! Drives the command line tool as an unprivileged user inside a scratch directory.
use crate::common::*;
use crate::wire::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::Command;

type Tree = BTreeMap<String, Vec<u8>>;
fn snapshot(root: &Path, skip: Option<&Path>) -> Tree {
    let mut t = Tree::new();
    let mut todo = vec![root.to_path_buf()];
    while let Some(d) = todo.pop() {
        let Ok(rd) = std::fs::read_dir(&d) else { continue };
        for e in rd.flatten() {
            let p = e.path();
            if Some(p.as_path()) == skip { continue; }
            if e.file_type().unwrap().is_dir() { todo.push(p); } else {
                t.insert(p.strip_prefix(root).unwrap().to_string_lossy().into_owned(), std::fs::read(&p).unwrap_or_default());
            }
        }
    }
    t
}
const UID: u32 = 65534;
fn chown(p: &Path) { let _ = std::os::unix::fs::chown(p, Some(UID), Some(UID)); }
fn mkdirs(base: &Path, rel: &str) -> PathBuf {
    let mut p = base.to_path_buf();
    for c in rel.split('/') { p.push(c); if !p.exists() { std::fs::create_dir(&p).unwrap(); chown(&p); } }
    p
}
fn put(p: &Path, d: &[u8]) { std::fs::write(p, d).unwrap(); chown(p); }

pub fn run(file: &str, bin: &str, scratch: &str) {
    let mut r = Report::new();
    let scratch = Path::new(scratch);
    let exe = scratch.join("tool");
    std::fs::copy(bin, &exe).unwrap();
    let privileged = Command::new("/bin/true").uid(UID).gid(UID).status().is_err();
    let call = |dir: &Path, args: &[String]| {
        let mut c = Command::new(&exe);
        c.args(args).current_dir(dir).env_clear();
        // hostile names are only run where an escape could reach nothing but the scratch directory
        if !privileged { c.uid(UID).gid(UID); }
        c.output().unwrap()
    };
    for (ci, case) in lines(file).enumerate() {
        r.cases += 1;
        let c = scratch.join(format!("c{ci}"));
        std::fs::create_dir(&c).unwrap();
        chown(&c);
        let bad = one(&case, &c, &call, &mut r);
        if let Err((k, w)) = bad { r.violation(&format!("cli:{k}"), w, &case); }
        let _ = std::fs::remove_dir_all(&c);
    }
    r.finish();
}

fn one(case: &Value, c: &Path, call: &dyn Fn(&Path, &[String]) -> std::process::Output, r: &mut Report) -> Result<(), (&'static str, String)> {
    let work = mkdirs(c, "w/x/y/z");
    let tree = s(case, "kind") == "tree";
    let given = case["given"].as_bool().unwrap();
    let name = |f: &Value| {
        let p = f["p"].as_array().unwrap().iter().map(|x| text(x.as_str().unwrap())).collect::<Vec<_>>().join("/");
        if f["abs"] == true { format!("{}/abs/{p}", c.display()) } else { p }
    };
    let mut want = Tree::new();
    for f in case["files"].as_array().unwrap() { want.insert(name(f), content(s(f, "k"), i(f, "n") as usize)); }
    let pak = if given { work.join("made.pak") } else { work.join("My.Mod.pak") };
    let st = |p: &Path| p.to_string_lossy().into_owned();
    if tree {
        let src = mkdirs(&work, "My.Mod");
        for (n, d) in &want {
            let p = src.join(n);
            let rel = Path::new(n).parent().unwrap().to_string_lossy().into_owned();
            if !rel.is_empty() { mkdirs(&src, &rel); }
            put(&p, d);
        }
        mkdirs(&src, "emptydir");
        if case["stale"] == true { put(&pak, &content("r", 100_000)); }
        let mut a = vec!["create".to_string(), "My.Mod".into()];
        if given { a.push("made.pak".into()); }
        if case["zip"] == false { a.push("--no-compression".into()); }
        let before = snapshot(&src, None);
        let o = call(&work, &a);
        if !o.status.success() { return Err(("create", format!("create failed: {} {}", o.status, String::from_utf8_lossy(&o.stderr)))); }
        if snapshot(&src, None) != before { return Err(("source", "create changed the source directory".into())); }
        if !pak.exists() { return Err(("create", format!("create did not produce {}", pak.display()))); }
        if given { std::fs::rename(&src, work.join("moved")).unwrap(); } else { std::fs::remove_dir_all(&src).unwrap(); }
    } else {
        let mut toks = case["toks"].as_array().unwrap().clone();
        for t in toks.iter_mut() {
            if s(t, "t") == "str" {
                if let Some(k) = s(t, "v").strip_prefix('@') {
                    let k: usize = k.parse().unwrap();
                    *t = json!({"t": "str", "v": name(&case["files"][k - 1])});
                }
            }
        }
        put(&pak, &encode(&toks).bytes);
        let o = call(&work, &["check".into(), st(&pak)]);
        if !o.status.success() { return Err(("check", "check rejects a well-formed pak".into())); }
    }
    if case["hurt"] == true {
        // break the checksum at the end of the first compressed block
        let mut b = std::fs::read(&pak).unwrap();
        let v: Vec<u8> = want.values().find(|v| (32..65536).contains(&v.len())).unwrap().clone();
        let z = zlib(&v);
        let tail = &z[z.len() - 4..];
        let Some(at) = b.windows(4).position(|w| w == tail) else { r.stat("unlocated"); return Ok(()) };
        b[at] ^= 0x55;
        put(&pak, &b);
        let o = call(&work, &["check".into(), st(&pak)]);
        if o.status.success() { return Err(("hurt", "check accepts a pak with damaged data".into())); }
        let o = call(&work, &["check-header".into(), st(&pak)]);
        if !o.status.success() { return Err(("hurt", "check-header rejects a pak with an intact header".into())); }
    } else if tree {
        for cmd in ["check", "check-header"] {
            let o = call(&work, &[cmd.into(), st(&pak)]);
            if !o.status.success() { return Err(("check", format!("{cmd} rejects a created pak: {}", String::from_utf8_lossy(&o.stderr)))); }
        }
    }
    let out = if given { work.join("out") } else { work.join("My.Mod") };
    if case["stale"] == true {
        mkdirs(&work, out.file_name().unwrap().to_str().unwrap());
        if tree && given { // a stale longer copy of one file is replaced, not overlaid
            for (n, d) in want.iter().take(1) {
                let rel = Path::new(n).parent().unwrap().to_string_lossy().into_owned();
                if !rel.is_empty() { mkdirs(&out, &rel); }
                put(&out.join(n), &[d.clone(), vec![7; 50]].concat());
            }
        }
    }
    put(&work.join("bystander"), b"keep");
    let before = snapshot(c, Some(&out));
    let mut a = vec!["extract".to_string(), pak.file_name().unwrap().to_string_lossy().into_owned()];
    if given { a.push("out".into()); }
    let o = call(&work, &a);
    let after = snapshot(c, Some(&out));
    if before != after {
        let d: Vec<_> = after.keys().filter(|k| after.get(*k) != before.get(*k)).collect();
        return Err(("escape", format!("extraction changed files outside the output directory: {d:?}")));
    }
    let got = snapshot(&out, None);
    if case["hurt"] == true {
        r.stat("damaged");
        if o.status.success() { return Err(("hurt", "extract reports success for a pak with damaged data".into())); }
        return Ok(());
    }
    if s(case, "must") == "extract" {
        r.stat("extracted");
        if !o.status.success() { return Err(("extract", format!("extract failed: {}", String::from_utf8_lossy(&o.stderr)))); }
        if got != want { return Err(("tree", format!("extracted {:?}, expected {:?}", sizes(&got), sizes(&want)))); }
    } else {
        r.stat(if o.status.success() { "contained" } else { "refused" });
        // whatever was extracted carries the bytes of some entry
        if let Some((n, _)) = got.iter().find(|(_, d)| !d.is_empty() && !want.values().any(|w| w == *d)) { return Err(("foreign", format!("{n} holds bytes of no entry"))); }
    }
    Ok(())
}
fn sizes(t: &Tree) -> Vec<(&String, usize)> { t.iter().map(|(k, v)| (k, v.len())).collect() }
