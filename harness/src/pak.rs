//! unreal_pak <-> specs/Pak*.tla
use crate::common::*;
use crate::wire::*;
use serde_json::{json, Value};
use std::io::Cursor;
use unreal_pak::error::{PakError, PakErrorKind};
use unreal_pak::{pakversion::PakVersion, PakMemory, PakReader, PakWriter};

fn kind(r: &Result<(), PakError>) -> &'static str {
    match r {
        Ok(()) => "ok",
        Err(e) => match e.kind {
            PakErrorKind::DoubleWrite(_) => "double",
            PakErrorKind::ConfigurationInvalid => "config",
            PakErrorKind::PakVersionUnsupported(_) => "unsupported",
            _ => "other-error",
        },
    }
}
fn ver(v: i64) -> PakVersion { PakVersion::from_num(v as u32) }

/// Everything a reader can observe about a finished pak must agree with the specification.
pub fn check_readable(bytes: &[u8], v: i64, mp: &str, contents: &[Value]) -> Result<(), String> {
    let mut want: Vec<(String, Vec<u8>)> = contents.iter().map(|e| (text(s(e, "name")), content(s(e, "k"), i(e, "n") as usize))).collect();
    want.sort();
    let mut rd = PakReader::new(Cursor::new(bytes));
    rd.load_index().map_err(|e| format!("load_index: {e:?}"))?;
    if rd.mount_point != mp { return Err(format!("mount point {:?}, stored {:?}", rd.mount_point, mp)); }
    let names: Vec<String> = rd.get_entry_names().into_iter().cloned().collect();
    let wn: Vec<String> = want.iter().map(|x| x.0.clone()).collect();
    if names != wn { return Err(format!("entry names {names:?}, stored {wn:?}")); }
    let diff = |n: &str, got: &[u8], w: &[u8]| {
        (got != w).then(|| format!("entry {n}: read {} bytes, stored {} bytes, first difference at {:?}", got.len(), w.len(), got.iter().zip(w).position(|(a, b)| a != b)))
    };
    // reverse order on purpose: reads are random access
    for (n, w) in want.iter().rev() {
        if !rd.contains_entry(n) { return Err(format!("contains_entry({n}) is false")); }
        let got = rd.read_entry(n).map_err(|e| format!("read_entry({n}): {e:?}"))?;
        if let Some(x) = diff(n, &got, w) { return Err(x); }
    }
    let missing = "no/such/entry".to_string();
    if rd.contains_entry(&missing) { return Err("contains a missing entry".into()); }
    match rd.read_entry(&missing).map_err(|e| e.kind) {
        Err(PakErrorKind::EntryNotFound(_)) => {}
        x => return Err(format!("reading a missing entry gave {x:?}")),
    }
    let mut n = 0;
    for (k, (name, data)) in rd.iter().enumerate() {
        let (wn, w) = want.get(k).ok_or("iterator yields too many entries")?;
        let d = data.map_err(|e| format!("iter {name}: {e:?}"))?;
        if name != wn { return Err(format!("iteration order: {name} instead of {wn}")); }
        if let Some(x) = diff(name, &d, w) { return Err(format!("iter: {x}")); }
        n += 1;
    }
    if n != want.len() { return Err("iterator yields too few entries".into()); }
    let back = rd.into_inner().into_inner();
    if back != bytes { return Err("into_inner returned another stream".into()); }
    let mem = PakMemory::load_from(&mut Cursor::new(bytes)).map_err(|e| format!("PakMemory::load_from: {e:?}"))?;
    if mem.pak_version.to_num() as i64 != v { return Err(format!("version {:?}, stored {v}", mem.pak_version)); }
    if mem.mount_point != mp { return Err(format!("PakMemory mount point {:?}", mem.mount_point)); }
    check_memory(&mem, &want)
}

fn check_memory(mem: &PakMemory, want: &[(String, Vec<u8>)]) -> Result<(), String> {
    let names: Vec<&String> = mem.get_entry_names();
    if !names.iter().map(|n| n.as_str()).eq(want.iter().map(|w| w.0.as_str())) { return Err(format!("names {names:?}")); }
    for (n, w) in want {
        if !mem.contains_entry(n) { return Err(format!("contains_entry({n}) false")); }
        if mem.get_entry(n) != Some(w) { return Err(format!("get_entry({n}) differs from what was stored ({:?} bytes vs {})", mem.get_entry(n).map(|x| x.len()), w.len())); }
    }
    if !mem.iter().eq(want.iter().map(|w| (&w.0, &w.1))) { return Err("iter() differs".into()); }
    if mem.into_iter().count() != want.len() { return Err("into_iter() differs".into()); }
    let missing = "no/such/entry".to_string();
    if mem.contains_entry(&missing) || mem.get_entry(&missing).is_some() { return Err("contains a missing entry".into()); }
    Ok(())
}

/// Streaming-writer histories.
pub fn write(file: &str) {
    let mut r = Report::new();
    for case in lines(file) {
        r.cases += 1;
        let v = i(&case, "ver");
        let mp = text(s(&case, "mp"));
        let res = guard(|| -> Result<(), (String, String)> {
            let mut out = vec![];
            {
                let mut w = Some(PakWriter::new(Cursor::new(&mut out), ver(v)));
                let pw = w.as_mut().unwrap();
                pw.block_size = i(&case, "bs") as u32;
                pw.mount_point = mp.clone();
                let mut have: Vec<String> = vec![];
                for (n, e) in case["ops"].as_array().unwrap().iter().enumerate() {
                    r.steps += 1;
                    let (op, got) = if s(e, "op") == "write" {
                        let pw = w.as_mut().unwrap();
                        let nm = text(s(e, "name"));
                        let got = kind(&pw.write_entry(&nm, &content(s(e, "k"), i(e, "n") as usize), e["z"].as_bool().unwrap()));
                        if got == "ok" { have.push(nm); have.sort(); }
                        if !pw.get_entry_names().into_iter().eq(have.iter()) { return Err((format!("names:v{v}"), "writer lists other entries than were written".into())); }
                        ("write", got)
                    } else {
                        ("finish", kind(&w.take().unwrap().finish_write()))
                    };
                    r.stat(&format!("{op}:{got}"));
                    if got != s(e, "ret") { return Err((format!("{op}:ret:v{v}"), format!("step {} {e}: returned {got}", n + 1))); }
                }
            }
            let toks = case["toks"].as_array().unwrap();
            if !toks.is_empty() {
                check_readable(&out, v, &mp, case["contents"].as_array().unwrap()).map_err(|e| (format!("read:v{v}"), e))?;
                matches(toks, &out).map_err(|e| (format!("layout:v{v}"), e))?;
            }
            Ok(())
        });
        match res {
            Ok(Ok(())) => {}
            Ok(Err((k, what))) => r.violation(&format!("pakw:{k}"), what, &small(&case)),
            Err(p) => r.violation(&format!("pakw:panic:v{v}"), format!("panic: {p}"), &small(&case)),
        }
    }
    r.finish();
}
fn small(c: &Value) -> Value {
    let mut c = c.clone();
    if let Some(o) = c.as_object_mut() { o.remove("toks"); }
    c
}

/// Paks laid out from the specification by another encoder.
pub fn foreign(file: &str) {
    let mut r = Report::new();
    for case in lines(file) {
        r.cases += 1;
        let laid = encode(case["toks"].as_array().unwrap());
        let v = i(&case, "ver");
        match guard(|| check_readable(&laid.bytes, v, &text(s(&case, "mp")), case["contents"].as_array().unwrap())) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => r.violation(&format!("pakf:read:v{v}"), e, &case),
            Err(p) => r.violation(&format!("pakf:panic:v{v}"), format!("panic: {p}"), &case),
        }
    }
    r.finish();
}

/// In-memory container histories.
pub fn memory(file: &str, zip0: &str) {
    let mut r = Report::new();
    for case in lines(file) {
        r.cases += 1;
        let mut disk: Vec<Option<Vec<u8>>> = vec![None; 8];
        if zip0 == "1" {
            let mut out = vec![];
            let mut w = PakWriter::new(Cursor::new(&mut out), ver(8));
            w.write_entry(&"A/B/c.uasset".to_string(), &content("t", 100), true).unwrap();
            w.finish_write().unwrap();
            disk[1] = Some(out);
        }
        let mut mem = PakMemory::new(ver(8));
        let mut at = 0;
        let res = guard(|| -> Result<(), (String, String)> {
            for (n, e) in case.as_array().unwrap().iter().enumerate() {
                at = n + 1;
                let op = s(e, "op");
                let a = i(e, "a");
                let mut ret = "ok";
                match op {
                    "fin" => break,
                    "new" => mem = PakMemory::new(ver(a)),
                    "set" => mem.set_entry(text(s(e, "r")), content(s(e, "k"), i(e, "n") as usize)),
                    "ver" => mem.pak_version = ver(a),
                    "mp" => mem.mount_point = text(s(e, "a")),
                    "save" => {
                        let mut out = Cursor::new(vec![]);
                        ret = kind(&mem.write(&mut out));
                        if ret == "ok" {
                            let b = out.into_inner();
                            matches(e["toks"].as_array().unwrap(), &b).map_err(|x| ("save:layout".into(), x))?;
                            disk[a as usize] = Some(b);
                        }
                    }
                    "load" => { let d = disk[a as usize].clone().unwrap(); ret = kind(&mem.load(&mut Cursor::new(d))); }
                    "loadfrom" => {
                        let d = disk[a as usize].clone().unwrap();
                        match PakMemory::load_from(&mut Cursor::new(d)) { Ok(m) => mem = m, Err(_) => ret = "other-error" }
                    }
                    _ => return Err(("op".into(), format!("unknown op {op}"))),
                }
                r.steps += 1;
                r.stat(&format!("{op}:{ret}"));
                if ret != s(e, "ret") { return Err((format!("{op}:ret"), format!("returned {ret}, specification {}", e["ret"]))); }
                if mem.pak_version.to_num() as i64 != i(e, "ver") { return Err((format!("{op}:ver"), format!("version {:?}", mem.pak_version))); }
                if mem.mount_point != text(s(e, "mp")) { return Err((format!("{op}:mp"), format!("mount point {:?}", mem.mount_point))); }
                let want: Vec<(String, Vec<u8>)> = e["ents"].as_array().unwrap().iter().map(|x| (text(s(x, "name")), content(s(x, "k"), i(x, "n") as usize))).collect();
                check_memory(&mem, &want).map_err(|x| (format!("{op}:state"), x))?;
            }
            Ok(())
        });
        let strip = |c: &Value| json!(c.as_array().unwrap().iter().take(at).map(small).collect::<Vec<_>>());
        match res {
            Ok(Ok(())) => {}
            Ok(Err((k, what))) => r.violation(&format!("pakm:{k}"), format!("step {at}: {what}"), &strip(&case)),
            Err(p) => r.violation("pakm:panic", format!("step {at}: panic: {p}"), &strip(&case)),
        }
    }
    r.finish();
}

pub fn mutate(b: &mut [u8], m: &str) -> bool {
    let old = b.to_vec();
    let w = b.len().min(8);
    let mut x = [0u8; 8];
    x[..w].copy_from_slice(&b[..w]);
    let v = u64::from_le_bytes(x);
    let nv = match m {
        "zero" => 0,
        "max" => u64::MAX,
        "inc" => v.wrapping_add(1),
        "dec" => v.wrapping_sub(1),
        "high" => v | 0x7fu64 << (8 * (w - 1)),
        "min" => 0x80u64 << (8 * (w - 1)),
        "flip" => v ^ 0x10,
        _ => v ^ 0x1000_0000,
    };
    b[..w].copy_from_slice(&nv.to_le_bytes()[..w]);
    b != old
}

/// Open a possibly damaged pak through every entry point. Returns the contents that could be read.
fn exercise(bytes: &[u8]) -> Result<Vec<(String, Option<Vec<u8>>)>, String> {
    let mem = PakMemory::load_from(&mut Cursor::new(bytes)).map_err(|e| e.to_string());
    let mut rd = PakReader::new(Cursor::new(bytes));
    let r = rd.load_index().map_err(|e| format!("{e}"));
    if r.is_ok() || mem.is_ok() { /* either way below */ }
    r?;
    let names: Vec<String> = rd.get_entry_names().into_iter().cloned().collect();
    let mut out = vec![];
    for n in names { let d = rd.read_entry(&n).ok(); out.push((n, d)); }
    for (k, (_, d)) in rd.iter().enumerate() { if d.ok() != out[k].1 { panic!("iterator and direct read disagree on entry {k}"); } }
    Ok(out)
}

pub fn damage(file: &str) {
    let mut r = Report::new();
    for (ci, case) in lines(file).enumerate() {
        crate::alloc::CASE.store(ci, std::sync::atomic::Ordering::Relaxed);
        let laid = encode(case["toks"].as_array().unwrap());
        let v = i(&case, "ver");
        let contents: Vec<(String, Vec<u8>)> = case["contents"].as_array().unwrap().iter().map(|e| (text(s(e, "name")), content(s(e, "k"), i(e, "n") as usize))).collect();
        let limit = (8 << 20) + 64 * laid.bytes.len();
        let mut run = |r: &mut Report, bytes: &[u8], key: String, what: String, owner: Option<usize>| {
            r.cases += 1;
            let got = guard(|| crate::alloc::armed(limit, || exercise(bytes)));
            crate::alloc::armed(usize::MAX, || ());
            let bad = match got {
                Err(p) => Some(format!("panic: {p}")),
                Ok(Err(e)) if owner.is_some() => Some(format!("damage inside one entry makes the whole pak unreadable: {e}")),
                Ok(Err(_)) => { r.stat("rejected"); None }
                Ok(Ok(list)) => {
                    r.stat("opened");
                    owner.and_then(|o| contents.iter().enumerate().filter(|(k, _)| k + 1 != o).find_map(|(_, (n, d))| {
                        match list.iter().find(|x| &x.0 == n) {
                            Some((_, Some(got))) if got == d => None,
                            x => Some(format!("undamaged entry {n} is no longer readable ({})", if x.is_some() { "error or other bytes" } else { "missing" })),
                        }
                    }))
                }
            };
            if let Some(b) = bad { r.violation(&key, format!("{what}: {b}"), &json!({"ver": v, "damage": what, "file": bytes})); }
        };
        for cut in 0..laid.bytes.len() {
            crate::alloc::SUB.store(cut, std::sync::atomic::Ordering::Relaxed);
            run(&mut r, &laid.bytes[..cut], format!("pakd:cut:v{v}"), format!("cut to {cut} of {} bytes", laid.bytes.len()), None);
        }
        for f in case["fields"].as_array().unwrap() {
            let j = f[0].as_u64().unwrap() as usize;
            let owner = f[1].as_u64().unwrap() as usize;
            let (a, e) = laid.spans[j];
            for m in case["muts"].as_array().unwrap() {
                let mut b = laid.bytes.clone();
                if !mutate(&mut b[a..e], m.as_str().unwrap()) { continue; }
                crate::alloc::SUB.store(1_000_000 + j, std::sync::atomic::Ordering::Relaxed);
                let tok = &case["toks"][j];
                run(&mut r, &b, format!("pakd:field:v{v}"), format!("field {tok} at {a} changed ({})", m.as_str().unwrap()), (owner > 0).then_some(owner));
            }
        }
    }
    r.finish();
}
