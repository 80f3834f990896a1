//! Token language shared by the layout specifications. A specification describes a file as a sequence of
//! tokens; `encode` lays it out independently of the code under test, `matches` checks bytes produced by
//! the code under test against it. Positions, lengths and digests are symbolic (labels), so the
//! specification states *what* a field refers to and never a concrete offset.
use crate::common::*;
use serde_json::Value;
use std::collections::BTreeMap;
use std::io::{Read, Write};

/// "{00e9}" escapes in specification strings denote code points.
pub fn text(t: &str) -> String {
    let mut out = String::new();
    let mut it = t.chars().peekable();
    while let Some(c) = it.next() {
        if c == '{' {
            let h: String = it.by_ref().take_while(|c| *c != '}').collect();
            out.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap());
        } else {
            out.push(c);
        }
    }
    out
}

/// Deterministic file contents by kind: t = compressible, r = incompressible, z = zeros, m = full of pak magics.
pub fn content(kind: &str, n: usize) -> Vec<u8> {
    match kind {
        "z" => vec![0; n],
        "r" => { let mut r = Rng::new(n as u64 + 77); (0..n).map(|_| r.next() as u8).collect() }
        "m" => [0xE1u8, 0x12, 0x6F, 0x5A].iter().cycle().take(n).copied().collect(),
        "M" => [0x5Au8, 0x6F, 0x12, 0xE1].iter().cycle().take(n).copied().collect(),
        _ => (0..n).map(|i| b"the quick brown fox "[(i * i / 7 + i) % 20]).collect(),
    }
}

pub fn fstring(t: &str, out: &mut Vec<u8>) {
    if t.is_ascii() {
        out.extend((t.len() as i32 + 1).to_le_bytes());
        out.extend(t.as_bytes());
        out.push(0);
    } else {
        let u: Vec<u16> = t.encode_utf16().collect();
        out.extend((-(u.len() as i32) - 1).to_le_bytes());
        for x in u { out.extend(x.to_le_bytes()); }
        out.extend([0, 0]);
    }
}

pub fn num(v: &Value) -> i128 {
    match v {
        Value::Number(n) => n.as_i64().map(|x| x as i128).or(n.as_u64().map(|x| x as i128)).unwrap(),
        Value::String(t) => t.parse().unwrap_or_else(|_| panic!("bad number {t}")),
        Value::Bool(b) => *b as i128,
        _ => panic!("bad number {v}"),
    }
}
/// Numbers of the specification: eighths, and codes for the ones that are not
pub fn real32(v: i128) -> f32 {
    match v {
        2000000001 => -0.0, 2000000002 => f32::INFINITY, 2000000003 => f32::NEG_INFINITY, 2000000004 => f32::from_bits(0x7fc0_0001),
        2000000005 => 1.0 / 3.0, 2000000006 => f32::from_bits(1), 2000000007 => f32::MIN,
        _ => v as f32 / 8.0,
    }
}
pub fn real64(v: i128) -> f64 {
    match v {
        2000000001 => -0.0, 2000000002 => f64::INFINITY, 2000000003 => f64::NEG_INFINITY, 2000000004 => f64::from_bits(0x7ff8_0000_0000_0001),
        2000000005 => 1.0 / 3.0, 2000000006 => f64::from_bits(1), 2000000007 => f64::MIN,
        _ => v as f64 / 8.0,
    }
}
pub fn int_bytes(t: &str, v: i128) -> Vec<u8> {
    let w = match t { "u8" | "i8" => 1, "u16" | "i16" => 2, "u32" | "i32" => 4, "be32" => 4, _ => 8 };
    let mut b = v.to_le_bytes()[..w].to_vec();
    if t == "be32" { b.reverse(); }
    b
}
pub fn zlib(data: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::default());
    e.write_all(data).unwrap();
    e.finish().unwrap()
}
pub fn sha1(d: &[u8]) -> [u8; 20] {
    use sha1::{Digest, Sha1};
    let mut h = Sha1::new();
    h.update(d);
    h.finalize().into()
}

/// One laid-out file: bytes, where each token landed, and the label positions.
#[derive(Default)]
pub struct Laid { pub bytes: Vec<u8>, pub spans: Vec<(usize, usize)>, pub labels: BTreeMap<String, usize> }

fn lbl(l: &BTreeMap<String, usize>, k: &str) -> i128 {
    if k == "0" || k.is_empty() { return 0; }
    *l.get(k).unwrap_or_else(|| panic!("specification refers to undefined label {k}")) as i128
}

/// Fixed part of a token (deferred ones give placeholder bytes)
fn plain(t: &Value) -> Option<Vec<u8>> {
    Some(match s(t, "t") {
        "lbl" => vec![],
        k @ ("u8" | "i8" | "u16" | "i16" | "u32" | "i32" | "u64" | "i64" | "be32") => int_bytes(k, num(&t["v"])),
        "f32" => real32(num(&t["v"])).to_le_bytes().to_vec(),
        "f64" => real64(num(&t["v"])).to_le_bytes().to_vec(),
        "str" => { let mut o = vec![]; fstring(&text(s(t, "v")), &mut o); o }
        "lit" => { let mut o = vec![]; fstring(s(t, "v"), &mut o); o }
        "nostr" => vec![0; 4],
        "bits" => { let v: u64 = t["v"].as_array().unwrap().iter().map(|b| 1u64 << b.as_u64().unwrap()).sum(); v.to_le_bytes()[..i(t, "w") as usize].to_vec() }
        "cstr" => { let mut o = text(s(t, "v")).into_bytes(); o.push(0); o }
        "uname" => { let b = text(s(t, "v")).into_bytes(); let mut o = vec![u8::try_from(b.len() + 1).unwrap()]; o.extend(b); o }
        "cwstr" => { let mut o: Vec<u8> = text(s(t, "v")).encode_utf16().flat_map(|u| u.to_le_bytes()).collect(); o.extend([0, 0]); o }
        "raw" => t["v"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect(),
        "zeros" => vec![0; i(t, "v") as usize],
        "name32" => { let mut o = text(s(t, "v")).into_bytes(); o.resize(32, 0); o }
        "data" => { let c = content(s(t, "k"), i(t, "n") as usize); c[i(t, "from") as usize..i(t, "to") as usize].to_vec() }
        "guid" if t["v"].is_array() => t["v"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect(),
        "cv" => cv_guid(s(t, "v")).to_vec(),
        "guid" => { let n = num(&t["v"]) as u8; (0..16).map(|j| n.wrapping_mul(17).wrapping_add(j * 3)).collect() }
        _ => return None,
    })
}

/// Identifiers of the custom version containers (as published by the engine)
pub fn cv_guid(n: &str) -> [u8; 16] {
    let w: [u32; 4] = match n {
        "FCoreObjectVersion" => [0x375EC13C, 0x06E448FB, 0xB50084F0, 0x262A717E],
        "FEditorObjectVersion" => [0xE4B068ED, 0xF49442E9, 0xA231DA0B, 0x2E46BB41],
        "FFrameworkObjectVersion" => [0xCFFC743F, 0x43B04480, 0x939114DF, 0x171D2073],
        "FFortniteMainBranchObjectVersion" => [0x601D1886, 0xAC644F84, 0xAA16D3DE, 0x0DEAC7D6],
        "FAnimPhysObjectVersion" => [0x29E575DD, 0xE0A34627, 0x9D10D276, 0x232CDCEA],
        "FReleaseObjectVersion" => [0x9C54D522, 0xA8264FBE, 0x94210746, 0x61B482D0],
        "FSequencerObjectVersion" => [0x7B5AE74C, 0xD2704C10, 0xA9585798, 0x0B212A5A],
        "Unknown1" => [1, 2, 3, 4],
        "Unknown2" => [9, 9, 9, 9],
        _ => panic!("unknown container {n}"),
    };
    let mut b = [0; 16];
    for (k, x) in w.iter().enumerate() { b[4 * k..4 * k + 4].copy_from_slice(&x.to_le_bytes()); }
    b
}
/// Hash stored with each entry of a name table: low half case insensitive, high half case sensitive
pub fn name_hash(t: &str) -> u32 {
    let msb = |i: u32| { let mut c = i << 24; for _ in 0..8 { c = if c & 0x8000_0000 != 0 { (c << 1) ^ 0x04C1_1DB7 } else { c << 1 }; } c };
    let lsb = |i: u32| { let mut c = i; for _ in 0..8 { c = if c & 1 != 0 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 }; } c };
    let mut h = 0u32;
    if t.is_ascii() {
        for b in t.bytes() { h = ((h >> 8) & 0xff_ffff) ^ msb((h ^ b.to_ascii_uppercase() as u32) & 0xff); }
    } else {
        for u in t.to_ascii_uppercase().encode_utf16() {
            for b in u.to_le_bytes() { h = ((h >> 8) & 0xff_ffff) ^ msb((h ^ b as u32) & 0xff); }
        }
    }
    let mut c = !0u32;
    for u in t.encode_utf16() {
        for b in (u as u32).to_le_bytes() { c = (c >> 8) ^ lsb((c ^ b as u32) & 0xff); }
    }
    (h & 0xffff) | ((!c & 0xffff) << 16)
}
/// The name table a stream needs: its explicit prefix followed by every other name in order of first use.
pub fn collect_names(tokens: &[Value]) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut add = |n: String| if !out.contains(&n) { out.push(n) };
    for t in tokens { if s(t, "t") == "names" { for n in t["v"].as_array().unwrap() { add(text(n.as_str().unwrap())) } } }
    fn used(tokens: &[Value], add: &mut impl FnMut(String)) {
        for t in tokens { if s(t, "t") == "nm" { add(text(s(t, "v"))) } else if s(t, "t") == "cut" { used(t["toks"].as_array().unwrap(), add) } }
    }
    used(tokens, &mut add);
    out
}
/// Replace name tokens by plain ones for a given name table.
pub fn bind_names(tokens: &[Value], names: &[String]) -> Result<Vec<Value>, String> { bind_grown(tokens, names, names.len()) }
/// The same for a table that had `old` entries when the file was read.
pub fn bind_grown(tokens: &[Value], names: &[String], old: usize) -> Result<Vec<Value>, String> {
    let mut out = Vec::with_capacity(tokens.len());
    for t in tokens {
        match s(t, "t") {
            "nm" => {
                let n = text(s(t, "v"));
                let at = names.iter().position(|x| *x == n).ok_or_else(|| format!("name {n:?} is missing from the name table"))?;
                out.push(serde_json::json!({"t": "i32", "v": at, "name": n}));
                out.push(serde_json::json!({"t": "i32", "v": t["n"], "number_of": n}));
            }
            "badnm" => {
                let d = num(&t["v"]);
                out.push(serde_json::json!({"t": "i32", "v": if d < 0 { d as i64 } else { names.len() as i64 + d as i64 }, "what": "no such name"}));
                out.push(serde_json::json!({"t": "i32", "v": 0}));
            }
            // the first part of something; lengths inside it are those of the whole
            "cut" => {
                let all = encode(&bind_grown(t["toks"].as_array().unwrap(), names, old)?).bytes;
                let n = (all.len() * i(t, "keep") as usize / 1000).max(i(t, "min") as usize);
                out.push(serde_json::json!({"t": "raw", "v": all[..n], "what": "cut"}));
            }
            "nref" => out.push(serde_json::json!({"t": "i32", "v": if names.len() > old { serde_json::json!(names.len()) } else { t["v"].clone() }, "what": "names used by export data"})),
            "ncount" => out.push(serde_json::json!({"t": "i32", "v": names.len(), "count": true, "what": "name count"})),
            "names" => for (k, n) in names.iter().enumerate() {
                out.push(serde_json::json!({"t": "lit", "v": n}));
                if t["h"].as_bool().unwrap() {
                    let alt = t["alt"].as_array().unwrap().iter().find(|a| k < old && text(s(a, "n")) == *n).map(|a| i(a, "h") as u32);
                    out.push(serde_json::json!({"t": "u32", "v": alt.unwrap_or_else(|| name_hash(n)), "hash_of": n}));
                }
            },
            _ => out.push(t.clone()),
        }
    }
    Ok(out)
}

pub fn encode(tokens: &[Value]) -> Laid {
    let mut l = Laid::default();
    let mut patches = vec![];
    for (n, t) in tokens.iter().enumerate() {
        let at = l.bytes.len();
        match s(t, "t") {
            "lbl" => { assert!(l.labels.insert(s(t, "v").to_string(), at).is_none(), "label {} defined twice", s(t, "v")); }
            "pos" => { l.bytes.extend(vec![0; i(t, "w") as usize]); patches.push((n, at)); }
            "sha1" => { l.bytes.extend([0; 20]); patches.push((n, at)); }
            "z" => { let c = content(s(t, "k"), i(t, "n") as usize); l.bytes.extend(zlib(&c[i(t, "from") as usize..i(t, "to") as usize])); }
            k => l.bytes.extend(plain(t).unwrap_or_else(|| panic!("unknown token {k}"))),
        }
        l.spans.push((at, l.bytes.len()));
    }
    // digests last: they cover patched fields
    for pass in 0..2 {
        for &(n, at) in &patches {
            let t = &tokens[n];
            if s(t, "t") == "pos" && pass == 0 {
                let v = (lbl(&l.labels, s(t, "a")) - lbl(&l.labels, s(t, "b"))) / t["div"].as_i64().unwrap_or(1) as i128 + t["add"].as_i64().unwrap_or(0) as i128;
                let w = i(t, "w") as usize;
                l.bytes[at..at + w].copy_from_slice(&v.to_le_bytes()[..w]);
            } else if s(t, "t") == "sha1" && pass == 1 {
                let h = sha1(&l.bytes[lbl(&l.labels, s(t, "a")) as usize..lbl(&l.labels, s(t, "b")) as usize]);
                l.bytes[at..at + 20].copy_from_slice(&h);
            }
        }
    }
    l
}

/// Does `bytes` have the layout the specification prescribes?
pub fn matches(tokens: &[Value], bytes: &[u8]) -> Result<(), String> {
    let mut at = 0usize;
    let mut labels = BTreeMap::new();
    let mut deferred = vec![];
    let describe = |n: usize| format!("token {n} {}", tokens[n]);
    for (n, t) in tokens.iter().enumerate() {
        let take = |w: usize| bytes.get(at..at + w).ok_or_else(|| format!("file ends inside {}", describe(n)));
        match s(t, "t") {
            "lbl" => { labels.insert(s(t, "v").to_string(), at); }
            "pos" => { let w = i(t, "w") as usize; take(w)?; deferred.push((n, at)); at += w; }
            "sha1" => { take(20)?; deferred.push((n, at)); at += 20; }
            "any" => { let w = i(t, "v") as usize; take(w)?; at += w; }
            "z" => {
                let c = content(s(t, "k"), i(t, "n") as usize);
                let want = &c[i(t, "from") as usize..i(t, "to") as usize];
                let mut d = flate2::read::ZlibDecoder::new(&bytes[at..]);
                let mut got = vec![];
                d.read_to_end(&mut got).map_err(|e| format!("{}: {e}", describe(n)))?;
                if got != want { return Err(format!("{}: block inflates to {} other bytes", describe(n), got.len())); }
                at += d.total_in() as usize;
            }
            _ => {
                let want = plain(t).unwrap();
                let got = take(want.len())?;
                if got != want { return Err(format!("{} at {at}: bytes {:02x?}, layout requires {:02x?}", describe(n), &got[..got.len().min(24)], &want[..want.len().min(24)])); }
                at += want.len();
            }
        }
    }
    if at != bytes.len() { return Err(format!("{} bytes after the end of the layout", bytes.len() - at)); }
    for (n, p) in deferred {
        let t = &tokens[n];
        if s(t, "t") == "pos" {
            let w = i(t, "w") as usize;
            let mut b = [0u8; 16];
            b[..w].copy_from_slice(&bytes[p..p + w]);
            let got = i128::from_le_bytes(b);
            let want = lbl(&labels, s(t, "a")) - lbl(&labels, s(t, "b")) + t["add"].as_i64().unwrap_or(0) as i128;
            if got != want { return Err(format!("{} at {p}: holds {got}, layout requires {want}", describe(n))); }
        } else {
            let h = sha1(&bytes[lbl(&labels, s(t, "a")) as usize..lbl(&labels, s(t, "b")) as usize]);
            if bytes[p..p + 20] != h { return Err(format!("{} at {p}: digest does not cover its section", describe(n))); }
        }
    }
    Ok(())
}

/// Where things are in a file that should have this layout up to the values in it: widths come from the file itself.
pub struct Walked { pub labels: BTreeMap<String, usize>, pub at: Vec<usize>, pub end: usize }
pub fn walk(tokens: &[Value], bytes: &[u8]) -> Result<Walked, String> {
    let mut w = Walked { labels: BTreeMap::new(), at: vec![], end: 0 };
    for t in tokens {
        w.at.push(w.end);
        let n = match s(t, "t") {
            "lbl" => { w.labels.insert(s(t, "v").to_string(), w.end); 0 }
            "pos" => i(t, "w") as usize,
            "str" | "lit" | "nostr" => {
                let l = i32::from_le_bytes(bytes.get(w.end..w.end + 4).ok_or("the file ends in a string")?.try_into().unwrap()) as i64;
                4 + (if l < 0 { -2 * l } else { l }) as usize
            }
            _ => plain(t).unwrap().len(),
        };
        w.end += n;
        if w.end > bytes.len() { return Err(format!("the file ends in {t}")) }
    }
    Ok(w)
}
pub fn field(bytes: &[u8], at: usize, w: usize) -> i128 {
    let mut b = [0u8; 16];
    b[..w].copy_from_slice(&bytes[at..at + w]);
    if b[w - 1] & 0x80 != 0 { b[w..].fill(0xff) }
    i128::from_le_bytes(b)
}
