//! Primitive codecs, identifiers, paths, bit ranges and AC7 scrambling.
use crate::common::*;
use crate::wire::{content, text};
use serde_json::Value;
use std::io::Cursor;
use unreal_asset::ac7;
use unreal_helpers::{bitvec_ext::BitVecExt, read_ext, Guid, UnrealReadExt, UnrealWriteExt};

fn bytes(v: &Value) -> Vec<u8> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect() }
fn chars(v: &Value) -> String { v.as_array().unwrap().iter().map(|x| char::from_u32(x.as_u64().unwrap() as u32).unwrap()).collect() }

type Res = Result<(), (&'static str, String)>;
pub fn replay(file: &str, extra: &str) {
    let mut r = Report::new();
    let key = if extra.is_empty() { vec![] } else { std::fs::read(extra).unwrap() };
    for case in lines(file) {
        r.cases += 1;
        let m = s(&case, "m").to_string();
        let res = guard(|| crate::alloc::armed(16 << 20, || match m.as_str() {
            "text" => t_text(&case),
            "bytes" => t_bytes(&case),
            "big" => t_big(&case),
            "arr" => t_arr(&case),
            "guid" => t_guid(&case),
            "path" => t_path(&case),
            "bits" => t_bits(&case),
            "ac7" => t_ac7(&case, &key),
            x => panic!("unknown mode {x}"),
        }));
        crate::alloc::armed(usize::MAX, || ());
        match res {
            Ok(Ok(())) => {}
            Ok(Err((k, w))) => r.violation(&format!("prim:{m}:{k}"), w, &case),
            Err(p) => r.violation(&format!("prim:{m}:panic"), format!("panic: {p}"), &case),
        }
    }
    r.finish();
}

/// every way the library offers to read a string at the current position
fn read_all(b: &[u8]) -> Vec<(&'static str, Result<Option<String>, String>, u64)> {
    let mut out = vec![];
    let mut c = Cursor::new(b);
    let r = c.read_fstring().map_err(|e| e.to_string());
    out.push(("read_fstring", r, c.position()));
    {
        use unreal_asset::reader::{ArchiveReader, ArchiveTrait, RawReader};
        let mut rr = RawReader::<unreal_asset::types::PackageIndex, _>::new(
            unreal_asset::containers::Chain::new(Cursor::new(b.to_vec()), None),
            unreal_asset::object_version::ObjectVersion::VER_UE4_CORRECT_LICENSEE_FLAG, unreal_asset::object_version::ObjectVersionUE5::UNKNOWN, false,
            unreal_asset::containers::NameMap::new());
        let r = ArchiveReader::read_fstring(&mut rr).map_err(|e| e.to_string());
        let p = ArchiveTrait::position(&mut rr);
        out.push(("RawReader::read_fstring", r, p));
    }
    if b.len() >= 4 {
        let n = i32::from_le_bytes(b[..4].try_into().unwrap());
        if n != i32::MIN {
            let mut c = Cursor::new(&b[4..]);
            let r = read_ext::read_fstring_len(&mut c, n.abs(), n < 0).map_err(|e| e.to_string());
            out.push(("read_fstring_len", r, c.position() + 4));
        }
    }
    out
}

fn t_text(c: &Value) -> Res {
    let t = chars(&c["cps"]);
    let want = bytes(&c["bytes"]);
    let mut w = vec![];
    let n = w.write_fstring(Some(&t)).map_err(|e| ("write", e.to_string()))?;
    if w != want { return Err(("encode", format!("{t:?} is written as {w:02x?}, layout requires {want:02x?}"))); }
    if n != want.len() { return Err(("size", format!("writing {t:?} reports {n} bytes, {} were written", want.len()))); }
    let mut padded = want.clone();
    padded.extend([65, 0, 1]);
    for (how, r, p) in read_all(&padded) {
        if r.as_ref().ok().and_then(|x| x.as_deref()) != Some(t.as_str()) { return Err(("decode", format!("{how}: {t:?} reads back as {r:?}"))); }
        if p != want.len() as u64 { return Err(("consume", format!("{how}: reading {t:?} consumes {p} of {} bytes", want.len()))); }
    }
    for k in 0..want.len() { for (how, r, _) in read_all(&want[..k]) { if r.is_ok() { return Err(("trunc", format!("{how}: {t:?} cut to {k} bytes reads as {r:?}"))); } } }
    let mut w = vec![];
    let n = w.write_fstring(None).map_err(|e| ("write", e.to_string()))?;
    if w != [0; 4] || n != 4 { return Err(("none", format!("absent string is written as {w:?}, size {n}"))); }
    // booleans
    for b in 0..=255u8 { if Cursor::new([b]).read_bool().ok() != Some(b != 0) { return Err(("bool", format!("bool byte {b}"))); } }
    if Cursor::new([0u8; 0]).read_bool().is_ok() { return Err(("bool", "bool read from nothing".into())); }
    for b in [false, true] { let mut w = vec![]; w.write_bool(b).unwrap(); if w != [b as u8] { return Err(("bool", format!("{b} is written as {w:?}"))); } }
    Ok(())
}
fn t_bytes(c: &Value) -> Res {
    let b = bytes(&c["bytes"]);
    let ok = c["ok"] == true;
    for (how, r, p) in read_all(&b) {
        match (&r, ok) {
            (Err(_), false) => {}
            (Ok(v), true) => {
                let want = if c["none"] == true { None } else { Some(chars(&c["cps"])) };
                if *v != want { return Err(("decode", format!("{how}: {b:02x?} reads as {v:?}, expected {want:?}"))); }
                if p != i(c, "used") as u64 { return Err(("consume", format!("{how}: {b:02x?} consumes {p}, expected {}", i(c, "used")))); }
            }
            _ => return Err(("accept", format!("{how}: {b:02x?} gives {r:?}, expected {}", if ok { "a value" } else { "an error" }))),
        }
    }
    Ok(())
}
fn t_big(c: &Value) -> Res {
    let ch = char::from_u32(i(c, "cp") as u32).unwrap();
    let n = i(c, "n") as usize;
    let t: String = std::iter::repeat(ch).take(n).collect();
    let mut w = vec![];
    let written = w.write_fstring(Some(&t));
    if c["ok"] != true {
        // longer than the reader accepts: whatever the writer does, the reader must refuse the bytes
        if written.is_ok() { for (how, r, _) in read_all(&w) { if r.is_ok() { return Err(("limit", format!("{how} accepts {n} characters"))); } } }
        return Ok(());
    }
    let k = written.map_err(|e| ("write", e.to_string()))?;
    if k != w.len() || k != i(c, "size") as usize { return Err(("size", format!("{n} x {ch:?}: reports {k}, wrote {}, expected {}", w.len(), c["size"]))); }
    if w[..4] != bytes(&c["head"])[..] { return Err(("encode", "length prefix".into())); }
    for (how, r, p) in read_all(&w) {
        if r.ok().flatten().as_deref() != Some(t.as_str()) || p != w.len() as u64 { return Err(("decode", format!("{how}: {n} x {ch:?} does not read back"))); }
    }
    Ok(())
}
fn t_arr(c: &Value) -> Res {
    let texts: Vec<String> = c["texts"].as_array().unwrap().iter().map(chars).collect();
    let want = bytes(&c["bytes"]);
    let mut w = vec![];
    w.write_array(&texts, |w, t| w.write_fstring(Some(t)).map(|_| ()).map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))).map_err(|e| ("write", e.to_string()))?;
    if w != want { return Err(("encode", format!("array written as {w:02x?}, layout requires {want:02x?}"))); }
    let rd = |b: &[u8]| { let mut cu = Cursor::new(b); let r = cu.read_array(|r| r.read_fstring().map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, e))); (r, cu.position()) };
    let mut padded = want.clone();
    padded.extend([1, 0, 0, 0, 0]);
    let (r, p) = rd(&padded);
    let got: Option<Vec<String>> = r.ok().map(|v| v.into_iter().flatten().collect());
    if got.as_ref() != Some(&texts) || p != want.len() as u64 { return Err(("decode", format!("{texts:?} reads back as {got:?} consuming {p}"))); }
    for k in 0..want.len() { if rd(&want[..k]).0.is_ok() { return Err(("trunc", format!("array cut to {k} bytes is accepted"))); } }
    // element type must not influence the count
    let n = texts.len();
    let units = Cursor::new((n as u32).to_le_bytes().to_vec()).read_array(|_| Ok(())).map(|v| v.len());
    if units.as_ref().ok() != Some(&n) { return Err(("unit", format!("{units:?} elements instead of {n}"))); }
    let small: Vec<u8> = (0..n as u8).collect();
    let mut b = (n as u32).to_le_bytes().to_vec();
    b.extend(&small);
    let mut calls = 0;
    let mut cu = Cursor::new(b);
    let got = cu.read_array(|r| { calls += 1; byte(r) });
    if got.ok() != Some(small) || calls != n || cu.position() != 4 + n as u64 { return Err(("bytes", format!("byte array of {n}"))); }
    for bad in [0x7fff_ffffu32, u32::MAX, n as u32 + 1] {
        let mut b = bad.to_le_bytes().to_vec();
        b.extend(vec![9u8; n]);
        if Cursor::new(b).read_array(byte).is_ok() { return Err(("count", format!("count {bad} over {n} bytes accepted"))); }
    }
    let v = Cursor::new(vec![7u8; n]).read_vec(n);
    if v.ok() != Some(vec![7u8; n]) || Cursor::new(vec![7u8; n]).read_vec(n + 1).is_ok() || Cursor::new(vec![7u8; n]).read_vec(1 << 40).is_ok() { return Err(("vec", format!("read_vec of {n}"))); }
    Ok(())
}
fn byte(r: &mut Cursor<Vec<u8>>) -> std::io::Result<u8> { let mut b = [0]; std::io::Read::read_exact(r, &mut b)?; Ok(b[0]) }

fn t_guid(c: &Value) -> Res {
    let b = bytes(&c["bytes"]);
    let raw: [u8; 16] = b.clone().try_into().unwrap();
    let g = Guid(raw);
    let show = chars(&c["show"]);
    if g.to_string() != show { return Err(("show", format!("{b:02x?} prints as {g}, expected {show}"))); }
    let t = chars(&c["text"]);
    let got = t.parse::<Guid>().ok();
    let want = (c["parse"]["ok"] == true).then(|| Guid(bytes(&c["parse"]["v"]).try_into().unwrap()));
    if got != want { return Err(("parse", format!("{t:?} parses as {got:?}, expected {want:?}"))); }
    let js = serde_json::to_string(&g).unwrap();
    if js != format!("{show:?}") || serde_json::from_str::<Guid>(&js).ok() != Some(g) { return Err(("serde", format!("serialises as {js}"))); }
    if serde_json::from_value::<Guid>(Value::String(t.clone())).ok() != want { return Err(("serde", format!("{t:?} deserialises differently"))); }
    let le = |k: usize| u32::from_le_bytes(raw[4 * k..4 * k + 4].try_into().unwrap());
    let ints = (le(0), le(1), le(2), le(3));
    if <(u32, u32, u32, u32)>::from(g) != ints || Guid::from(ints) != g || Guid::from_ints(ints.0, ints.1, ints.2, ints.3) != g { return Err(("ints", format!("{b:02x?} <-> {ints:?}"))); }
    let n = u128::from_le_bytes(raw);
    if u128::from(g) != n || Guid::from(n) != g || <[u8; 16]>::from(g) != raw || Guid::from(raw) != g || Guid::new(raw) != g { return Err(("u128", format!("{b:02x?} <-> {n:x}"))); }
    if g.is_zero() != raw.iter().all(|x| *x == 0) { return Err(("zero", format!("{b:02x?} is_zero"))); }
    let mut w = vec![];
    w.write_guid(&g).unwrap();
    let mut cu = Cursor::new([&w[..], &[1]].concat());
    if w != raw || cu.read_guid().ok() != Some(g) || cu.position() != 16 || Cursor::new(&w[..15]).read_guid().is_ok() { return Err(("bytes", format!("{b:02x?} <-> {w:02x?}"))); }
    Ok(())
}
fn t_path(c: &Value) -> Res {
    let p = text(s(c, "path"));
    let got = unreal_helpers::game_to_absolute(s(c, "game"), &p);
    let want = (c["want"]["some"] == true).then(|| text(s(&c["want"], "v")));
    if got != want { return Err(("convert", format!("{p:?} of game {:?} converts to {got:?}, expected {want:?}", s(c, "game")))); }
    Ok(())
}
fn t_bits(c: &Value) -> Res {
    use bitvec::prelude::*;
    fn run<T: BitStore, O: BitOrder>(c: &Value) -> Res {
        let mk = |k: &str| -> BitVec<T, O> { c[k].as_array().unwrap().iter().map(|x| x == 1).collect() };
        let mut d = mk("dst");
        let src = mk("src");
        d.set_range_from_range(i(c, "at") as i32, i(c, "num") as i32, &src, i(c, "off") as i32);
        if d != mk("want") || src != mk("src") { return Err(("copy", format!("{} at {} <- {}[{}..+{}] gives {d}", c["dst"], c["at"], c["src"], c["off"], c["num"]))); }
        Ok(())
    }
    run::<u32, Lsb0>(c)?;
    run::<u8, Lsb0>(c)?;
    run::<u8, Msb0>(c)
}
fn t_ac7(c: &Value, table: &[u8]) -> Res {
    let name = chars(&c["name"]);
    let (la, lb) = (i(c, "a") as usize, i(c, "b") as usize);
    let (p1, p2) = (i(c, "p1") as usize, i(c, "p2") as usize);
    let cell = |j: usize| table[((p1 + j) % 217) * 1024 + (p2 + j) % 1024] ^ 0x77;
    let mut a = content("r", la);
    a[..4].copy_from_slice(&[0xc1, 0x83, 0x2a, 0x9e]);
    let b = content("t", lb);
    let (ea, eb) = ac7::encrypt(&a, &b, ac7::AC7XorKey::new(&name));
    let mut wa = b"ACE7".to_vec();
    wa.extend((4..la).map(|j| a[j] ^ cell(j - 4)));
    let wb: Vec<u8> = (0..lb).map(|j| b[j] ^ cell(la - 4 + j)).collect();
    if ea != wa || eb != wb { return Err(("encrypt", format!("name {name:?}, lengths {la}+{lb}: scrambled bytes differ from the key stream"))); }
    let (da, db) = ac7::decrypt(&ea, &eb, ac7::AC7XorKey::new(&name));
    if da != a || db != b { return Err(("inverse", format!("name {name:?}, lengths {la}+{lb}: unscrambling does not give the original back"))); }
    // the two-step form advances one key over both parts
    let mut k = ac7::AC7XorKey::new(&name);
    let x = ac7::encrypt_uasset(&a, &mut k);
    let y = ac7::encrypt_uexp(&b, &mut k);
    let mut k = ac7::AC7XorKey::new(&name.to_uppercase());
    let u = ac7::decrypt_uasset(&x, &mut k);
    let v = ac7::decrypt_uexp(&y, &mut k);
    if x != ea || y != eb || u != a || v != b { return Err(("parts", format!("name {name:?}: scrambling the parts one by one differs"))); }
    Ok(())
}
