//! Mappings laid out by the specification are read and queried; unversioned property lists are read through them.
use crate::common::*;
use crate::{alloc, wire};
use serde_json::{json, Value};
use std::io::{Cursor, Read, Seek, SeekFrom, Write};
use std::sync::atomic::Ordering::Relaxed;
use unreal_asset::base::{passthrough_archive_reader, passthrough_archive_writer};
use unreal_asset::containers::{Chain, IndexedMap, NameMap, SharedResource};
use unreal_asset::custom_version::{CustomVersion, CustomVersionTrait};
use unreal_asset::engine_version::{get_object_versions, EngineVersion};
use unreal_asset::object_version::{ObjectVersion, ObjectVersionUE5};
use unreal_asset::properties::{int_property::BytePropertyValue, Property, PropertyDataTrait};
use unreal_asset::reader::{ArchiveReader, ArchiveTrait, ArchiveType, ArchiveWriter, RawReader, RawWriter};
use unreal_asset::types::{fname::ToSerializedName, FName, PackageIndex};
use unreal_asset::unversioned::header::UnversionedHeader;
use unreal_asset::unversioned::properties::{UsmapProperty, UsmapPropertyData, UsmapPropertyDataTrait};
use unreal_asset::unversioned::{Ancestry, Usmap};
use unreal_asset::Error;

type Raw = RawReader<PackageIndex, Cursor<Vec<u8>>>;
/// An archive whose objects are stored without property tags
struct Un { inner: Raw, maps: Usmap }
/// Collects what is written without property tags
struct UnW<'a> { inner: RawWriter<'a, PackageIndex, Cursor<Vec<u8>>>, maps: Usmap }
macro_rules! pass { ($($f:ident -> $t:ty),*) => { $(fn $f(&self) -> $t { self.inner.$f() })* } }
macro_rules! untagged { ($($t:tt)*) => {
    impl ArchiveTrait<PackageIndex> for $($t)* {
        fn get_archive_type(&self) -> ArchiveType { ArchiveType::UAsset }
        fn get_custom_version<T: CustomVersionTrait + Into<i32>>(&self) -> CustomVersion { self.inner.get_custom_version::<T>() }
        fn has_unversioned_properties(&self) -> bool { true }
        fn position(&mut self) -> u64 { self.inner.position() }
        pass!(use_event_driven_loader -> bool, get_name_map -> SharedResource<NameMap>, get_array_struct_type_override -> &IndexedMap<String, String>, get_map_key_override -> &IndexedMap<String, String>,
            get_map_value_override -> &IndexedMap<String, String>, get_engine_version -> EngineVersion, get_object_version -> ObjectVersion, get_object_version_ue5 -> ObjectVersionUE5, get_parent_class_export_name -> Option<FName>);
        fn get_mappings(&self) -> Option<&Usmap> { Some(&self.maps) }
        fn get_object_name(&self, i: PackageIndex) -> Option<FName> { self.inner.get_object_name(i) }
        fn get_object_name_packageindex(&self, i: PackageIndex) -> Option<FName> { self.inner.get_object_name_packageindex(i) }
    }
    impl Seek for $($t)* { fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { self.inner.seek(p) } }
} }
untagged!(Un);
untagged!(UnW<'_>);
impl ArchiveReader<PackageIndex> for Un { passthrough_archive_reader!(inner); }
impl Read for Un { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.inner.read(b) } }
impl ArchiveWriter<PackageIndex> for UnW<'_> { passthrough_archive_writer!(inner); }
impl Write for UnW<'_> { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.inner.write(b) } fn flush(&mut self) -> std::io::Result<()> { self.inner.flush() } }

fn pack(method: i64, d: &[u8]) -> Vec<u8> {
    match method {
        2 => { let mut o = vec![]; brotli::BrotliCompress(&mut Cursor::new(d), &mut o, &Default::default()).unwrap(); o }
        3 => zstd::encode_all(d, 3).unwrap(),
        _ => d.to_vec(),
    }
}
fn file(head: &[u8], method: i64, payload: &[u8]) -> Vec<u8> {
    let p = pack(method, payload);
    let mut f = head.to_vec();
    f.extend((p.len() as u32).to_le_bytes());
    f.extend((payload.len() as u32).to_le_bytes());
    f.extend(p);
    f
}
fn ty(d: &UsmapPropertyData) -> Value {
    let t: u8 = d.get_property_type().into();
    match d {
        UsmapPropertyData::UsmapEnumPropertyData(e) => json!({"t": t, "in": ty(&e.inner_property), "n": e.name}),
        UsmapPropertyData::UsmapStructPropertyData(e) => json!({"t": t, "n": e.struct_type}),
        UsmapPropertyData::UsmapSetPropertyData(e) => json!({"t": t, "in": ty(&e.inner_type)}),
        UsmapPropertyData::UsmapArrayPropertyData(e) => json!({"t": t, "in": ty(&e.inner_type)}),
        UsmapPropertyData::UsmapMapPropertyData(e) => json!({"t": t, "in": ty(&e.inner_type), "val": ty(&e.value_type)}),
        UsmapPropertyData::UsmapShallowPropertyData(_) => json!({"t": t}),
    }
}
fn prop(p: &UsmapProperty) -> Value { json!({"name": p.name, "slot": p.schema_index, "dim": p.array_size, "idx": p.array_index, "type": ty(&p.property_data)}) }
fn texts(v: &Value) -> Value {
    match v { Value::String(t) => Value::String(wire::text(t)), Value::Array(a) => Value::Array(a.iter().map(texts).collect()), Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), texts(v))).collect()), v => v.clone() }
}
fn check(what: &str, got: Value, want: &Value) -> Result<(), String> {
    let want = texts(want);
    if got == want { return Ok(()) }
    let cut = |v: &Value| v.to_string().chars().take(400).collect::<String>();
    Err(format!("{what}: reported {}, the file denotes {}", cut(&got), cut(&want)))
}
fn seen(u: &Usmap, v: &Value) -> Result<(), String> {
    check("version", json!(u8::from(u.version)), &v["version"])?;
    check("names", json!(u.name_map), &v["names"])?;
    check("enums", u.enum_map.iter().map(|(_, k, v)| json!([k, v])).collect(), &v["enums"])?;
    check("schemas", u.schemas.iter().map(|(_, k, s)| json!({"name": k, "super": s.super_type, "count": s.prop_count, "props": s.properties.values().map(prop).collect::<Vec<_>>(), "path": s.module_path.clone().unwrap_or_default()})).collect(), &v["schemas"])?;
    if u.schemas.iter().any(|(_, k, s)| *k != s.name) { return Err("a schema is filed under another name".into()) }
    check("compression", json!(u8::from(u.compression_method)), &v["method"])?;
    check("extensions", json!(u.extension_version.bits()), &v["ext"])?;
    if v["hasver"].as_bool().unwrap() {
        check("object version", json!(u.object_version as i32), &v["ov"])?;
        check("UE5 object version", json!(u.object_version_ue5 as i32), &v["ov5"])?;
        check("net cl", json!(u.net_cl.to_string()), &v["netcl"])?;
        let got = u.custom_versions.iter().map(|c| json!([c.guid.0.to_vec(), c.version])).collect();
        check("custom versions", got, &v["cvs"].as_array().unwrap().iter().map(|c| json!([wire::cv_guid(c[0].as_str().unwrap()), c[1]])).collect())
    } else {
        check("versioning", json!([u.object_version == ObjectVersion::UNKNOWN, u.object_version_ue5 == ObjectVersionUE5::UNKNOWN, u.custom_versions.len(), u.net_cl]), &json!([true, true, 0, 0]))
    }
}
fn dummy(n: &str) -> FName { FName::new_dummy(n.to_string(), 0) }
fn looked(u: &Usmap, l: &Value) -> Result<(), String> {
    let anc = Ancestry { ancestry: l["anc"].as_array().unwrap().iter().map(|n| dummy(&wire::text(n.as_str().unwrap()))).collect() };
    let n = dummy(&wire::text(s(l, "n")));
    let dup = i(l, "dup") as u32;
    let show = |r: Option<(&UsmapProperty, u32)>| match r { None => json!({"found": false}), Some((p, g)) => json!({"found": true, "p": prop(p), "g": g}) };
    let got = guard(|| show(u.get_property_with_duplication_index(&n, &anc, dup))).map_err(|m| format!("look-up crashed: {m}"))?;
    check(&format!("look-up of {:?}[{dup}] in {}", s(l, "n"), l["anc"]), got, &l["r"])?;
    if dup == 0 {
        let got = guard(|| u.get_property(&n, &anc).map(prop)).map_err(|m| format!("look-up crashed: {m}"))?.unwrap_or_default();
        check(&format!("look-up of {:?} in {}", s(l, "n"), l["anc"]), got, &l["r"]["p"])?;
    }
    Ok(())
}
fn code(t: &str) -> i64 {
    (0..=255u8).filter_map(|k| unreal_asset::unversioned::properties::EPropertyType::try_from(k).ok()).find(|k| k.to_string() == t).map(|k| k as i64).unwrap_or(-1)
}
fn value(p: &Property) -> Value {
    match p {
        Property::BoolProperty(p) => json!(p.value as i64), Property::IntProperty(p) => json!(p.value), Property::FloatProperty(p) => json!(p.value.0 as i64), Property::DoubleProperty(p) => json!(p.value.0 as i64),
        Property::UInt64Property(p) => json!(p.value), Property::UInt32Property(p) => json!(p.value), Property::UInt16Property(p) => json!(p.value), Property::Int64Property(p) => json!(p.value),
        Property::Int16Property(p) => json!(p.value), Property::Int8Property(p) => json!(p.value), Property::StrProperty(p) => json!(p.value),
        Property::NameProperty(p) => json!(p.value.get_owned_content()),
        Property::ByteProperty(p) => match &p.value { BytePropertyValue::Byte(b) => json!(b), v => json!(format!("{v:?}")) },
        Property::ObjectProperty(p) => json!(p.value.index),
        Property::EnumProperty(p) => json!([p.enum_type.as_ref().map(|n| n.get_owned_content()), p.value.as_ref().map_or("(no value)".to_string(), |n| n.get_owned_content())]),
        Property::StructProperty(p) => match &p.value[..] {
            [Property::VectorProperty(v)] => json!(["Vector", v.value.x.0 as i64, v.value.y.0 as i64, v.value.z.0 as i64]),
            ps => json!([p.struct_type.as_ref().map(|n| n.get_owned_content()), ps.iter().map(reported).collect::<Vec<_>>()]),
        },
        Property::ArrayProperty(p) => p.value.iter().map(value).collect(),
        Property::SetProperty(p) => json!([p.removed_items.value.iter().map(value).collect::<Vec<_>>(), p.value.value.iter().map(value).collect::<Vec<_>>()]),
        Property::MapProperty(p) => json!([p.keys_to_remove.iter().flatten().map(value).collect::<Vec<_>>(), p.value.iter().map(|(_, k, v)| json!([value(k), value(v)])).collect::<Vec<_>>()]),
        p => json!(format!("{p:?}")),
    }
}
fn reported(p: &Property) -> Value {
    let (name, t) = (p.get_name().get_owned_content(), code(&p.to_serialized_name()));
    match p { Property::EmptyProperty(_) => json!({"name": name, "type": t, "zero": true}), _ => json!({"name": name, "type": t, "zero": false, "idx": p.get_duplication_index(), "v": value(p)}) }
}
fn walked(u: &Usmap, e: i64, w: &Value) -> Result<(), (&'static str, String)> {
    let toks = w["toks"].as_array().unwrap();
    let names = wire::collect_names(toks);
    let mut map = NameMap::new();
    for n in &names { map.get_mut().add_name_reference(n.clone(), false); }
    let head = wire::encode(w["head"].as_array().unwrap()).bytes;
    let mut all = head.clone();
    all.extend(wire::encode(&wire::bind_names(toks, &names).unwrap()).bytes);
    let len = all.len() as u64;
    let (o, o5) = get_object_versions(crate::versions::eng(e));
    let mut r = Un { inner: RawReader::new(Chain::new(Cursor::new(all), None), o, o5, false, map), maps: u.clone() };
    let fail = |m: String| ("header", m);
    let mut h = guard(|| UnversionedHeader::new(&mut r)).map_err(|m| fail(format!("reading a header crashed: {m}")))?.map_err(|m| fail(format!("reading a header failed: {m}")))?.ok_or_else(|| fail("no header reported".into()))?;
    let got = json!({"frs": h.fragments.iter().map(|f| json!({"skip": f.skip_num, "num": f.value_num, "zeros": f.has_zeros})).collect::<Vec<_>>(), "firsts": h.fragments.iter().map(|f| f.first_num).collect::<Vec<_>>(),
        "bits": h.zero_mask.iter().map(|b| *b as u8).collect::<Vec<_>>(), "values": h.has_non_zero_values});
    check("header", got, &w["h"]).map_err(fail)?;
    if r.position() != head.len() as u64 { return Err(fail(format!("a header of {} bytes was read as {}", head.len(), r.position()))) }
    let mut back = Cursor::new(vec![]);
    let mut out = UnW { inner: RawWriter::new(&mut back, o, o5, false, NameMap::new()), maps: u.clone() };
    guard(|| h.write(&mut out)).map_err(|m| fail(format!("writing a header crashed: {m}")))?.map_err(|m| fail(format!("writing a header failed: {m}")))?;
    let back = back.into_inner();
    if back != head { return Err(fail(format!("a header {head:02x?} was written back as {back:02x?}"))) }
    let fail = |m: String| ("list", m);
    let anc = Ancestry::new(dummy(s(w, "of")));
    let mut ps = vec![];
    let ok = loop {
        match guard(|| Property::new(&mut r, anc.clone(), Some(&mut h), true)).map_err(|m| fail(format!("reading a property of {} crashed after {ps:?}: {m}", s(w, "of"))))? {
            Ok(None) => break true,
            Err(_) => break false,
            Ok(Some(p)) => {
                if *p.get_ancestry() != anc { return Err(fail("a property reports another ancestry".into())) }
                ps.push(reported(&p));
                if ps.len() > 5000 { return Err(fail("the list does not end".into())) }
            }
        }
    };
    // a list that names a slot of no type, or a list of an unknown type, is refused there
    if s(w, "of").is_empty() || ok != w["ok"].as_bool().unwrap() { return Err(fail(format!("list of {}: {} after {}", s(w, "of"), if ok { "ended" } else { "refused" }, json!(ps)))) }
    let want = if u.schemas.get_by_key(s(w, "of")).is_some() { w["ps"].clone() } else { json!([]) };
    check(&format!("properties of {}", s(w, "of")), json!(ps), &want).map_err(fail)?;
    if ok && r.position() != len { return Err(fail(format!("{} of {len} bytes of the list were read", r.position()))) }
    Ok(())
}
fn one(c: &Value, rep: &mut Report) -> Result<(), (&'static str, String)> {
    let head = wire::encode(c["head"].as_array().unwrap()).bytes;
    let payload = wire::encode(c["toks"].as_array().unwrap()).bytes;
    let f = file(&head, i(c, "method"), &payload);
    let u = guard(|| Usmap::new(Cursor::new(f))).map_err(|m| ("read", format!("reading crashed: {m}")))?.map_err(|m| ("read", format!("reading failed: {m}")))?;
    if c["view"].is_object() { seen(&u, &c["view"]).map_err(|m| ("view", m))?; }
    for l in c["look"].as_array().unwrap() { rep.steps += 1; looked(&u, l).map_err(|m| ("lookup", m))?; }
    for a in c["alls"].as_array().unwrap() {
        let got = guard(|| u.get_all_properties(s(a, "of")).into_iter().map(prop).collect()).map_err(|m| ("all", m))?;
        check(&format!("all properties of {}", s(a, "of")), got, &a["ps"]).map_err(|m| ("all", m))?;
    }
    for w in c["walks"].as_array().unwrap() { rep.steps += 1; rep.stat(if w["ok"].as_bool().unwrap() { "lists read" } else { "lists refused" }); walked(&u, i(c, "eng"), w)?; }
    Ok(())
}
pub fn replay(f: &str) {
    let mut rep = Report::new();
    for (n, c) in lines(f).enumerate() {
        alloc::CASE.store(n, Relaxed);
        rep.cases += 1;
        if let Err((k, m)) = one(&c, &mut rep) { rep.violation(&format!("usmap:{k}"), m, &c) }
    }
    rep.finish();
}
/// Damaged mappings are refused.
pub fn damage(f: &str) {
    let mut rep = Report::new();
    for (n, c) in lines(f).enumerate() {
        alloc::CASE.store(n, Relaxed);
        let (at, by) = (i(&c, "at") as usize, i(&c, "by") as usize);
        let head = wire::encode(c["head"].as_array().unwrap()).bytes;
        let toks = c["toks"].as_array().unwrap();
        let laid = wire::encode(toks);
        let method = i(&c, "method");
        let pick = |k: &str| { let l: Vec<usize> = (0..toks.len()).filter(|j| !toks[*j][k].is_null() || s(&toks[*j], "t") == k).collect(); if l.is_empty() { None } else { Some(l[at % l.len()]) } };
        let put = |j: usize, v: Value| { let mut t = toks.clone(); t[j] = v; file(&head, method, &wire::encode(&t).bytes) };
        let num = |j: usize, v: i64| { let mut t = toks[j].clone(); t["v"] = json!(v); put(j, t) };
        let (whole, len, body) = (file(&head, method, &laid.bytes), laid.bytes.len(), laid.labels["body"]);
        for what in c["whats"].as_array().unwrap() {
            let what = what.as_str().unwrap();
            let b = match what {
                "cut" => Some(whole[..whole.len() * at / 1000].to_vec()),
                "payload" => { let k = len * at / 1000; (k != body).then(|| file(&head, method, &laid.bytes[..k])) }
                "index" => pick("ix").map(|j| num(j, if by % 2 == 0 { -1 - by as i64 } else { 24 + by as i64 })),
                "type" => pick("ty").map(|j| num(j, 28 + (by as i64 % 227))),
                "magic" => { let mut b = whole.clone(); b[at % 2] ^= 1 << (by % 8); Some(b) }
                "version" => { let mut b = whole.clone(); b[2] = 4 + (by % 252) as u8; Some(b) }
                "method" => { let mut b = whole.clone(); b[head.len() - 1] = [1, 4, 254, 255, 77][by % 5]; Some(b) }
                "size" => { let mut b = whole.clone(); let d = (len as u32).wrapping_add([1, u32::MAX, 1000, 0x7fff_ffff][by % 4]); b[head.len() + 4..head.len() + 8].copy_from_slice(&d.to_le_bytes()); Some(b) }
                "csize" => { let mut b = whole.clone(); let d = whole.len() as u32 + [1, 0x7000_0000, 0xf000_0000][by % 3]; b[head.len()..head.len() + 4].copy_from_slice(&d.to_le_bytes()); Some(b) }
                "count" => pick("cnt").map(|j| num(j, [0xffff_ffff, 0x7fff_ffff, 0x0fff_ffff][by % 3])),
                "path" => pick("path").map(|j| num(j, i(&toks[j], "path") + if s(&toks[j], "t") == "u8" { 0 } else { by as i64 })),
                "ext" => (s(&c, "ext") != "none").then(|| { let mut p = laid.bytes.clone(); p[body..body + 4].copy_from_slice(&[2u32, 3, 0xffff_ffff, 0x8000_0001][by % 4].to_le_bytes()); file(&head, method, &p) }),
                "length" => pick("uname").map(|j| put(j, json!({"t": "raw", "v": [0]}))),
                _ => pick("uname").map(|j| put(j, json!({"t": "raw", "v": [4, 97, 0xff, 0xfe]}))),
            };
            let Some(b) = b else { continue };
            rep.cases += 1; rep.steps += 1; rep.stat(what);
            let r = alloc::armed(64 << 20, || guard(|| Usmap::new(Cursor::new(b)).map(|_| ())));
            let bad = match r { Err(m) => Some(("crash", m)), Ok(Ok(_)) => Some(("accepted", String::new())), Ok(Err(_)) => None };
            if let Some((k, m)) = bad { rep.violation(&format!("usmapbad:{k}:{what}"), format!("damaged mappings ({what}) {k} {m}"), &c) }
        }
    }
    rep.finish();
}
