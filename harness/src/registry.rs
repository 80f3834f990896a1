//! Asset registries laid out by the specification are read, compared, saved, edited and saved again.
use crate::asset::NAMES;
use crate::common::*;
use crate::{alloc, dbg, wire};
use bitvec::prelude::{BitVec, Lsb0};
use serde_json::{json, Value};
use std::io::Cursor;
use std::sync::atomic::Ordering::Relaxed;
use unreal_asset::containers::{Chain, IndexedMap, NameMap, SharedResource};
use unreal_asset::custom_version::FAssetRegistryVersionType as Ver;
use unreal_asset::engine_version::get_object_versions;
use unreal_asset::flags::EPackageFlags;
use unreal_asset::reader::{RawReader, RawWriter};
use unreal_asset::registry::objects::asset_bundle_data::AssetBundleData;
use unreal_asset::registry::objects::asset_data::{AssetData, TopLevelAssetPath};
use unreal_asset::registry::objects::depends_node::{AssetIdentifier, DependsNode};
use unreal_asset::registry::objects::md5_hash::FMD5Hash;
use unreal_asset::registry::objects::store::{EValueType, Store, ValueId};
use unreal_asset::registry::AssetRegistryState as R;
use unreal_asset::types::{FName, PackageIndex};
use unreal_helpers::Guid;

type Names = SharedResource<NameMap>;
fn map_of(names: &[String]) -> Names {
    let mut m = NameMap::new();
    for n in names { m.get_mut().add_name_reference(n.clone(), false); }
    m
}
fn reader(bytes: &[u8], e: i64, names: Names) -> RawReader<PackageIndex, Cursor<Vec<u8>>> {
    let (o, o5) = get_object_versions(crate::versions::eng(e));
    RawReader::new(Chain::new(Cursor::new(bytes.to_vec()), None), o, o5, false, names)
}
fn tried<T, E: std::fmt::Display>(what: &str, f: impl FnOnce() -> Result<T, E>) -> Result<T, String> {
    guard(f).map_err(|m| format!("{what} crashed: {m}"))?.map_err(|m| format!("{what} failed: {m}"))
}
struct World { eng: i64, ver: i64, names: Vec<String> }
impl World {
    fn load(&self, bytes: &[u8]) -> Result<R, String> {
        // the newer formats leave the names to the caller
        let m = if self.ver >= 8 { map_of(&self.names) } else { NameMap::new() };
        tried("reading", || R::new(&mut reader(bytes, self.eng, m)))
    }
    fn save(&self, r: &R) -> Result<Vec<u8>, String> {
        let mut c = Cursor::new(vec![]);
        tried("writing", || r.write(&mut c))?;
        Ok(c.into_inner())
    }
    fn lay(&self, toks: &Value, old: usize) -> (Vec<Value>, Vec<u8>) {
        let t = wire::bind_grown(toks.as_array().unwrap(), &self.names, old).unwrap();
        let b = wire::encode(&t).bytes;
        (t, b)
    }
    fn nm(&mut self, v: &Value, r: &mut R) -> FName {
        let n = wire::text(v[0].as_str().unwrap());
        if !self.names.contains(&n) { self.names.push(n.clone()) }
        let at = if self.ver >= 8 { self.names.iter().position(|x| *x == n).unwrap() as i32 } else { r.add_fname(&n) };
        FName::new(at, v[1].as_i64().unwrap() as i32, map_of(&self.names))
    }
}
fn bits(b: &BitVec<u32, Lsb0>) -> dbg::T { dbg::T::List(b.iter().map(|x| dbg::T::Atom((*x as u8).to_string())).collect()) }
fn tree(r: &R) -> dbg::T {
    // bit vectors print their address: list them
    let mut t = dbg::parse(&format!("Root {{ assets_data: {:?}, package_data: {:?} }}", r.assets_data, r.package_data));
    if let Some(dbg::T::List(l)) = t.at("assets_data") {
        for (a, t) in r.assets_data.iter().zip(l) {
            if let Some(v) = t.at("tags_and_values") { *v = dbg::T::Map(a.tags_and_values.iter().map(|(_, k, v)| (dbg::parse(&format!("{k:?}")), dbg::parse(&format!("{v:?}")))).collect()) }
        }
    }
    let nodes = r.depends_nodes.iter().map(|n| {
        let deps = |l: &[DependsNode]| l.iter().map(|n| {
            let mut n = n.clone();
            n.package_flags = None; n.manage_flags = None;
            dbg::parse(&format!("{n:?}"))
        }).collect::<Vec<_>>();
        let flags = |b: &Option<BitVec<u32, Lsb0>>| b.as_ref().map(bits).unwrap_or(dbg::T::Atom("None".into()));
        dbg::T::Struct("DependsNode".into(), vec![("identifier".into(), dbg::parse(&format!("{:?}", n.identifier))),
            ("hard_dependencies".into(), dbg::T::List(deps(&n.hard_dependencies))), ("soft_dependencies".into(), dbg::T::List(deps(&n.soft_dependencies))),
            ("name_dependencies".into(), dbg::T::List(deps(&n.name_dependencies))), ("hard_manage_dependencies".into(), dbg::T::List(deps(&n.hard_manage_dependencies))),
            ("soft_manage_dependencies".into(), dbg::T::List(deps(&n.soft_manage_dependencies))), ("referencers".into(), dbg::T::List(deps(&n.referencers))),
            ("package_flags".into(), flags(&n.package_flags)), ("manage_flags".into(), flags(&n.manage_flags))])
    }).collect();
    if let dbg::T::Struct(_, f) = &mut t { f.push(("depends_nodes".into(), dbg::T::List(nodes))) }
    t
}
fn view(r: &R, v: &Value) -> Result<(), String> { dbg::same(v, &guard(|| tree(r)).map_err(|m| format!("printing crashed: {m}"))?, "", &NAMES) }
fn diff(toks: &[Value], want: &[u8], got: &[u8]) -> Option<String> {
    let p = |b: &[u8]| crate::asset::Parts { head: b.to_vec(), bulk: None };
    crate::asset::diff(toks, &p(want), &p(got))
}
fn opt_str(v: &Value) -> Option<String> {
    // an empty text and no text are stored alike
    v["some"].as_bool().unwrap().then(|| wire::text(v["v"].as_str().unwrap()))
}
fn ident(w: &mut World, r: &mut R, v: &Value) -> AssetIdentifier {
    let mut o = |k: usize| if v[k]["some"].as_bool().unwrap() { Some(w.nm(&v[k]["v"], r)) } else { None };
    AssetIdentifier { package_name: o(0), primary_asset_type: o(1), object_name: o(2), value_name: o(3) }
}
fn edit(w: &mut World, r: &mut R, ed: &Value) {
    let j = i(ed, "j") as usize;
    let ver = Ver::try_from(w.ver as i32).unwrap();
    let flags = |v: &Value| EPackageFlags::from_bits(wire::num(v) as u32).unwrap();
    match s(ed, "op") {
        "none" => {}
        "asset-add" => {
            let a = &ed["a"];
            let mut tags = IndexedMap::new();
            for t in a["tags"].as_array().unwrap() { let k = w.nm(&t[0], r); tags.insert(k, opt_str(&t[1])); }
            let [op, pn, pp, an] = ["object_path", "package_name", "package_path", "asset_name"].map(|f| w.nm(&a[f], r));
            let (c0, c1) = (w.nm(&a["class"][0], r), w.nm(&a["class"][1], r));
            let (class, path) = if w.ver >= 14 { (None, Some(TopLevelAssetPath { package_name: c0, asset_name: c1 })) } else { (Some(c1), None) };
            r.assets_data.push(AssetData::from_data(op, pn, pp, an, class, path, tags, AssetBundleData::default(),
                a["chunks"].as_array().unwrap().iter().map(|c| c.as_i64().unwrap() as i32).collect(), flags(&a["flags"]), ver));
        }
        "asset-del" => { r.assets_data.remove(j); }
        "asset-name" => {
            let n = w.nm(&ed["n"], r);
            let a = &mut r.assets_data[j];
            match s(ed, "f") { "object_path" => a.object_path = n, "package_path" => a.package_path = n, "package_name" => a.package_name = n, _ => a.asset_name = n }
        }
        "asset-class" => {
            let (c0, c1) = (w.nm(&ed["n"][0], r), w.nm(&ed["n"][1], r));
            let a = &mut r.assets_data[j];
            if w.ver >= 14 { a.asset_path = Some(TopLevelAssetPath { package_name: c0, asset_name: c1 }) } else { a.asset_class = Some(c1) }
        }
        "tag-set" => { let k = w.nm(&ed["k"], r); r.assets_data[j].tags_and_values.insert(k, opt_str(&ed["v"])); }
        "tag-del" => { let k = w.nm(&ed["k"], r); r.assets_data[j].tags_and_values.remove_by_key(&k).expect("the tag is there"); }
        "chunks" => r.assets_data[j].chunk_ids = ed["c"].as_array().unwrap().iter().map(|c| c.as_i64().unwrap() as i32).collect(),
        "flags" => r.assets_data[j].package_flags = flags(&ed["f"]),
        "pack-del" => { r.package_data.remove(j); }
        "pack-set" => {
            let p = &ed["p"];
            let name = w.nm(&p["name"], r);
            let classes = p["classes"].as_array().unwrap().iter().map(|n| w.nm(n, r)).collect();
            let ver = w.ver;
            let q = &mut r.package_data[j];
            q.package_name = name;
            q.disk_size = i(p, "size");
            q.package_guid = Guid(wire::encode(&[json!({"t": "guid", "v": p["guid"]})]).bytes.try_into().unwrap());
            if ver >= 6 { q.cooked_hash = Some(FMD5Hash { hash: p["hash"]["some"].as_bool().unwrap().then(|| { let b: Vec<u8> = p["hash"]["v"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect(); b.try_into().unwrap() }) }) }
            q.file_version = i(p, "fv") as i32;
            if ver >= 11 { q.ue5_version = Some(i(p, "fv5") as i32) }
            q.file_version_licensee_ue = i(p, "lic") as i32;
            q.flags = i(p, "flags") as u32;
            if ver >= 10 { q.imported_classes = Some(classes) }
        }
        "ident" => { let d = ident(w, r, &ed["i"]); r.depends_nodes[j].identifier = d }
        "node-add" => {
            let mut n = DependsNode::new(r.depends_nodes.len() as i32, ver);
            n.identifier = ident(w, r, &ed["i"]);
            if w.ver >= 7 { n.package_flags = Some(BitVec::new()); n.manage_flags = Some(BitVec::new()) }
            r.depends_nodes.push(n);
        }
        op => {
            let to = DependsNode::new(i(ed, "to") as i32, ver);
            let n = &mut r.depends_nodes[j];
            let l = match s(ed, "l") { "hard" => &mut n.hard_dependencies, "soft" => &mut n.soft_dependencies, "name" => &mut n.name_dependencies, "hardm" => &mut n.hard_manage_dependencies, "softm" => &mut n.soft_manage_dependencies, _ => &mut n.referencers };
            match op {
                "edge-add" => l.push(to),
                "edge-del" => { l.remove(i(ed, "k") as usize); }
                "flagged-add" => {
                    l.push(to);
                    let f = if s(ed, "l") == "soft" { &mut n.package_flags } else { &mut n.manage_flags }.as_mut().expect("flags are there");
                    for b in ed["f"].as_array().unwrap() { f.push(b.as_i64() == Some(1)) }
                }
                _ => panic!("edit {ed}"),
            }
        }
    }
}
fn one(c: &Value, rep: &mut Report) -> Result<(), (&'static str, String)> {
    let toks = c["toks"].as_array().unwrap();
    let mut w = World { eng: i(c, "eng"), ver: i(c, "ver"), names: wire::collect_names(toks) };
    if w.ver >= 8 { for n in wire::collect_names(c["edited"].as_array().unwrap()) { if !w.names.contains(&n) { w.names.push(n) } } }
    let old = w.names.len();
    let (_, stored) = w.lay(&c["toks"], old);
    let mut r = w.load(&stored).map_err(|m| ("read", m))?;
    if r.get_version() as i64 != w.ver { return Err(("version", format!("version {:?} reported for {}", r.get_version(), w.ver))) }
    view(&r, &c["view"]).map_err(|m| ("view", m))?;
    let (kt, kept) = w.lay(&c["kept"], old);
    let got = w.save(&r).map_err(|m| ("write", m))?;
    if let Some(m) = diff(&kt, &kept, &got) { return Err(("bytes", m)) }
    let again = w.load(&got).and_then(|r| w.save(&r)).map_err(|m| ("reread", m))?;
    if again != got { return Err(("stable", "saving what was saved gives other bytes".into())) }
    rep.steps += 3;
    for ed in c["edits"].as_array().unwrap() {
        rep.stat(s(ed, "op"));
        rep.steps += 1;
        guard(|| edit(&mut w, &mut r, ed)).map_err(|m| ("edit", format!("{ed}: {m}")))?;
    }
    let (et, edited) = w.lay(&c["edited"], old);
    let got = w.save(&r).map_err(|m| ("write", m))?;
    if let Some(m) = diff(&et, &edited, &got) { return Err(("edited", m)) }
    let r = w.load(&got).map_err(|m| ("reread", m))?;
    view(&r, &c["after"]).map_err(|m| ("after", m))?;
    let (ct, canon) = w.lay(&c["canon"], old);
    let got = w.save(&r).map_err(|m| ("write", m))?;
    if let Some(m) = diff(&ct, &canon, &got) { return Err(("canon", m)) }
    Ok(())
}
pub fn replay(file: &str) {
    let mut rep = Report::new();
    for (n, c) in lines(file).enumerate() {
        alloc::CASE.store(n, Relaxed);
        rep.cases += 1;
        if let Err((k, m)) = one(&c, &mut rep) { rep.violation(&format!("registry:{k}:v{}", c["ver"]), format!("format version {} engine {:?}: {m}", c["ver"], crate::versions::eng(i(&c, "eng"))), &c) }
    }
    rep.finish();
}
/// Registries with an impossible index or count, or cut off, are refused.
pub fn damage(file: &str) {
    let mut rep = Report::new();
    for (n, c) in lines(file).enumerate() {
        alloc::CASE.store(n, Relaxed);
        rep.cases += 1; rep.steps += 1; rep.stat(s(&c, "what"));
        let names = wire::collect_names(c["toks"].as_array().unwrap());
        let w = World { eng: i(&c, "eng"), ver: i(&c, "ver"), names };
        let (_, mut b) = w.lay(&c["toks"], w.names.len());
        if s(&c, "what") == "cut" { let n = (b.len() * i(&c, "cut") as usize / 1000).min(b.len() - 1); b.truncate(n) }
        let m = if w.ver >= 8 { map_of(&w.names) } else { NameMap::new() };
        let r = alloc::armed(256 << 20, || guard(|| R::new(&mut reader(&b, w.eng, m)).map(|_| ())));
        let bad = match r { Err(m) => Some(("crash", m)), Ok(Ok(_)) => Some(("accepted", String::new())), Ok(Err(_)) => None };
        if let Some((k, m)) = bad { rep.violation(&format!("regbad:{k}:{}:v{}", s(&c, "what"), c["ver"]), format!("format version {}: damaged registry ({}) {k} {m}", c["ver"], s(&c, "what")), &c) }
    }
    rep.finish();
}
fn nm(f: &FName) -> Value { json!([f.get_owned_content(), f.get_number()]) }
fn id(v: &ValueId) -> Value {
    let t = match v.value_type { EValueType::AnsiString => 0, EValueType::WideString => 1, EValueType::NumberlessName => 2, EValueType::Name => 3, EValueType::NumberlessExportPath => 4, EValueType::ExportPath => 5, EValueType::LocalizedText => 6 };
    json!([t, v.index])
}
fn shown(st: &Store) -> Value {
    json!({"pairs": st.pairs.iter().map(|p| json!([nm(&p.key), id(&p.value)])).collect::<Vec<_>>(), "npairs": st.numberless_pairs.iter().map(|p| json!([p.key, id(&p.value)])).collect::<Vec<_>>(),
        "ansi": st.ansi_strings, "wide": st.wide_strings, "nnames": st.numberless_names, "names": st.names.iter().map(nm).collect::<Vec<_>>(),
        "npaths": st.numberless_export_paths.iter().map(|p| json!([p.class, p.object, p.package])).collect::<Vec<_>>(),
        "paths": st.export_paths.iter().map(|p| json!([nm(&p.class), nm(&p.object), nm(&p.package)])).collect::<Vec<_>>(), "texts": st.texts})
}
fn texts(v: &Value) -> Value {
    match v { Value::String(t) => Value::String(wire::text(t)), Value::Array(a) => Value::Array(a.iter().map(texts).collect()), Value::Object(o) if o.contains_key("none") => Value::Null,
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), texts(v))).collect()), v => v.clone() }
}
/// Tag stores and asset bundles
pub fn parts(file: &str) {
    let mut rep = Report::new();
    for (n, c) in lines(file).enumerate() {
        alloc::CASE.store(n, Relaxed);
        rep.cases += 1; rep.steps += 1;
        let toks = c["toks"].as_array().unwrap();
        let w = World { eng: i(&c, "eng"), ver: 8, names: wire::collect_names(toks) };
        let (t, b) = w.lay(&c["toks"], w.names.len());
        let r: Result<(), (&str, String)> = (|| {
            if s(&c, "what") == "store" {
                let st = tried("reading", || Store::new(&mut reader(&b, w.eng, map_of(&w.names)))).map_err(|m| ("store", m))?;
                let (got, want) = (shown(&st), texts(&c["view"]));
                for k in want.as_object().unwrap().keys() { if got[k] != want[k] { return Err(("store", format!("{k}: reported {}, the file denotes {}", got[k], want[k]))) } }
            } else {
                let bundles = tried("reading", || AssetBundleData::new(&mut reader(&b, w.eng, map_of(&w.names)))).map_err(|m| ("bundle-read", m))?;
                dbg::same(&c["view"], &dbg::parse(&format!("{bundles:?}")), "", &NAMES).map_err(|m| ("bundle-view", m))?;
                let mut out = Cursor::new(vec![]);
                let (o, o5) = get_object_versions(crate::versions::eng(w.eng));
                tried("writing", || bundles.write(&mut RawWriter::<PackageIndex, _>::new(&mut out, o, o5, false, map_of(&w.names)))).map_err(|m| ("bundle-write", m))?;
                if let Some(m) = diff(&t, &b, out.get_ref()) { return Err(("bundle-bytes", m)) }
            }
            Ok(())
        })();
        if let Err((k, m)) = r { rep.violation(&format!("registry:{k}"), format!("engine {:?}: {m}", crate::versions::eng(w.eng)), &c) }
    }
    rep.finish();
}
