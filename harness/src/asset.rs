//! Assets laid out by the specification are read, compared with the denoted document, and written back.
use crate::common::*;
use crate::{dbg, wire};
use serde_json::Value;
use std::io::Cursor;
use unreal_asset::engine_version::EngineVersion;
use unreal_asset::Asset;

pub fn eng(n: i64) -> EngineVersion { crate::versions::eng(n) }
pub type A = Asset<Cursor<Vec<u8>>>;

fn bits(of: &str, v: u64) -> String {
    use unreal_asset::flags::*;
    match of {
        "EObjectFlags" => format!("{:?}", EObjectFlags::from_bits(v as u32).unwrap()),
        "EPackageFlags" => format!("{:?}", EPackageFlags::from_bits(v as u32).unwrap()),
        "EPropertyFlags" => format!("{:?}", EPropertyFlags::from_bits(v).unwrap()),
        "EFunctionFlags" => format!("{:?}", EFunctionFlags::from_bits(v as u32).unwrap()),
        "EStructFlags" => format!("{:?}", EStructFlags::from_bits(v as u32).unwrap()),
        "EClassFlags" => format!("{:?}", EClassFlags::from_bits(v as u32).unwrap()),
        _ => panic!("flags {of}"),
    }
}
fn en(of: &str, v: i64) -> String {
    use unreal_asset::object_version::*;
    match of {
        "ObjectVersion" => format!("{:?}", ObjectVersion::try_from(v as i32).unwrap()),
        "ObjectVersionUE5" => format!("{:?}", ObjectVersionUE5::try_from(v as i32).unwrap()),
        _ => panic!("enum {of}"),
    }
}
pub const NAMES: dbg::Names = dbg::Names { bits: &bits, en: &en };

pub struct Parts { pub head: Vec<u8>, pub bulk: Option<Vec<u8>> }
pub fn lay(toks: &[Value], split: bool) -> Parts {
    let l = wire::encode(toks);
    let h = l.labels["hdr"];
    if split { Parts { head: l.bytes[..h].to_vec(), bulk: Some(l.bytes[h..].to_vec()) } } else { Parts { head: l.bytes, bulk: None } }
}
pub fn open(p: &Parts, e: i64) -> Result<A, String> {
    guard(|| Asset::new(Cursor::new(p.head.clone()), p.bulk.clone().map(Cursor::new), eng(e), None))
        .map_err(|m| format!("reading crashed: {m}"))?
        .map_err(|m| format!("reading failed: {m}"))
}
pub fn save(a: &A, split: bool) -> Result<Parts, String> {
    let mut h = Cursor::new(vec![]);
    let mut b = Cursor::new(vec![]);
    guard(|| a.write_data(&mut h, if split { Some(&mut b) } else { None }))
        .map_err(|m| format!("writing crashed: {m}"))?
        .map_err(|m| format!("writing failed: {m}"))?;
    Ok(Parts { head: h.into_inner(), bulk: split.then(|| b.into_inner()) })
}
pub fn show(a: &A) -> String { format!("Root {{ asset: {:?}, imports: {:?} }}", a, a.imports) }
pub fn tree_of(a: &A) -> dbg::T {
    let mut t = dbg::parse(&show(a));
    if let Some(dbg::T::List(l)) = t.at("asset").and_then(|t| t.at("asset_data")).and_then(|t| t.at("exports")) {
        for (x, t) in a.asset_data.exports.iter().zip(l) { listing::export(x, t) }
    }
    t
}
pub fn check_view(a: &A, view: &Value) -> Result<(), String> {
    if view.is_null() { return Ok(()) }
    let t = guard(|| tree_of(a)).map_err(|m| format!("printing crashed: {m}"))?;
    dbg::same(view, &t, "", &NAMES)
}
/// Maps do not print their contents: list them through their iterators.
pub mod listing {
    use crate::dbg::{parse, T};
    use unreal_asset::exports::{Export, ExportNormalTrait};
    use unreal_asset::properties::Property;
    pub fn list(ps: &[Property], t: Option<&mut T>) { if let Some(T::List(l)) = t { for (p, t) in ps.iter().zip(l) { property(p, t) } } }
    pub fn tree(p: &Property) -> T { let mut t = parse(&format!("{p:?}")); property(p, &mut t); t }
    pub fn property(p: &Property, t: &mut T) {
        match p {
            Property::StructProperty(s) => list(&s.value, t.at("value")),
            Property::ArrayProperty(s) => list(&s.value, t.at("value")),
            Property::SetProperty(s) => { list(&s.value.value, t.at("value").and_then(|t| t.at("value"))); list(&s.removed_items.value, t.at("removed_items").and_then(|t| t.at("value"))) }
            Property::MapProperty(m) => {
                if let Some(v) = t.at("value") { *v = T::Map(m.value.iter().map(|(_, k, v)| (tree(k), tree(v))).collect()) }
                if let (Some(k), Some(T::Tup(_, v))) = (&m.keys_to_remove, t.at("keys_to_remove")) { list(k, v.first_mut()) }
            }
            _ => {}
        }
    }
    pub fn export(x: &Export<unreal_asset::types::PackageIndex>, t: &mut T) {
        match x {
            Export::ClassExport(c) => if let Some(v) = t.at("func_map") { *v = T::Map(c.func_map.iter().map(|(_, k, v)| (parse(&format!("{k:?}")), parse(&format!("{v:?}")))).collect()) },
            Export::StringTableExport(c) => if let Some(v) = t.at("table") { *v = T::Map(c.table.iter().map(|(_, k, v)| (T::Str(k.clone()), T::Str(v.clone()))).collect()) },
            Export::DataTableExport(c) => if let Some(T::List(l)) = t.at("table").and_then(|t| t.at("data")) { for (p, t) in c.table.data.iter().zip(l) { list(&p.value, t.at("value")) } },
            Export::UserDefinedStructExport(c) => list(&c.default_struct_instance, t.at("default_struct_instance")),
            _ => {}
        }
        if let Some(n) = x.get_normal_export() { if let Some(p) = t.find("properties") { list(&n.properties, Some(p)) } }
    }
}
/// Where do two byte strings differ, in terms of the layout?
pub fn diff(toks: &[Value], want: &Parts, got: &Parts) -> Option<String> {
    let cat = |p: &Parts| { let mut v = p.head.clone(); if let Some(b) = &p.bulk { v.extend(b); } v };
    let (w, g) = (cat(want), cat(got));
    if w == g && want.head.len() == got.head.len() { return None }
    let l = wire::encode(toks);
    let at = w.iter().zip(&g).position(|(a, b)| a != b).unwrap_or(w.len().min(g.len()));
    let n = l.spans.iter().position(|s| s.0 <= at && at < s.1);
    let tok = n.map(|n| format!("token {n} {} (after {})", toks[n], toks[n.saturating_sub(2)..n].iter().map(|t| t.to_string()).collect::<Vec<_>>().join(" "))).unwrap_or("the end".into());
    Some(format!("lengths {}/{} expected {}/{}; first difference at byte {at}: {:02x?} instead of {:02x?}, in {tok}", got.head.len(), g.len(), want.head.len(), w.len(),
        &g[at.min(g.len())..(at + 8).min(g.len())], &w[at.min(w.len())..(at + 8).min(w.len())]))
}

fn one(c: &Value, rep: &mut Report) -> Result<(), (&'static str, String)> {
    let toks = c["toks"].as_array().unwrap();
    let split = c["split"].as_bool().unwrap();
    let names = wire::collect_names(toks);
    let bound = wire::bind_names(toks, &names).unwrap();
    let p = lay(&bound, split);
    let a = open(&p, i(c, "eng")).map_err(|m| ("read", m))?;
    check_view(&a, &c["view"]).map_err(|m| ("view", m))?;
    let q = save(&a, split).map_err(|m| ("write", m))?;
    rep.steps += 2;
    if let Some(m) = diff(&bound, &p, &q) { return Err(("bytes", m)) }
    // reading does not change the document either: a second save gives the same bytes
    let b = open(&q, i(c, "eng")).map_err(|m| ("reread", m))?;
    let q2 = save(&b, split).map_err(|m| ("rewrite", m))?;
    if let Some(m) = diff(&bound, &p, &q2) { return Err(("bytes2", m)) }
    Ok(())
}
pub fn replay(file: &str, only: &str) {
    let mut rep = Report::new();
    for c in lines(file) {
        rep.cases += 1;
        if let Err((k, m)) = one(&c, &mut rep) {
            let label = s(&c, "label");
            if only.is_empty() || only.split(',').any(|o| o == k) {
                rep.violation(&format!("asset:{k}:{label}"), format!("engine {:?} split {} {}: {}", eng(i(&c, "eng")), c["split"], label, m), &c);
            }
        }
    }
    rep.finish();
}
pub fn show_case(file: &str, n: &str) {
    let n: usize = n.parse().unwrap();
    let c = lines(file).nth(n).unwrap();
    let toks = c["toks"].as_array().unwrap();
    let bound = wire::bind_names(toks, &wire::collect_names(toks)).unwrap();
    let p = lay(&bound, c["split"].as_bool().unwrap());
    match open(&p, i(&c, "eng")) { Ok(a) => println!("{:#?}", tree_of(&a)), Err(e) => println!("{e}") }
}
