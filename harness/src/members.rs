//! Lists inside objects changed through the public structures: the saved file is the changed document.
use crate::asset::*;
use crate::common::*;
use crate::wire;
use serde_json::Value;
use std::collections::HashMap;
use unreal_asset::containers::IndexedMap;
use unreal_asset::exports::Export;
use unreal_asset::properties::{Property, PropertyDataTrait};
use unreal_asset::types::PackageIndex;

fn list<T>(op: &str, v: &mut Vec<T>) {
    if v.is_empty() { return }
    match op { "drop" => { v.remove(0); } "last" => { v.pop(); } _ => v.reverse() }
}
fn map<K: std::hash::Hash + Eq + Clone, V: Clone>(op: &str, m: &mut IndexedMap<K, V>) {
    let mut v: Vec<(K, V)> = m.iter().map(|(_, k, v)| (k.clone(), v.clone())).collect();
    match op {
        "drop" => { if let Some((k, _)) = v.first() { m.remove_by_key(k); } }
        "last" => { if let Some((k, _)) = v.last() { m.remove_by_key(k); } }
        _ => { v.reverse(); *m = IndexedMap::new(); for (k, x) in v { m.insert(k, x); } }
    }
}
/// a struct holds a list of properties, or one native value
fn tagged(p: &Property) -> bool {
    use Property::*;
    matches!(p, BoolProperty(_) | Int8Property(_) | Int16Property(_) | IntProperty(_) | Int64Property(_) | UInt16Property(_) | UInt32Property(_) | UInt64Property(_) | FloatProperty(_) | DoubleProperty(_)
        | ByteProperty(_) | EnumProperty(_) | NameProperty(_) | StrProperty(_) | TextProperty(_) | ObjectProperty(_) | AssetObjectProperty(_) | SoftObjectProperty(_) | DelegateProperty(_)
        | MulticastDelegateProperty(_) | MulticastSparseDelegateProperty(_) | MulticastInlineDelegateProperty(_) | StructProperty(_) | ArrayProperty(_) | SetProperty(_) | MapProperty(_) | UnknownProperty(_) | RawStructProperty(_))
}
fn props(op: &str, v: &mut Vec<Property>) {
    for p in v.iter_mut() { prop(op, p) }
    list(op, v);
}
fn fields(op: &str, x: &mut unreal_asset::properties::struct_property::StructProperty) {
    // a list of fields; how a float range is stored is told from its contents
    if x.value.iter().all(tagged) && x.struct_type.as_ref().map_or(true, |t| t != "FloatRange") { props(op, &mut x.value) }
}
fn prop(op: &str, p: &mut Property) {
    match p {
        Property::StructProperty(s) => fields(op, s),
        Property::ArrayProperty(a) => props(op, &mut a.value),
        Property::SetProperty(s) => { props(op, &mut s.value.value); props(op, &mut s.removed_items.value) }
        Property::MapProperty(m) => {
            for (_, _, v) in m.value.iter_mut() { prop(op, v) }
            map(op, &mut m.value);
            if let Some(k) = &mut m.keys_to_remove { list(op, k) }
        }
        _ => {}
    }
}
fn structure(op: &str, s: &mut unreal_asset::exports::StructExport<PackageIndex>) {
    props(op, &mut s.normal_export.properties);
    list(op, &mut s.children);
    list(op, &mut s.loaded_properties);
    if let Some(b) = &mut s.script_bytecode { list(op, b) }
    if let Some(b) = &mut s.script_bytecode_raw { list(op, b) }
}
fn object(op: &str, e: &mut Export<PackageIndex>) {
    match e {
        Export::NormalExport(n) => props(op, &mut n.properties),
        Export::ClassExport(c) => { structure(op, &mut c.struct_export); map(op, &mut c.func_map); list(op, &mut c.interfaces) }
        Export::StructExport(s) => structure(op, s),
        Export::FunctionExport(f) => structure(op, &mut f.struct_export),
        Export::UserDefinedStructExport(u) => { structure(op, &mut u.struct_export); props(op, &mut u.default_struct_instance) }
        Export::EnumExport(x) => { props(op, &mut x.normal_export.properties); list(op, &mut x.value.names) }
        Export::StringTableExport(x) => { props(op, &mut x.normal_export.properties); map(op, &mut x.table) }
        Export::DataTableExport(x) => {
            // the type of the rows stays
            let row = x.normal_export.properties.first().is_some_and(|p| p.get_name() == "RowStruct").then(|| x.normal_export.properties.remove(0));
            props(op, &mut x.normal_export.properties);
            if let Some(row) = row { x.normal_export.properties.insert(0, row) }
            for r in &mut x.table.data { fields(op, r) }
            list(op, &mut x.table.data);
        }
        Export::LevelExport(x) => { props(op, &mut x.normal_export.properties); list(op, &mut x.actors); list(op, &mut x.model_components); list(op, &mut x.url.options) }
        Export::WorldExport(x) => { props(op, &mut x.normal_export.properties); list(op, &mut x.extra_objects); list(op, &mut x.streaming_levels) }
        Export::PropertyExport(x) => props(op, &mut x.normal_export.properties),
        _ => {}
    }
}
fn one(base: &Value, c: &Value, rep: &mut Report) -> Result<(), (&'static str, String)> {
    let (toks, after) = (base["toks"].as_array().unwrap(), c["toks"].as_array().unwrap());
    let split = base["split"].as_bool().unwrap();
    let names = wire::collect_names(toks);
    let mut a = open(&lay(&wire::bind_names(toks, &names).unwrap(), split), i(base, "eng")).map_err(|m| ("read", m))?;
    for e in &mut a.asset_data.exports { object(s(c, "op"), e); }
    rep.steps += 1;
    let q = save(&a, split).map_err(|m| ("write", m))?;
    let table = a.get_name_map().get_ref().get_name_map_index_list().to_vec();
    if table.len() < names.len() || table[..names.len()] != names[..] { return Err(("table", format!("the entries of the name table were {names:?} and became {table:?}"))) }
    let bound = wire::bind_grown(after, &table, names.len()).map_err(|m| ("table", m))?;
    if let Some(m) = diff(&bound, &lay(&bound, split), &q) {
        let what = match open(&q, i(base, "eng")) { Ok(b) => check_view(&b, &c["view"]).err().unwrap_or_default(), Err(m) => m };
        return Err(("bytes", format!("{m}; {what}")))
    }
    let b = open(&q, i(base, "eng")).map_err(|m| ("reread", m))?;
    check_view(&b, &c["view"]).map_err(|m| ("view", m))
}
pub fn replay(file: &str) {
    let mut rep = Report::new();
    let mut by: HashMap<String, (Option<Value>, Vec<Value>)> = HashMap::new();
    for c in lines(file) {
        let k = by.entry(c["key"].to_string()).or_default();
        if s(&c, "op").is_empty() { k.0 = Some(c) } else { k.1.push(c) }
    }
    let mut all: Vec<_> = by.into_iter().collect();
    all.sort_by(|a, b| a.0.cmp(&b.0));
    for (_, (base, edited)) in all {
        let base = base.unwrap();
        for c in edited {
            rep.cases += 1;
            if let Err((k, m)) = one(&base, &c, &mut rep) {
                rep.violation(&format!("members:{k}:{}", s(&c, "op")), format!("engine {:?} split {} {}: {m}", eng(i(&c, "eng")), c["split"], s(&c, "op")), &serde_json::json!({"base": base, "case": c}));
            }
        }
    }
    rep.finish();
}
