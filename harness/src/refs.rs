//! Package indices: resolution, searching and added imports, against the tables the specification gives.
use crate::asset::*;
use crate::common::*;
use crate::wire;
use serde_json::Value;
use unreal_asset::exports::ExportBaseTrait;
use unreal_asset::types::{FName, PackageIndex};
use unreal_asset::Import;

fn nm(a: &mut A, v: &Value) -> FName {
    a.get_name_map().get_mut().add_fname_with_number(&wire::text(v[0].as_str().unwrap()), v[1].as_i64().unwrap() as i32)
}
fn is(f: &FName, v: &Value) -> bool { f.get_owned_content() == wire::text(v[0].as_str().unwrap()) && f.get_number() as i64 == v[1].as_i64().unwrap() }
fn same(m: &Import, v: &Value) -> bool { is(&m.class_package, &v["cp"]) && is(&m.class_name, &v["cn"]) && is(&m.object_name, &v["on"]) && m.outer_index.index as i64 == i(v, "outer") }
fn idx(n: i64) -> PackageIndex { PackageIndex::new(n as i32) }

fn table(a: &mut A, t: &Value, names: &[String]) -> Result<(), (&'static str, String)> {
    let imps = t["imps"].as_array().unwrap();
    if a.imports.len() != imps.len() { return Err(("count", format!("{} imports instead of {}", a.imports.len(), imps.len()))) }
    for g in t["gets"].as_array().unwrap() {
        let n = i(g, "i");
        let d = &g["d"];
        let im = guard(|| a.get_import(idx(n))).map_err(|m| ("crash", format!("get_import({n}) crashed: {m}")))?;
        match (&im, s(d, "k")) {
            (Some(m), "import") if same(m, &imps[i(d, "n") as usize - 1]) => {}
            (None, "export") | (None, "nothing") => {}
            _ => return Err(("import", format!("index {n} denotes {d}, get_import gave {im:?}"))),
        }
        use unreal_asset::reader::archive_trait::ArchiveTrait;
        let on = guard(|| a.get_object_name(idx(n))).map_err(|m| ("crash", format!("get_object_name({n}) crashed: {m}")))?;
        if on != im.as_ref().map(|m| m.object_name.clone()) { return Err(("objname", format!("index {n} denotes {d}, get_object_name gave {on:?}"))) }
        let ex = guard(|| a.get_export(idx(n)).map(|x| x.get_base_export().object_name.get_owned_content())).map_err(|m| ("crash", format!("get_export({n}) crashed: {m}")))?;
        let exm = guard(|| a.get_export_mut(idx(n)).map(|x| x.get_base_export().object_name.get_owned_content())).map_err(|m| ("crash", format!("get_export_mut({n}) crashed: {m}")))?;
        let want = if s(d, "k") == "export" { Some(names[i(d, "n") as usize - 1].clone()) } else { None };
        if ex != want || exm != want { return Err(("export", format!("index {n} denotes {d} ({want:?}), get_export gave {ex:?}, get_export_mut {exm:?}"))) }
        // identity, not only the name: the handed out export is the one at that place
        if s(d, "k") == "export" {
            let p: *const _ = a.get_export(idx(n)).unwrap();
            let q: *const _ = &a.asset_data.exports[i(d, "n") as usize - 1];
            if p != q { return Err(("export", format!("index {n} gave another export than the one at {}", d["n"]))) }
        }
        // converting ordinals to indices and the classification of an index
        use unreal_asset::types::PackageIndexTrait;
        if idx(n).is_import() != (n < 0) || idx(n).is_export() != (n > 0) { return Err(("kind", format!("index {n}: import {} export {}", idx(n).is_import(), idx(n).is_export()))) }
        if s(d, "k") == "import" && PackageIndex::from_import(i(d, "n") as i32 - 1).map(|p| p.index as i64).ok() != Some(n) { return Err(("convert", format!("from_import({}) is not {n}", i(d, "n") - 1))) }
        if s(d, "k") == "export" && PackageIndex::from_export(i(d, "n") as i32 - 1).map(|p| p.index as i64).ok() != Some(n) { return Err(("convert", format!("from_export({}) is not {n}", i(d, "n") - 1))) }
    }
    for q in t["finds"].as_array().unwrap() {
        let (k, r, any) = (&q["q"], i(q, "r"), i(q, "any"));
        let z = |x: &Value| FName::from_slice(x.as_str().unwrap());
        for backed in [false, true] {
            let (cp, cn, on) = if backed { (a.add_fname(s(k, "cp")), a.add_fname(s(k, "cn")), a.add_fname(s(k, "on"))) } else { (z(&k["cp"]), z(&k["cn"]), z(&k["on"])) };
            let got = guard(|| a.find_import(&cp, &cn, idx(i(k, "outer")), &on)).map_err(|m| ("crash", format!("find_import crashed: {m}")))?;
            if got.map(|x| x as i64) != (if r == 0 { None } else { Some(r) }) { return Err(("find", format!("find_import({k}) gave {got:?} instead of {r}"))) }
            let got = guard(|| a.find_import_no_index(&cp, &cn, &on)).map_err(|m| ("crash", format!("find_import_no_index crashed: {m}")))?;
            if got.map(|x| x as i64) != (if any == 0 { None } else { Some(any) }) { return Err(("find", format!("find_import_no_index({k}) gave {got:?} instead of {any}"))) }
        }
    }
    Ok(())
}
fn one(c: &Value, rep: &mut Report) -> Result<(), (&'static str, String)> {
    let toks = c["toks"].as_array().unwrap();
    let bound = wire::bind_names(toks, &wire::collect_names(toks)).unwrap();
    let p = lay(&bound, c["split"].as_bool().unwrap());
    let mut a = open(&p, i(c, "eng")).map_err(|m| ("read", m))?;
    let names: Vec<String> = a.asset_data.exports.iter().map(|x| x.get_base_export().object_name.get_owned_content()).collect();
    for t in c["steps"].as_array().unwrap() {
        rep.steps += 1;
        if let Value::Object(_) = &t["added"] {
            let v = &t["added"];
            let (class_package, class_name, object_name) = (nm(&mut a, &v["cp"]), nm(&mut a, &v["cn"]), nm(&mut a, &v["on"]));
            let m = Import { class_package, class_name, object_name, outer_index: idx(i(v, "outer")), optional: v["opt"].as_bool().unwrap() };
            let got = a.add_import(m).index as i64;
            if got != i(t, "index") { return Err(("add", format!("add_import gave {got} instead of {}", t["index"]))) }
        }
        table(&mut a, t, &names)?;
    }
    for n in [-1, i32::MIN, i32::MIN + 1] {
        if PackageIndex::from_import(n).is_ok() || PackageIndex::from_export(n).is_ok() { return Err(("convert", format!("{n} is not an ordinal but was converted"))) }
    }
    Ok(())
}
pub fn replay(file: &str) {
    let mut rep = Report::new();
    for c in lines(file) {
        rep.cases += 1;
        if let Err((k, m)) = one(&c, &mut rep) { rep.violation(&format!("refs:{k}"), format!("engine {:?}: {m}", eng(i(&c, "eng"))), &c); }
    }
    rep.finish();
}
