//! Versions.tla -> engine_version / custom_version / container reading.
use crate::common::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::convert::TryFrom;
use std::io::Cursor;
use unreal_asset::containers::Chain;
use unreal_asset::custom_version::*;
use unreal_asset::engine_version::*;
use unreal_asset::object_version::*;
use unreal_asset::asset_data::AssetData;
use unreal_asset::enums::ECustomVersionSerializationFormat;
use unreal_asset::reader::{ArchiveReader, RawReader};
use unreal_asset::types::PackageIndex;
use unreal_asset::{containers::NameMap, Guid};

const C: [&str; 7] = ["FCoreObjectVersion", "FEditorObjectVersion", "FFrameworkObjectVersion", "FFortniteMainBranchObjectVersion", "FAnimPhysObjectVersion", "FReleaseObjectVersion", "FSequencerObjectVersion"];
fn guid(name: &str) -> Guid {
    match name {
        "FCoreObjectVersion" => FCoreObjectVersion::GUID,
        "FEditorObjectVersion" => FEditorObjectVersion::GUID,
        "FFrameworkObjectVersion" => FFrameworkObjectVersion::GUID,
        "FFortniteMainBranchObjectVersion" => FFortniteMainBranchObjectVersion::GUID,
        "FAnimPhysObjectVersion" => FAnimPhysObjectVersion::GUID,
        "FReleaseObjectVersion" => FReleaseObjectVersion::GUID,
        "FSequencerObjectVersion" => FSequencerObjectVersion::GUID,
        _ => Guid::from_ints(1, 2, 3, 4),
    }
}
pub fn eng(i: i64) -> EngineVersion { EngineVersion::try_from(i as i32).unwrap() }
fn defaults(e: EngineVersion) -> BTreeMap<String, i64> {
    CustomVersion::get_default_custom_version_container(e).into_iter().map(|c| (c.friendly_name.clone().unwrap_or_default(), c.version as i64)).collect()
}
fn typed(a: &AssetData<PackageIndex>) -> BTreeMap<String, i64> {
    let v = [a.get_custom_version::<FCoreObjectVersion>(), a.get_custom_version::<FEditorObjectVersion>(), a.get_custom_version::<FFrameworkObjectVersion>(),
        a.get_custom_version::<FFortniteMainBranchObjectVersion>(), a.get_custom_version::<FAnimPhysObjectVersion>(), a.get_custom_version::<FReleaseObjectVersion>(), a.get_custom_version::<FSequencerObjectVersion>()];
    C.iter().zip(v).map(|(n, v)| (n.to_string(), v.version as i64)).collect()
}
/// reference dump used once to write the tables of Versions.tla
pub fn dump() {
    for i in 2..=32 {
        let e = eng(i);
        let (o, o5) = get_object_versions(e);
        println!("{}", json!({"e": format!("{e:?}"), "i": i, "o": o as i32, "o5": o5 as i32, "c": defaults(e)}));
    }
}

fn one(c: &Value) -> Result<(), (String, String)> {
    let e = |k: &str, w: String| (format!("versions:{k}"), w);
    match s(c, "kind") {
        "table" => {
            let v = eng(i(c, "eng"));
            if format!("{v:?}") != s(c, "name") { return Err(e("engine", format!("engine {} is {v:?}", s(c, "name")))); }
            let (o, o5) = get_object_versions(v);
            if o as i64 != i(c, "o") || o5 as i64 != i(c, "o5") { return Err(e("object", format!("{v:?} maps to object versions {} and {}, must be {} and {}", o as i32, o5 as i32, i(c, "o"), i(c, "o5")))); }
            let want: BTreeMap<String, i64> = c["c"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_i64().unwrap())).collect();
            let got = defaults(v);
            if got != want { return Err(e("custom", format!("{v:?} has custom versions {got:?}, must be {want:?}"))); }
            // single look-ups agree with the container
            for n in C {
                let cv = CustomVersion::new(guid(n), 0);
                let g = cv.get_version_number_from_engine_version(v).map(|x| x as i64);
                if g != want.get(n).copied() { return Err(e("custom", format!("{n} at {v:?} is {g:?}"))); }
            }
            let p = get_possible_versions(o, o5);
            if !p.contains(&v) { return Err(e("possible", format!("{v:?} is not among the versions possible for its own object versions ({p:?})"))); }
            for x in p { if get_object_versions(x) != (o, o5) { return Err(e("possible", format!("{x:?} is listed as possible for {v:?} but has other object versions"))); } }
            Ok(())
        }
        "guess" => {
            let (o, o5) = (ObjectVersion::try_from(i(c, "o") as i32).unwrap(), ObjectVersionUE5::try_from(i(c, "o5") as i32).unwrap());
            let cv: Vec<CustomVersion> = c["cv"].as_array().unwrap().iter().map(|x| CustomVersion::new(guid(s(x, "n")), i(x, "v") as i32)).collect();
            let g = guess_engine_version(o, o5, &cv) as i32 as i64;
            let ok: Vec<i64> = c["allowed"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
            if !ok.contains(&g) { return Err(e("guess", format!("guess for object versions {} / {} and {:?} is {:?}; consistent: {:?}", o as i32, o5 as i32, cv.iter().map(|x| (x.friendly_name.clone(), x.version)).collect::<Vec<_>>(), eng(g), ok.iter().map(|x| eng(*x)).collect::<Vec<_>>()))); }
            Ok(())
        }
        "store" => {
            // a stored container overrides exactly what it stores
            let v = eng(i(c, "eng"));
            let mut b = vec![];
            let rows = c["stored"].as_array().unwrap();
            b.extend((rows.len() as i32).to_le_bytes());
            for r in rows { b.extend(guid(s(r, "n")).0); b.extend((i(r, "v") as i32).to_le_bytes()); }
            let (o, o5) = get_object_versions(v);
            let mut rd: RawReader<PackageIndex, Cursor<Vec<u8>>> = RawReader::new(Chain::new(Cursor::new(b), None), o, o5, false, NameMap::new());
            let old = CustomVersion::get_default_custom_version_container(v);
            let got = rd.read_custom_version_container(ECustomVersionSerializationFormat::Optimized, Some(&old)).map_err(|x| e("store", format!("reading failed: {x}")))?;
            let mut d: AssetData<PackageIndex> = AssetData::new();
            d.set_engine_version(v);
            if (d.object_version, d.object_version_ue5) != (o, o5) || d.get_engine_version() != v { return Err(e("set", format!("setting {v:?} gives {:?}", d.object_version))); }
            if typed(&d) != c["base"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_i64().unwrap())).collect() { return Err(e("set", format!("setting {v:?} gives custom versions {:?}, must be {}", typed(&d), c["base"]))); }
            d.summary.custom_versions = got.clone();
            let want: BTreeMap<String, i64> = c["want"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_i64().unwrap())).collect();
            if typed(&d) != want { return Err(e("store", format!("with stored container {rows:?} over {v:?} the versions are {:?}, must be {want:?}", typed(&d)))); }
            for r in rows { if s(r, "n") == "other" && !got.iter().any(|x| x.guid == guid("other") && x.version as i64 == i(r, "v")) { return Err(e("store", "an unknown stored container was dropped".into())); } }
            Ok(())
        }
        x => panic!("unknown kind {x}"),
    }
}
pub fn replay(file: &str) {
    let mut r = Report::new();
    for c in lines(file) {
        r.cases += 1; r.steps += 1;
        match guard(|| one(&c)) { Ok(Ok(())) => {}, Ok(Err((k, w))) => r.violation(&k, w, &c), Err(p) => r.violation("versions:panic", format!("panic: {p}"), &c) }
    }
    r.finish()
}
