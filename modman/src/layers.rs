//! Requests and stores during integration (specs/Layers.tla) replayed into the integrator's helpers.
use crate::common::*;
use crate::scratch::Scratch;
use crate::wire;
use serde_json::Value;
use std::collections::{BTreeMap, HashMap};
use std::fs::File;
use std::io::{BufReader, Cursor};
use std::path::{Path, PathBuf};
use unreal_asset::engine_version::EngineVersion;
use unreal_asset::Asset;
use unreal_mod_integrator::helpers::{get_asset, write_asset};
use unreal_pak::{pakversion::PakVersion, PakMemory, PakReader};

type Paks = Vec<PakReader<BufReader<File>>>;
struct Doc {
    head: Vec<u8>,
    bulk: Option<Vec<u8>>,
}
fn docs(file: &str) -> BTreeMap<String, Doc> {
    let mut out = BTreeMap::new();
    let (mut s, mut u) = (0, 0);
    for c in lines(file) {
        if i(&c, "eng") == 0 {
            continue;
        }
        let split = c["split"].as_bool().unwrap();
        let toks = c["toks"].as_array().unwrap();
        let l = wire::encode(&wire::bind_names(toks, &wire::collect_names(toks)).unwrap());
        let h = l.labels["hdr"];
        let d = if split { Doc { head: l.bytes[..h].to_vec(), bulk: Some(l.bytes[h..].to_vec()) } } else { Doc { head: l.bytes, bulk: None } };
        if split && s < 3 {
            s += 1;
            out.insert(format!("s{s}"), d);
        } else if !split && u < 2 {
            u += 1;
            out.insert(format!("u{u}"), d);
        }
    }
    if (s, u) != (3, 2) {
        eprintln!("not enough assets");
        std::process::exit(2)
    }
    out
}
fn bulk_name(n: &str) -> String {
    format!("{}.uexp", &n[..n.rfind('.').unwrap()])
}
/// the entries a pak holds
fn entries(docs: &BTreeMap<String, Doc>, pak: &Value) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    for (n, p) in pak.as_object().unwrap() {
        if !s(p, "h").is_empty() {
            m.insert(n.clone(), docs[s(p, "h")].head.clone());
        }
        if !s(p, "b").is_empty() {
            m.insert(bulk_name(n), docs[s(p, "b")].bulk.clone().unwrap());
        }
    }
    m
}
fn memory(e: &BTreeMap<String, Vec<u8>>) -> PakMemory {
    let mut m = PakMemory::new(PakVersion::FnameBasedCompressionMethod);
    m.set_entry("metadata.json".into(), b"{}".to_vec());
    for (k, v) in e {
        m.set_entry(k.clone(), v.clone());
    }
    m
}
fn dump(m: &PakMemory) -> BTreeMap<String, Vec<u8>> {
    m.get_entry_names().into_iter().filter(|n| *n != "metadata.json").map(|n| (n.clone(), m.get_entry(n).unwrap().clone())).collect()
}
fn save<C: std::io::Read + std::io::Seek>(a: &Asset<C>, split: bool) -> Result<(Vec<u8>, Option<Vec<u8>>), String> {
    let (mut h, mut b) = (Cursor::new(vec![]), Cursor::new(vec![]));
    a.write_data(&mut h, split.then_some(&mut b)).map_err(|e| e.to_string())?;
    Ok((h.into_inner(), split.then(|| b.into_inner())))
}
pub fn replay(assets: &str, file: &str, ver: &str) {
    let docs = docs(assets);
    let v: EngineVersion = crate::engine(ver);
    let scratch = Scratch::new("layers");
    let mut cache: HashMap<String, PathBuf> = HashMap::new();
    let mut rep = Report::new();
    for case in lines(file) {
        rep.cases += 1;
        let h = case["h"].as_array().unwrap();
        let mut open = |paks: &Value| -> Paks {
            let list: Vec<Value> = match paks {
                Value::Array(a) => a.clone(),
                _ => vec![],
            };
            list.iter()
                .map(|p| {
                    let n = cache.len();
                    let path = cache.entry(p.to_string()).or_insert_with(|| {
                        let path = scratch.0.join(format!("{n}.pak"));
                        let mut f = File::create(&path).unwrap();
                        memory(&entries(&docs, p)).write(&mut f).unwrap();
                        path
                    });
                    let mut r = PakReader::new(BufReader::new(File::open(path).unwrap()));
                    r.load_index().unwrap();
                    r
                })
                .collect()
        };
        let (mut mods, mut games) = (open(&h[0]["mods"]), open(&h[0]["games"]));
        let mut integ = memory(&entries(&docs, &h[0]["integ"]));
        for st in &h[1..] {
            rep.steps += 1;
            let (name, to, res) = (s(st, "name").to_string(), s(st, "to").to_string(), s(st, "res"));
            let split = res.starts_with('s');
            let r = guard(|| -> Result<(), (&str, String)> {
                let asset = if s(st, "op") == "store" {
                    let d = &docs[res];
                    Asset::new(Cursor::new(d.head.clone()), d.bulk.clone().map(Cursor::new), v, None).map_err(|e| ("layers:tool", e.to_string()))?
                } else {
                    let got = get_asset(&integ, &mut games, &mut mods, &name, v);
                    match (res, got) {
                        ("missing" | "broken", Err(_)) => return Ok(()),
                        ("missing" | "broken", Ok(_)) => return Err(("layers:found", format!("{name} is {res} but an asset was returned"))),
                        (_, Err(e)) => return Err(("layers:request", format!("{name} should be {res}, but: {e}"))),
                        (_, Ok(a)) => {
                            let d = &docs[res];
                            let (hd, bk) = save(&a, split).map_err(|e| ("layers:request", e))?;
                            if hd != d.head || bk != d.bulk {
                                let of = |b: &Vec<u8>| docs.iter().find(|(_, d)| d.head == *b || d.bulk.as_ref() == Some(b)).map(|(k, _)| k.clone()).unwrap_or("none".into());
                                return Err(("layers:request", format!("{name} should be {res}, but the header is that of {} and the bulk part that of {}", of(&hd), bk.as_ref().map(of).unwrap_or("none".into()))));
                            }
                            a
                        }
                    }
                };
                if s(st, "op") != "request" {
                    let at = if to.is_empty() { &name } else { &to };
                    write_asset(&mut integ, &asset, at).map_err(|e| ("layers:store", format!("storing {at}: {e}")))?;
                }
                Ok(())
            });
            match r {
                Ok(Ok(())) => {}
                Ok(Err((k, w))) => rep.violation(k, w, &case),
                Err(e) => rep.violation("layers:crash", format!("{} {name}: {e}", s(st, "op")), &case),
            }
            let exp = entries(&docs, &st["integ"]);
            let got = dump(&integ);
            if exp != got {
                let sz = |m: &BTreeMap<String, Vec<u8>>| m.iter().map(|(k, v)| format!("{k}:{}", v.len())).collect::<Vec<_>>().join(" ");
                rep.violation("layers:stored", format!("after {} {name} the integrated pak holds [{}] instead of [{}]", s(st, "op"), sz(&got), sz(&exp)), &case);
                break;
            }
        }
    }
    rep.finish();
}
/// write the stand-in assets of specs/IntegDocs.tla
pub fn emit(file: &str, dir: &str) {
    for c in lines(file) {
        let toks = c["toks"].as_array().unwrap();
        let l = wire::encode(&wire::bind_names(toks, &wire::collect_names(toks)).unwrap());
        let h = l.labels["hdr"];
        let p = Path::new(dir).join(s(&c, "which"));
        std::fs::write(p.with_extension("uasset"), &l.bytes[..h]).unwrap();
        std::fs::write(p.with_extension("uexp"), &l.bytes[h..]).unwrap();
        let a = Asset::new(Cursor::new(&l.bytes[..h]), Some(Cursor::new(&l.bytes[h..])), EngineVersion::VER_UE4_23, None).unwrap();
        eprintln!("{:#?}", a.asset_data.exports);
    }
}
