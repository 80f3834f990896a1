//! Histories of the dependency graph (specs/Deps.tla) replayed into the real resolver.
use crate::common::*;
use crate::error::{ModLoaderWarning, ModLoaderWarningKind};
use crate::mod_processing::dependencies::{DependencyGraph, ModWithDependencies};
use semver::{Version, VersionReq};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use unreal_mod_metadata::{Dependency, DownloadInfo, DownloadMode};

fn ver(v: &Value) -> Version {
    let n = |k: usize| v[k].as_u64().unwrap();
    Version::new(n(0), n(1), n(2))
}
pub fn req_text(r: &Value) -> String {
    let cs = r.as_array().unwrap();
    if cs.is_empty() {
        return "*".into();
    }
    cs.iter()
        .map(|c| {
            let op = s(c, "op");
            let mut t = format!("{}{}", if op == "*" { "" } else { op }, i(c, "a"));
            for k in ["b", "c"] {
                if i(c, k) >= 0 {
                    t += &format!(".{}", i(c, k));
                }
            }
            if op == "*" {
                t += ".*";
            }
            t
        })
        .collect::<Vec<_>>()
        .join(", ")
}
fn req(r: &Value) -> VersionReq {
    VersionReq::parse(&req_text(r)).unwrap_or_else(|e| {
        eprintln!("{}: {e}", req_text(r));
        std::process::exit(2)
    })
}
fn by(v: &Value) -> BTreeSet<(String, String)> {
    v.as_array().unwrap().iter().map(|p| (p[0].as_str().unwrap().to_string(), req(&p[1]).to_string())).collect()
}
fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap()
}

pub fn replay(file: &str) {
    let mut rep = Report::new();
    for case in lines(file) {
        rep.cases += 1;
        let universe: Vec<Version> = arr(&case["universe"]).iter().map(ver).collect();
        let mut g = DependencyGraph::default();
        for step in arr(&case["h"]) {
            rep.steps += 1;
            let batch: Vec<ModWithDependencies> = arr(&step["batch"])
                .iter()
                .map(|m| {
                    let deps: HashMap<String, Dependency> = arr(&m["deps"])
                        .iter()
                        .map(|d| {
                            let dl = (!s(d, "dl").is_empty()).then(|| DownloadInfo { download_mode: DownloadMode::IndexFile, url: s(d, "dl").to_string() });
                            (s(d, "id").to_string(), Dependency::new(req(&d["req"]), dl))
                        })
                        .collect();
                    ModWithDependencies::new(s(m, "id").to_string(), arr(&m["versions"]).iter().map(ver).collect(), deps)
                })
                .collect();
            let r = guard(|| (g.add_mods(&batch), ()));
            let wants = match r {
                Ok((w, _)) => w,
                Err(e) => {
                    rep.violation("deps:crash", format!("adding mods crashed: {e}"), &case);
                    break;
                }
            };
            // the requirement and the places to fetch from, of every dependency of the batch
            let exp: BTreeMap<String, (BTreeSet<Version>, BTreeSet<String>)> = arr(&step["wants"])
                .iter()
                .map(|w| (s(w, "id").to_string(), (arr(&w["accepts"]).iter().map(ver).collect(), arr(&w["dl"]).iter().map(|u| u.as_str().unwrap().to_string()).collect())))
                .collect();
            let got: BTreeMap<String, (BTreeSet<Version>, BTreeSet<String>)> = wants
                .iter()
                .map(|(id, (rq, dl))| (id.clone(), (universe.iter().filter(|v| rq.matches(v)).cloned().collect(), dl.iter().map(|d| d.url.clone()).collect())))
                .collect();
            if got != exp {
                rep.violation("deps:wants", format!("requirements on dependencies: expected {exp:?}, got {got:?}"), &case);
            }
            for (id, (_, dl)) in &wants {
                if dl.iter().map(|d| &d.url).collect::<BTreeSet<_>>().len() != dl.len() {
                    rep.violation("deps:fetch", format!("{id}: a place to fetch from is listed twice: {dl:?}"), &case);
                }
            }
            // the resolution
            let (chosen, warnings) = match guard(|| g.validate_graph()) {
                Ok(x) => x,
                Err(e) => {
                    rep.violation("deps:crash", format!("resolution crashed: {e}"), &case);
                    break;
                }
            };
            let got: BTreeMap<String, Version> = chosen.into_iter().collect();
            let exp: BTreeMap<String, Version> = arr(&step["chosen"]).iter().map(|c| (c[0].as_str().unwrap().to_string(), ver(&c[1]))).collect();
            if got != exp {
                rep.violation("deps:chosen", format!("chosen versions: expected {exp:?}, got {got:?}"), &case);
            }
            let mut open: BTreeMap<String, BTreeSet<(String, String)>> = BTreeMap::new();
            for w in warnings {
                match w.kind {
                    ModLoaderWarningKind::UnresolvedDependency(id, by) => {
                        if open.insert(id.clone(), by.into_iter().collect()).is_some() {
                            rep.violation("deps:open", format!("{id} is reported twice"), &case);
                        }
                    }
                    other => rep.violation("deps:open", format!("unexpected warning {other:?}"), &case),
                }
            }
            let exp: BTreeMap<String, BTreeSet<(String, String)>> = arr(&step["open"]).iter().map(|o| (s(o, "id").to_string(), by(&o["by"]))).collect();
            if open != exp {
                rep.violation("deps:open", format!("unresolved: expected {exp:?}, got {open:?}"), &case);
            }
            // dependents
            for d in arr(&step["deps"]) {
                let id = s(d, "id");
                let exp = by(&d["by"]);
                match guard(|| (g.find_mod_dependents(id), g.find_mod_dependents_with_version(id))) {
                    Ok((a, b)) => {
                        let names: BTreeSet<String> = exp.iter().map(|p| p.0.clone()).collect();
                        if a.iter().cloned().collect::<BTreeSet<_>>() != names {
                            rep.violation("deps:dependents", format!("dependents of {id}: expected {names:?}, got {a:?}"), &case);
                        }
                        if b.iter().cloned().collect::<BTreeSet<_>>() != exp {
                            rep.violation("deps:dependents", format!("dependents of {id} with requirements: expected {exp:?}, got {b:?}"), &case);
                        }
                    }
                    Err(e) => rep.violation("deps:crash", format!("dependents of {id}: {e}"), &case),
                }
            }
            if !g.find_mod_dependents("?").is_empty() || !g.find_mod_dependents_with_version("?").is_empty() {
                rep.violation("deps:dependents", "an unknown mod has dependents".into(), &case);
            }
        }
    }
    rep.finish();
}
