//! Objects moved from one asset into another: after rebuilding the name table the saved file is the moved document.
use crate::asset::*;
use crate::common::*;
use crate::wire;
use serde_json::Value;

fn one(c: &Value, rep: &mut Report) -> Result<(), (&'static str, String)> {
    let toks = c["toks"].as_array().unwrap();
    let split = c["split"].as_bool().unwrap();
    let names = wire::collect_names(toks);
    let src = open(&lay(&wire::bind_names(toks, &names).unwrap(), split), i(c, "eng")).map_err(|m| ("read", m))?;
    let host = c["host"].as_array().unwrap();
    // into a table that holds every name elsewhere, and into one that lacks the names of the moved objects
    let mut turned = names.clone();
    turned.rotate_left(names.len() / 2);
    let mut turned2 = names.clone();
    turned2.reverse();
    for (what, table) in [("turned", turned), ("reversed", turned2), ("lacking", wire::collect_names(host))] {
        let mut a = open(&lay(&wire::bind_names(host, &table).unwrap(), split), i(c, "eng")).map_err(|m| ("host", m))?;
        a.asset_data.exports = src.asset_data.exports.clone();
        a.imports = src.imports.clone();
        guard(|| a.rebuild_name_map()).map_err(|m| ("rebuild", format!("rebuilding the name map crashed: {m}")))?;
        rep.steps += 1;
        let q = save(&a, split).map_err(|m| ("write", format!("{what}: {m}")))?;
        let after = a.get_name_map().get_ref().get_name_map_index_list().to_vec();
        if after.len() < table.len() || after[..table.len()] != table[..] { return Err(("table", format!("{what}: the entries of the name table were {table:?} and became {after:?}"))) }
        if let Some(n) = after[table.len()..].iter().find(|n| !names.contains(n)) { return Err(("table", format!("{what}: {n:?} was added to the name table but is not used"))) }
        let bound = wire::bind_grown(toks, &after, table.len()).map_err(|m| ("table", format!("{what}: {m}")))?;
        if let Some(m) = diff(&bound, &lay(&bound, split), &q) { return Err(("bytes", format!("{what}: {m}"))) }
        let b = open(&q, i(c, "eng")).map_err(|m| ("reread", m))?;
        check_view(&b, &c["view"]).map_err(|m| ("view", format!("{what}: {m}")))?;
        if what == "lacking" { let n = after.len() - table.len(); for _ in 0..n { rep.stat("names added by moving") } }
    }
    Ok(())
}
pub fn replay(file: &str) {
    let mut rep = Report::new();
    for c in lines(file) {
        rep.cases += 1;
        if let Err((k, m)) = one(&c, &mut rep) { rep.violation(&format!("moved:{k}"), format!("engine {:?} split {}: {m}", eng(i(&c, "eng")), c["split"]), &c); }
    }
    rep.finish();
}
