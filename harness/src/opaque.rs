//! Documents with objects that cannot be interpreted: these are kept as bytes, everything else is read as usual,
//! and saving gives back the file.
use crate::asset::*;
use crate::common::*;
use crate::{alloc, wire};
use serde_json::Value;
use std::sync::atomic::Ordering::Relaxed;
use unreal_asset::exports::Export;

fn one(c: &Value) -> Result<(), (&'static str, String)> {
    let toks = c["toks"].as_array().unwrap();
    let split = c["split"].as_bool().unwrap();
    let bound = wire::bind_names(toks, &wire::collect_names(toks)).unwrap();
    let l = wire::encode(&bound);
    let p = lay(&bound, split);
    let a = alloc::armed(256 << 20, || open(&p, i(c, "eng"))).map_err(|m| ("read", m))?;
    let span = |x: &str, y: &str| l.bytes[l.labels[x]..l.labels[y]].to_vec();
    for (n, how) in c["opaque"].as_array().unwrap().iter().enumerate() {
        let got = a.asset_data.exports.get(n).ok_or(("count", format!("object {n} is missing")))?;
        match how.as_str().unwrap() {
            "" => {}
            "script" => {
                let Export::FunctionExport(f) = got else { return Err(("kept", format!("object {n} with an undecodable script is not a function any more"))) };
                let st = &f.struct_export;
                if st.script_bytecode.is_some() { return Err(("decoded", format!("object {n}: an undecodable script was decoded"))) }
                if st.script_bytecode_raw.as_deref() != Some(&span("ksa", "kea")[..]) { return Err(("raw", format!("object {n}: other script bytes are kept"))) }
            }
            how => {
                let Export::RawExport(r) = got else { return Err(("decoded", format!("object {n} ({how}) is unreadable but was decoded as {}", format!("{got:?}").chars().take(300).collect::<String>()))) };
                if r.data != span(&format!("x{}", n + 1), &format!("x{}", n + 2)) { return Err(("raw", format!("object {n} ({how}): other bytes are kept"))) }
            }
        }
    }
    check_view(&a, &c["view"]).map_err(|m| ("view", m))?;
    let q = save(&a, split).map_err(|m| ("write", m))?;
    if let Some(m) = diff(&bound, &p, &q) { return Err(("bytes", m)) }
    Ok(())
}
pub fn replay(file: &str) {
    let mut rep = Report::new();
    for (n, c) in lines(file).enumerate() {
        alloc::CASE.store(n, Relaxed);
        rep.cases += 1;
        let hows = c["opaque"].as_array().unwrap().iter().map(|h| h.as_str().unwrap()).filter(|h| !h.is_empty()).collect::<Vec<_>>();
        rep.steps += 2;
        for h in &hows { rep.stat(h) }
        if let Err((k, m)) = one(&c) {
            let mut hs = hows.clone(); hs.sort(); hs.dedup();
            rep.violation(&format!("opaque:{k}:{}", if hs.len() == 1 { hs[0] } else { "several" }), format!("engine {:?} split {} {:?}: {m}", eng(i(&c, "eng")), c["split"], hows), &c);
        }
    }
    rep.finish();
}
