//! Histories of the mod manager (specs/Manager.tla) replayed into its real background thread: start, import, remove,
//! switch, select, save, integrate, stop; index files and mod files come from a local server; everything on disk lies in a scratch folder.
use crate::background_work::{background_work, BackgroundThreadData, BackgroundThreadMessage as Msg};
use crate::common::*;
use crate::config::{GameConfig, IconData, InstallManager};
use crate::deps::req_text;
use crate::error::{ModLoaderError, ModLoaderWarning, ModLoaderWarningKind};
use crate::game_mod::SelectedVersion;
use crate::profile::{Profile, ProfileMod};
use crate::scratch::Scratch;
use crate::update_info::UpdateInfo;
use crate::version::GameBuild;
use crate::{FileToProcess, ModLoaderAppData};
use parking_lot::Mutex;
use semver::{Version, VersionReq};
use sha2::{Digest, Sha256};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs;
use std::io::{BufRead, BufReader, Cursor, Read, Write};
use std::net::TcpListener;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicI32, Ordering};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::Arc;
use std::time::{Duration, Instant};
use unreal_asset::engine_version::EngineVersion;
use unreal_asset::exports::{Export, ExportBaseTrait};
use unreal_asset::properties::int_property::BytePropertyValue;
use unreal_asset::properties::{Property, PropertyDataTrait};
use unreal_asset::Asset;
use unreal_mod_metadata::SyncMode;
use unreal_mod_integrator::{BakedMod, HandlerFn, IntegratorConfig, IntegratorMod};
use unreal_pak::{pakversion::PakVersion, PakMemory, PakReader};

const GAME: &str = "TestGame";
static PROBE: Mutex<Vec<Value>> = Mutex::new(Vec::new());
static PANIC: Mutex<String> = Mutex::new(String::new());
static BAKED: Mutex<Vec<(String, &'static [u8], &'static str, u32, bool)>> = Mutex::new(Vec::new());

struct Ic;
impl IntegratorConfig<'static, (), std::io::Error> for Ic {
    fn get_data(&self) -> &'static () {
        &()
    }
    fn get_handlers(&self) -> HashMap<String, Box<HandlerFn<(), std::io::Error>>> {
        let mut m: HashMap<String, Box<HandlerFn<(), std::io::Error>>> = HashMap::new();
        m.insert(
            "probe".into(),
            Box::new(|_, _, _, _, v| {
                *PROBE.lock() = v.clone();
                Ok(())
            }),
        );
        m
    }
    fn get_baked_mods(&self) -> Vec<IntegratorMod<std::io::Error>> {
        let make = |b: &(String, &'static [u8], &'static str, u32, bool)| BakedMod { mod_id: b.0.clone(), data: b.1, filename: b.2, priority: b.3, is_core: b.4 }.into();
        BAKED.lock().iter().map(make).collect()
    }
    const GAME_NAME: &'static str = GAME;
    const INTEGRATOR_VERSION: &'static str = "7.8.9";
    const ENGINE_VERSION: EngineVersion = EngineVersion::VER_UE4_23;
}
struct Gc(Ic);
impl GameConfig<'static, Ic, (), std::io::Error> for Gc {
    fn get_integrator_config(&self) -> &Ic {
        &self.0
    }
    fn get_game_build(&self, _: &Path) -> Option<GameBuild> {
        None
    }
    fn get_install_managers(&self) -> BTreeMap<&'static str, Box<dyn InstallManager>> {
        BTreeMap::new()
    }
    fn get_newer_update(&self) -> Result<Option<UpdateInfo>, ModLoaderError> {
        Ok(None)
    }
    fn update_modloader(&self, _: Box<dyn Fn(f32)>) -> Result<(), ModLoaderError> {
        Ok(())
    }
    fn get_icon(&self) -> Option<IconData> {
        None
    }
    const WINDOW_TITLE: &'static str = "";
    const CONFIG_DIR: &'static str = "";
    const CRATE_VERSION: &'static str = "";
    const ABOUT_TEXT: &'static str = "";
}
#[derive(Debug)]
struct Im {
    root: PathBuf,
    done: std::sync::Mutex<Sender<()>>,
}
impl InstallManager for Im {
    fn get_game_install_path(&self) -> Option<PathBuf> {
        Some(self.root.join("install"))
    }
    fn get_paks_path(&self) -> Option<PathBuf> {
        Some(self.root.join("data").join(GAME).join("Saved").join("Paks"))
    }
    fn get_game_build(&self) -> Option<GameBuild> {
        None
    }
    fn launch_game(&self) -> Result<(), ModLoaderWarning> {
        let _ = self.done.lock().unwrap().send(());
        Ok(())
    }
}

// ---- a server for index files and mod files
type Pages = Arc<Mutex<HashMap<String, (u16, Vec<u8>)>>>;
fn serve(pages: Pages) -> u16 {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    std::thread::spawn(move || {
        for c in l.incoming() {
            let Ok(mut c) = c else { continue };
            let pages = pages.clone();
            std::thread::spawn(move || {
                let mut r = BufReader::new(c.try_clone().unwrap());
                let mut first = String::new();
                if r.read_line(&mut first).is_err() {
                    return;
                }
                loop {
                    let mut line = String::new();
                    if r.read_line(&mut line).unwrap_or(0) == 0 || line.trim().is_empty() {
                        break;
                    }
                }
                let path = first.split(' ').nth(1).unwrap_or("").to_string();
                let (code, body) = pages.lock().get(&path).cloned().unwrap_or((404, b"not here".to_vec()));
                let _ = write!(c, "HTTP/1.1 {code} X\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", body.len());
                let _ = c.write_all(&body);
            });
        }
    });
    port
}

// ---- what the world is made of
fn arr(v: &Value) -> &[Value] {
    v.as_array().map(|a| a.as_slice()).unwrap_or(&[])
}
fn ver(v: &Value) -> Version {
    Version::new(v[0].as_u64().unwrap(), v[1].as_u64().unwrap(), v[2].as_u64().unwrap())
}
fn pak(entries: &[(&str, Vec<u8>)]) -> Vec<u8> {
    let mut m = PakMemory::new(PakVersion::FnameBasedCompressionMethod);
    for (n, d) in entries {
        m.set_entry(n.to_string(), d.clone());
    }
    let mut c = Cursor::new(vec![]);
    m.write(&mut c).unwrap();
    c.into_inner()
}
fn meta(row: &Value, deps: &Value, dl: bool, dll: bool, url: &dyn Fn(&str) -> String) -> Value {
    let mut m = json!({"schema_version": 2, "mod_id": s(row, "id"), "name": s(row, "name"), "version": s(row, "version"), "integrator": {"probe": format!("{} {}", s(row, "id"), s(row, "version"))}});
    for (k, to) in [("author", "author"), ("description", "description"), ("build", "game_build"), ("sync", "sync"), ("homepage", "homepage")] {
        if !s(row, k).is_empty() {
            m[to] = json!(s(row, k));
        }
    }
    if dl {
        m["download"] = json!({"type": "index_file", "url": url(s(row, "id"))});
    }
    if dll {
        m["cpp_loader_dlls"] = json!(["lib.dll"]);
    }
    let mut d = json!({});
    for x in arr(deps) {
        d[s(x, "id")] = if s(x, "dl").is_empty() { json!(req_text(&x["req"])) } else { json!({"version": req_text(&x["req"]), "download": {"type": "index_file", "url": url(s(x, "id"))}}) };
    }
    m["dependencies"] = d;
    m
}
fn file_of(f: &Value, good: &BTreeMap<String, Vec<u8>>) -> Vec<u8> {
    let plain = |id: &str, v: &str| pak(&[("metadata.json", serde_json::to_vec(&json!({"schema_version": 2, "mod_id": id, "name": id, "version": v})).unwrap())]);
    let v = || ver(&f["ver"]).to_string();
    match s(f, "kind") {
        "ok" => good[s(f, "name")].clone(),
        "garbage" => b"this is not a pak".to_vec(),
        "nometa" => pak(&[("x.txt", b"x".to_vec())]),
        "badmeta" => pak(&[("metadata.json", b"{ not json".to_vec())]),
        "zeros" => plain(s(f, "id"), &format!("0{}", v())),
        _ => plain(s(f, "id"), &v()),
    }
}
fn listing(p: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut out = BTreeMap::new();
    if let Ok(d) = fs::read_dir(p) {
        for e in d.flatten() {
            out.insert(e.file_name().to_string_lossy().into_owned(), fs::read(e.path()).unwrap_or_default());
        }
    }
    out
}
fn tree(p: &Path, out: &mut BTreeSet<PathBuf>) {
    if let Ok(d) = fs::read_dir(p) {
        for e in d.flatten() {
            if e.path().is_dir() {
                tree(&e.path(), out)
            } else {
                out.insert(e.path());
            }
        }
    }
}
fn strs(v: &Value) -> BTreeSet<String> {
    arr(v).iter().map(|x| x.as_str().unwrap().to_string()).collect()
}
fn by(v: &Value) -> Vec<String> {
    let mut o: Vec<String> = arr(v).iter().map(|p| format!("{} {}", p[0].as_str().unwrap(), VersionReq::parse(&req_text(&p[1])).unwrap())).collect();
    o.sort();
    o
}
fn warn_of(w: &ModLoaderWarning) -> String {
    let k = format!("{:?}", w.kind);
    let k = k.split('(').next().unwrap();
    match &w.kind {
        ModLoaderWarningKind::UnresolvedDependency(id, from) => {
            let mut f: Vec<String> = from.iter().map(|(m, r)| format!("{m} {}", VersionReq::parse(r).map(|r| r.to_string()).unwrap_or(r.clone()))).collect();
            f.sort();
            f.dedup();
            format!("{k} {id} {f:?}")
        }
        _ => format!("{k} {}", w.mod_id.clone().unwrap_or_default()),
    }
}
fn warn_exp(w: &Value) -> String {
    match s(w, "kind") {
        "UnresolvedDependency" => format!("UnresolvedDependency {} {:?}", s(w, "id"), by(&w["by"])),
        k => format!("{k} {}", s(w, "id")),
    }
}

struct Session {
    data: Arc<Mutex<ModLoaderAppData>>,
    tx: Sender<Msg>,
    done: Receiver<()>,
    handle: std::thread::JoinHandle<()>,
    working: Arc<AtomicBool>,
    exit: Arc<AtomicBool>,
}
impl Session {
    fn start(root: &Path) -> Session {
        let (dtx, done) = channel();
        let mut ims: BTreeMap<&'static str, Box<dyn InstallManager>> = BTreeMap::new();
        ims.insert("Steam", Box::new(Im { root: root.to_path_buf(), done: std::sync::Mutex::new(dtx) }));
        let data = Arc::new(Mutex::new(ModLoaderAppData { refuse_mismatched_connections: true, install_managers: ims, ..Default::default() }));
        let (tx, rx) = channel();
        let (working, exit) = (Arc::new(AtomicBool::new(true)), Arc::new(AtomicBool::new(false)));
        let td = BackgroundThreadData {
            data: data.clone(),
            use_cpp_loader: false,
            ready_exit: exit.clone(),
            last_integration_time: Arc::new(Mutex::new(Instant::now())),
            working: working.clone(),
            newer_update: Arc::new(Mutex::new(None)),
            should_update: Arc::new(AtomicBool::new(false)),
            update_progress: Arc::new(AtomicI32::new(0)),
        };
        let handle = std::thread::spawn(move || {
            let _ = background_work(Gc(Ic), td, rx);
        });
        Session { data, tx, done, handle, working, exit }
    }
    /// waits until everything sent so far has been handled
    fn sync(&self) -> Result<(), String> {
        let _ = self.tx.send(Msg::LaunchGame);
        let t = Instant::now();
        loop {
            if self.done.recv_timeout(Duration::from_millis(20)).is_ok() {
                return Ok(());
            }
            if self.handle.is_finished() {
                return Err(format!("the background thread crashed: {}", PANIC.lock()));
            }
            if t.elapsed() > Duration::from_secs(120) {
                return Err("the background thread does not finish".into());
            }
        }
    }
}

pub fn replay(file: &str, part: &str) {
    std::panic::set_hook(Box::new(|i| {
        let t = std::thread::current();
        if t.name() == Some("main") {
            eprintln!("harness panic: {i}");
            std::process::exit(2);
        }
        *PANIC.lock() = i.to_string();
    }));
    let pages: Pages = Arc::new(Mutex::new(HashMap::new()));
    let port = serve(pages.clone());
    let scratch = Scratch::new("manage");
    let mut rep = Report::new();
    for case in lines(file) {
        rep.cases += 1;
        let root = scratch.0.join(format!("c{}", rep.cases));
        let ok = one(&case, &root, &pages, &format!("http://127.0.0.1:{port}/{}", rep.cases), &format!("/{}", rep.cases), part, &mut rep);
        let _ = fs::remove_dir_all(&root);
        if !ok {
            break; // a stuck thread is still around
        }
    }
    rep.finish();
}

fn one(case: &Value, root: &Path, pages: &Pages, base: &str, pbase: &str, part: &str, rep: &mut Report) -> bool {
    let w = &case["world"];
    let mods = root.join("data").join(GAME).join("Saved").join("Mods");
    let paks = root.join("data").join(GAME).join("Saved").join("Paks");
    let import = root.join("import");
    let game = root.join("install").join(GAME).join("Content").join("Paks");
    for d in [&mods, &import, &game] {
        fs::create_dir_all(d).unwrap();
    }
    std::env::set_var("MODMAN_DATA", root.join("data"));
    fs::write(game.join("game.pak"), pak(&[("x.txt", b"x".to_vec())])).unwrap();
    // releases, server
    let url = |id: &str| {
        let ix = arr(&w["idx"]).iter().find(|x| s(x, "id") == id);
        let joint = case["shared"] == json!(true) && ix.map(|x| matches!(s(x, "st"), "ok" | "nomod")).unwrap_or(false);
        if joint { format!("{base}/all") } else { format!("{base}/idx/{id}") }
    };
    let mut good: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for r in arr(&w["rel"]) {
        good.insert(s(r, "name").into(), pak(&[("metadata.json", serde_json::to_vec(&meta(&r["row"], &r["deps"], r["dl"].as_bool().unwrap(), r["dll"].as_bool().unwrap(), &url)).unwrap()), ("data.txt", s(r, "name").as_bytes().to_vec())]));
    }
    {
        let mut p = pages.lock();
        p.clear();
        for (n, d) in &good {
            for at in ["f", "m"] {
                p.insert(format!("{pbase}/{at}/{n}"), (200, d.clone()));
            }
        }
        // what the server sends instead of some of the files
        for rel in arr(&w["rel"]) {
            let id = s(rel, "id");
            let page = match s(rel, "srv") {
                "ok" => continue,
                "404" => (404, b"no".to_vec()),
                "wrongid" => (200, file_of(&json!({"kind": "x", "id": format!("X{id}"), "ver": rel["v"]}), &good)),
                "wrongver" => (200, file_of(&json!({"kind": "x", "id": id, "ver": [7, 7, 7]}), &good)),
                k => (200, file_of(&json!({"kind": k, "id": id, "ver": rel["v"]}), &good)),
            };
            for at in ["f", "m"] {
                p.insert(format!("{pbase}/{at}/{}", s(rel, "name")), page.clone());
            }
        }
        index(&w["idx"], w, base, pbase, &mut p);
    }
    *BAKED.lock() = arr(&w["baked"])
        .iter()
        .map(|b| {
            let d = pak(&[("metadata.json", serde_json::to_vec(&meta(&b["row"], &json!([]), false, false, &url)).unwrap())]);
            good.insert(s(b, "file").into(), d.clone());
            (s(b, "id").to_string(), &*Box::leak(d.into_boxed_slice()), &*Box::leak(s(b, "file").to_string().into_boxed_str()), i(b, "pre") as u32, b["core"].as_bool().unwrap())
        })
        .collect();
    let mut content: BTreeMap<String, Vec<u8>> = good.clone();
    if let Some(fs0) = case["files"].as_object() {
        for f in fs0.values() {
            let d = file_of(f, &good);
            content.insert(s(f, "name").into(), d.clone());
            fs::write(mods.join(s(f, "name")), d).unwrap();
        }
    }
    settings(&case["set"], &mods, &content);
    let mut idx = w["idx"].clone();
    let mut ses: Option<Session> = None;
    for (n, st) in arr(&case["h"]).iter().enumerate() {
        rep.steps += 1;
        let op = &st["note"]["op"];
        let name = s(op, "op");
        PROBE.lock().clear();
        // a part judges its own steps; the others only have to bring about the states it starts from
        let mine = (name == "integrate") == (part == "install");
        let ended = std::cell::Cell::new(false);
        let fail = |rep: &mut Report, key: &str, what: String| {
            ended.set(true);
            if mine {
                rep.violation(&format!("manage:{key}"), format!("step {} {op}: {what}", n + 1), case);
            }
        };
        if let Some(ix) = arr(&st["idx"]).first() {
            for old in idx.as_array_mut().unwrap().iter_mut().filter(|o| s(o, "id") == s(ix, "id")) {
                *old = ix.clone();
            }
            index(&idx, w, base, pbase, &mut pages.lock());
        }
        match name {
            "start" => ses = Some(Session::start(root)),
            "stop" => {
                let x = ses.take().unwrap();
                let _ = x.tx.send(Msg::Exit);
                let t = Instant::now();
                while !x.handle.is_finished() && t.elapsed() < Duration::from_secs(60) {
                    std::thread::sleep(Duration::from_millis(1));
                }
                if !x.exit.load(Ordering::Acquire) {
                    fail(rep, "exit", "asked to exit, the background thread does not say it is ready to".into());
                    return x.handle.is_finished();
                }
            }
            _ => {
                let x = ses.as_ref().unwrap();
                let mut g = x.data.lock();
                match name {
                    "switch" => g.game_mods.get_mut(s(op, "id")).unwrap().enabled = op["on"].as_bool().unwrap(),
                    "select" => g.game_mods.get_mut(s(op, "id")).unwrap().selected_version = SelectedVersion::Specific(ver(&op["v"])),
                    "trust" => {
                        let u: Vec<Vec<u8>> = g.untrusted_mods.iter().map(|u| u.hash.clone()).collect();
                        g.trusted_mods.extend(u);
                        g.untrusted_mods.clear();
                    }
                    "profile" => {
                        let name = s(op, "name").to_string();
                        let mods = g.game_mods.iter().filter(|(_, m)| m.enabled).map(|(id, m)| (id.clone(), ProfileMod { force_latest: m.selected_version.is_latest(), version: m.selected_version.clone().unwrap().to_string(), ..Default::default() })).collect();
                        g.profiles.push(Profile { name, mods });
                    }
                    "refuse" => g.refuse_mismatched_connections = op["on"].as_bool().unwrap(),
                    _ => {}
                }
                drop(g);
                let _ = match name {
                    "import" => {
                        let own = op["self"].as_bool().unwrap();
                        let list = arr(&op["files"])
                            .iter()
                            .map(|f| {
                                let p = if own { mods.join(s(f, "name")) } else { import.join(s(f, "name")) };
                                if !own {
                                    let d = file_of(f, &good);
                                    content.insert(s(f, "name").into(), d.clone());
                                    fs::write(&p, d).unwrap();
                                }
                                FileToProcess::new(p, true)
                            })
                            .collect();
                        x.tx.send(Msg::Import(list))
                    }
                    "remove" => x.tx.send(Msg::RemoveMod(s(op, "id").into())),
                    "save" => x.tx.send(Msg::WriteConfig),
                    "integrate" => x.tx.send(Msg::integrate()),
                    _ => Ok(()),
                };
            }
        }
        if let Some(x) = &ses {
            if let Err(e) = x.sync() {
                let crash = x.handle.is_finished();
                fail(rep, if crash { "crash" } else { "hang" }, e);
                return crash;
            }
            // what it knows
            let mut g = x.data.lock();
            let exp: BTreeMap<String, String> = arr(&st["lib"])
                .iter()
                .map(|m| {
                    let mut vs: Vec<String> = arr(&m["vers"]).iter().map(|v| format!("{} {} got={} url={}", ver(&v["v"]), s(v, "file"), v["got"], s(v, "url"))).collect();
                    vs.sort();
                    let of = arr(&w["rel"]).iter().find(|r| s(r, "id") == s(m, "id") && r["v"] == m["of"]).map(|r| {
                        let row = &r["row"];
                        let build = Some(s(row, "build")).filter(|b| b.split('.').count() == 4 && b.split('.').all(|n| n.parse::<usize>().is_ok())).unwrap_or("");
                        let sync = Some(s(row, "sync")).filter(|t| !t.is_empty()).unwrap_or("serverclient");
                        let deps: BTreeSet<&str> = arr(&r["deps"]).iter().map(|d| s(d, "id")).collect();
                        format!("{} {} {} {} {build} {sync} {} {deps:?} {}", s(row, "name"), s(row, "author"), s(row, "homepage"), s(row, "description"), r["dl"], good[s(r, "name")].len())
                    }).unwrap_or_default();
                    (s(m, "id").to_string(), format!("on={} {} {} latest={} data={of} {vs:?}", m["on"], s(&m["sel"], "k"), ver(&m["sel"]["v"]), ver(&m["lat"])))
                })
                .collect();
            let address = |id: &str, v: &Version, u: &Option<String>| {
                let rel = arr(&w["rel"]).iter().find(|r| s(r, "id") == id && ver(&r["v"]) == *v).map(|r| s(r, "name")).unwrap_or("?");
                let short = ["f", "m"].into_iter().find(|at| *u == Some(format!("{base}/{at}/{rel}")));
                short.map(|x| x.to_string()).unwrap_or(u.clone().unwrap_or_default())
            };
            let got: BTreeMap<String, String> = g
                .game_mods
                .iter()
                .map(|(id, m)| {
                    let (k, v) = match &m.selected_version {
                        SelectedVersion::Latest(v) => ("latest", Some(v.clone())),
                        SelectedVersion::LatestIndirect(v) => ("indirect", v.clone()),
                        SelectedVersion::Specific(v) => ("specific", Some(v.clone())),
                    };
                    let mut vs: Vec<String> = m.versions.iter().map(|(v, f)| format!("{v} {} got={} url={}", f.file_name, f.downloaded, address(id, v, &f.download_url))).collect();
                    vs.sort();
                    let opt = |v: &Option<Version>| v.as_ref().map(|v| v.to_string()).unwrap_or("none".into());
                    let sync = match m.sync {
                        SyncMode::None => "none",
                        SyncMode::ServerOnly => "server",
                        SyncMode::ClientOnly => "client",
                        SyncMode::ServerAndClient => "serverclient",
                    };
                    let deps: BTreeSet<&str> = m.dependencies.keys().map(|d| d.as_str()).collect();
                    let text = |t: &Option<String>| t.clone().unwrap_or_default();
                    let build = m.game_build.map(|b| b.to_string()).unwrap_or_default();
                    let data = format!("{} {} {} {} {build} {sync} {} {deps:?} {}", m.name, text(&m.author), text(&m.homepage), text(&m.description), m.download.is_some(), m.size);
                    (id.clone(), format!("on={} {k} {} latest={} data={data} {vs:?}", m.enabled, opt(&v), opt(&m.latest_version)))
                })
                .collect();
            if exp != got {
                fail(rep, "known", format!("what is known of the mods should be {exp:#?}, is {got:#?}"));
                drop(g);
                return end(ses);
            }
            let mut we: Vec<String> = arr(&st["note"]["warn"]).iter().map(warn_exp).collect();
            let mut wg: Vec<String> = g.warnings.iter().map(warn_of).collect();
            g.warnings.clear();
            we.sort();
            wg.sort();
            if we != wg {
                fail(rep, "warnings", format!("should report {we:?}, reports {wg:?}"));
            }
            let sha = |f: &str| Sha256::digest(&content[f]).to_vec();
            let names = |v: &Value| -> BTreeSet<Vec<u8>> { strs(v).iter().map(|f| sha(f)).collect() };
            let unt: BTreeSet<Vec<u8>> = g.untrusted_mods.iter().map(|u| u.hash.clone()).collect();
            if unt != names(&st["acc"]["unt"]) || g.trusted_mods.iter().cloned().collect::<BTreeSet<_>>() != names(&st["acc"]["trust"]) {
                fail(rep, "trust", format!("trusted and untrusted should be {}, untrusted are {:?}", st["acc"], g.untrusted_mods));
            }
            let prof: Vec<String> = g.profiles.iter().map(|p| prof_line(&p.name, p.mods.iter().map(|(id, m)| format!("{id} {} {}", m.force_latest, m.version)).collect())).collect();
            if prof != profs(&st["acc"]["prof"]) {
                fail(rep, "profiles", format!("saved selections should be {:?}, are {prof:?}", profs(&st["acc"]["prof"])));
            }
            if g.error.is_some() || g.failed {
                fail(rep, "failed", "the step failed".into());
            }
            drop(g);
            if x.working.load(Ordering::Acquire) {
                fail(rep, "working", "still marked as working after it finished".into());
            }
        }
        // the folders
        let mut have = listing(&mods);
        let cfg = have.remove("modconfig.json");
        let want = strs(&st["dir"]);
        if have.keys().cloned().collect::<BTreeSet<_>>() != want {
            fail(rep, "folder", format!("the folder should hold {want:?}, holds {:?}", have.keys().collect::<Vec<_>>()));
            return end(ses);
        }
        for (f, d) in &have {
            if content.get(f) != Some(d) {
                fail(rep, "content", format!("{f} has {} bytes that are not what was stored ({} bytes)", d.len(), content.get(f).map(|c| c.len()).unwrap_or(0)));
                return end(ses);
            }
        }
        let inst = listing(&paks);
        let want = strs(&st["paks"]);
        if inst.keys().cloned().collect::<BTreeSet<_>>() != want {
            fail(rep, "installed", format!("installed should be {want:?}, is {:?}", inst.keys().collect::<Vec<_>>()));
        }
        for (f, d) in &inst {
            if f != "900-ModIntegrator_P.pak" && content.get(f) != Some(d) {
                fail(rep, "installed-content", format!("{f} is not the file of the mods folder"));
            }
        }
        let mut all = BTreeSet::new();
        tree(root, &mut all);
        let stray: Vec<&PathBuf> = all.iter().filter(|p| p.parent() != Some(&mods) && p.parent() != Some(&paks) && !p.starts_with(&import) && !p.starts_with(root.join("install"))).collect();
        if !stray.is_empty() {
            fail(rep, "stray", format!("files outside the manager's folders: {stray:?}"));
        }
        config(&st["cfg"], cfg, &fail, rep);
        if let Some(r) = arr(&st["rows"]).first() {
            if name == "integrate" {
                if let Err(e) = listed(r, inst.get("900-ModIntegrator_P.pak")) {
                    fail(rep, "listed", e);
                }
            }
        }
        if ended.get() {
            return end(ses);
        }
    }
    end(ses)
}
/// the index files on the server
fn index(idx: &Value, w: &Value, base: &str, pbase: &str, p: &mut HashMap<String, (u16, Vec<u8>)>) {
    let mut every = json!({});
    for ix in arr(idx) {
        let id = s(ix, "id");
        let mut vs = json!({});
        for v in arr(&ix["vers"]) {
            let t = if s(ix, "st") == "badver" { "1.0".to_string() } else { ver(&v["v"]).to_string() };
            let rel = arr(&w["rel"]).iter().find(|r| s(r, "id") == id && r["v"] == v["v"]).unwrap();
            vs[t] = json!({"download_url": format!("{base}/{}/{}", s(ix, "at"), s(rel, "name")), "filename": s(v, "file")});
        }
        let latest = if ix["latest"].as_array().map(|a| a.len()) == Some(3) { ver(&ix["latest"]).to_string() } else { "1.0.0".into() };
        let page = match s(ix, "st") {
            "404" => (404, b"no".to_vec()),
            "junk" => (200, b"<html>".to_vec()),
            "nomod" => (200, br#"{"mods": {}}"#.to_vec()),
            st => {
                let one = json!({"latest_version": latest, "versions": vs});
                if st == "ok" {
                    every[id] = one.clone();
                }
                (200, serde_json::to_vec(&json!({"mods": {id: one}})).unwrap())
            }
        };
        p.insert(format!("{pbase}/idx/{id}"), page);
    }
    // one index file for all mods that have one
    p.insert(format!("{pbase}/all"), (200, serde_json::to_vec(&json!({"mods": every})).unwrap()));
}
/// the settings file of an earlier time
fn settings(set: &Value, mods: &Path, content: &BTreeMap<String, Vec<u8>>) {
    let old = s(set, "kind") == "old";
    let text = match s(set, "kind") {
        "none" => return,
        "junk" => "{ \"current\": 3".to_string(),
        _ => {
            let entry = |m: &Value, on: Option<bool>| {
                let mut e = json!({"priority": 0, "version": ver(&m["ver"]).to_string()});
                if !old || m["latest"] == json!(false) {
                    e["force_latest"] = m["latest"].clone();
                }
                if let Some(b) = on {
                    e["enabled"] = json!(b);
                }
                e
            };
            let mut cur = json!({});
            for m in arr(&set["mods"]) {
                cur[s(m, "id")] = entry(m, m["on"].as_bool());
            }
            let mut trust: Vec<String> = strs(&set["trust"]).iter().map(|f| hex::encode(Sha256::digest(&content[f]))).collect();
            trust.insert(0, "not hex".into());
            let mut list = vec![];
            let mut map = json!({});
            for p in arr(&set["prof"]) {
                let mut ms = json!({});
                for m in arr(&p["mods"]) {
                    ms[s(m, "id")] = entry(m, old.then_some(true));
                }
                if old {
                    ms["Unused"] = json!({"force_latest": false, "enabled": false, "priority": 1, "version": "1.0.0"});
                }
                list.push(json!({"name": s(p, "name"), "mods": ms}));
                map[s(p, "name")] = json!({"mods": ms});
            }
            let platform = Some(s(set, "platform")).filter(|p| !p.is_empty());
            let mut c = json!({"selected_game_platform": platform, "refuse_mismatched_connections": set["refuse"], "current": {"mods": cur}, "profiles": if old { map } else { json!(list) }});
            if !old || trust.len() > 1 {
                c["trusted_mods"] = json!(trust);
            }
            c.to_string()
        }
    };
    fs::write(mods.join("modconfig.json"), text).unwrap();
}
fn end(ses: Option<Session>) -> bool {
    if let Some(x) = ses {
        let _ = x.tx.send(Msg::Exit);
        let _ = x.handle.join();
    }
    true
}
fn prof_line(name: &str, mut m: Vec<String>) -> String {
    m.sort();
    format!("{name}: {m:?}")
}
fn profs(v: &Value) -> Vec<String> {
    arr(v).iter().map(|p| prof_line(s(p, "name"), arr(&p["mods"]).iter().map(|m| format!("{} {} {}", s(m, "id"), m["latest"], ver(&m["ver"]))).collect())).collect()
}
fn config(exp: &Value, got: Option<Vec<u8>>, fail: &dyn Fn(&mut Report, &str, String), rep: &mut Report) {
    let Some(b) = got else {
        if exp["is"].as_bool().unwrap() {
            fail(rep, "config", "there is no settings file".into());
        }
        return;
    };
    let v: Value = serde_json::from_slice(&b).unwrap_or(Value::Null);
    let line = |id: &str, l: &Value, on: &Value, ver: String| format!("{id} latest={l} on={on} {ver}");
    let mut e: Vec<String> = arr(&exp["mods"]).iter().map(|m| line(s(m, "id"), &m["latest"], &m["on"], ver(&m["ver"]).to_string())).collect();
    let mut g: Vec<String> = v["current"]["mods"].as_object().map(|o| o.iter().map(|(id, m)| line(id, &m["force_latest"], &m["enabled"], s(m, "version").to_string())).collect()).unwrap_or_default();
    e.sort();
    g.sort();
    if e != g || v["refuse_mismatched_connections"] != exp["refuse"] {
        fail(rep, "config", format!("settings should be {e:?} refuse={}, are {}", exp["refuse"], String::from_utf8_lossy(&b)));
    }
}
/// what the integrated pak says is installed
fn listed(exp: &Value, pak: Option<&Vec<u8>>) -> Result<(), String> {
    let pak = pak.ok_or("there is no integrated pak")?;
    let mut r = PakReader::new(Cursor::new(pak));
    r.load_index().map_err(|e| e.to_string())?;
    let mut entry = |n: &str| r.read_entry(&n.to_string()).map_err(|e| format!("{n}: {e}"));
    let d = format!("{GAME}/Content/Integrator");
    let (a, b) = (entry(&format!("{d}/ListOfMods.uasset"))?, entry(&format!("{d}/ListOfMods.uexp"))?);
    let asset = Asset::new(Cursor::new(a), Some(Cursor::new(b)), EngineVersion::VER_UE4_23, None).map_err(|e| format!("ListOfMods: {e}"))?;
    let table = asset.asset_data.exports.iter().find_map(|e| if let Export::DataTableExport(t) = e { Some(t) } else { None }).ok_or("ListOfMods holds no table")?;
    let cols = ["ModName_2_A", "ModAuthor_4_B", "ModDescription_6_C", "ModVersion_8_D", "GameBuild_10_E", "Sync_12_F", "Homepage_14_G", "IsOptional_16_H"];
    let got: Vec<String> = table
        .table
        .data
        .iter()
        .map(|row| {
            let c: Vec<String> = row
                .value
                .iter()
                .zip(cols.iter().map(Some).chain(std::iter::repeat(None)))
                .map(|(p, want)| {
                    let ok = want.map(|w| p.get_name() == *w).unwrap_or(false) && p.get_duplication_index() == 0;
                    let v = match p {
                        Property::StrProperty(x) => x.value.clone().unwrap_or_default(),
                        Property::ByteProperty(x) => match &x.value {
                            BytePropertyValue::FName(n) => n.get_owned_content(),
                            BytePropertyValue::Byte(b) => b.to_string(),
                        },
                        Property::BoolProperty(x) => x.value.to_string(),
                        _ => "?".into(),
                    };
                    if ok { v } else { format!("misplaced column {}[{}]={v}", p.get_name().get_owned_content(), p.get_duplication_index()) }
                })
                .collect();
            format!("{} {c:?}", row.name.get_owned_content())
        })
        .collect();
    let line = |r: &Value| {
        let sync = match s(r, "sync") {
            "none" => 0,
            "client" => 1,
            "server" => 2,
            _ => 3,
        };
        format!("{} {:?}", s(r, "id"), [s(r, "name"), s(r, "author"), s(r, "description"), s(r, "version"), s(r, "build"), &format!("SyncMode::NewEnumerator{sync}"), s(r, "homepage"), "true"])
    };
    // by priority; mods of the same priority in any order; the mods that always come along last
    let mut ord: Vec<(i64, String, String)> = arr(&exp["ordered"]).iter().map(|r| (i(r, "pre"), line(r), format!("{} {}", s(r, "id"), s(r, "version")))).collect();
    ord.extend(arr(&exp["after"]).iter().map(|r| (i64::MAX, line(r), format!("{} {}", s(r, "id"), s(r, "version")))));
    let group = |got: &[String], pick: &dyn Fn(&(i64, String, String)) -> String| -> bool {
        let rank = |g: &String| ord.iter().find(|o| pick(o) == *g).map(|o| o.0);
        let ranks: Option<Vec<i64>> = got.iter().map(rank).collect();
        let (mut a, mut b): (Vec<String>, Vec<String>) = (got.to_vec(), ord.iter().map(pick).collect());
        a.sort();
        b.sort();
        a == b && ranks.map(|r| r.windows(2).all(|w| w[0] <= w[1])).unwrap_or(false)
    };
    if !group(&got, &|o| o.1.clone()) {
        ord.sort();
        return Err(format!("the mods listed should be {:#?}, are {got:#?}", ord.iter().map(|o| &o.1).collect::<Vec<_>>()));
    }
    let probe: Vec<String> = PROBE.lock().iter().map(|v| v.as_str().unwrap_or("").to_string()).collect();
    if !group(&probe, &|o| o.2.clone()) {
        return Err(format!("the handler should be given the data of {:?}, is given {probe:?}", ord.iter().map(|o| &o.2).collect::<Vec<_>>()));
    }
    let (a, b) = (entry(&format!("{d}/IntegratorStatics_BP.uasset"))?, entry(&format!("{d}/IntegratorStatics_BP.uexp"))?);
    let asset = Asset::new(Cursor::new(a), Some(Cursor::new(b)), EngineVersion::VER_UE4_23, None).map_err(|e| format!("IntegratorStatics_BP: {e}"))?;
    let Some(Export::NormalExport(o)) = asset.asset_data.exports.iter().find(|e| e.get_base_export().object_name == "Default__IntegratorStatics_BP_C") else { return Err("no statics object".into()) };
    let st: Vec<String> = o
        .properties
        .iter()
        .map(|p| match p {
            Property::StrProperty(x) => format!("{}={}", x.name.get_owned_content(), x.value.clone().unwrap_or_default()),
            Property::BoolProperty(x) => format!("{}={}", x.name.get_owned_content(), x.value),
            _ => "?".into(),
        })
        .collect();
    let want = vec!["IntegratorVersion=7.8.9".to_string(), format!("RefuseMismatchedConnections={}", exp["refuse"])];
    if st != want {
        return Err(format!("the statics should say {want:?}, say {st:?}"));
    }
    for n in ["Mod", "ModIntegrator", "ModIntegratorComponent", "ModMismatchWidget", "SyncMode"] {
        for e in ["uasset", "uexp"] {
            let f = format!("{n}.{e}");
            if entry(&format!("{d}/{f}"))? != format!("stand-in for {f}").into_bytes() {
                return Err(format!("{f} was not copied over"));
            }
        }
    }
    entry("metadata.json").map(|_| ())
}
