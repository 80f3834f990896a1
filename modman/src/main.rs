//! Conformance harness for the mod manager and the integrator: binds the TLA+ specifications in ../specs to the real
//! sources. The manager's crate cannot be built offline (its window toolkit is missing), so its window-less modules
//! are compiled here from /repo as they are; the state they share (lib.rs) is declared below with the same fields.
#![allow(dead_code, unused_imports)]
use std::collections::BTreeMap;
use std::path::PathBuf;

#[path = "/verif/harness/src/common.rs"]
mod common;
#[path = "/verif/harness/src/wire.rs"]
mod wire;
mod deps;
mod layers;
mod manage;
mod scratch;

#[path = "/repo/unreal_mod_manager/src/background_work.rs"]
mod background_work;
#[path = "/repo/unreal_mod_manager/src/config.rs"]
pub mod config;
#[path = "/repo/unreal_mod_manager/src/error.rs"]
pub mod error;
#[path = "/repo/unreal_mod_manager/src/game_mod.rs"]
pub(crate) mod game_mod;
#[path = "/repo/unreal_mod_manager/src/mod_config.rs"]
mod mod_config;
#[path = "/repo/unreal_mod_manager/src/mod_processing/mod.rs"]
mod mod_processing;
#[path = "/repo/unreal_mod_manager/src/profile.rs"]
pub(crate) mod profile;
#[path = "/repo/unreal_mod_manager/src/update_info.rs"]
pub mod update_info;
#[path = "/repo/unreal_mod_manager/src/version.rs"]
pub mod version;

use config::InstallManager;
use error::{ModLoaderError, ModLoaderWarning};
use game_mod::GameMod;
use mod_config::write_config;
use mod_processing::dependencies::DependencyGraph;
use version::GameBuild;

#[derive(Debug, Clone)]
pub(crate) struct FileToProcess {
    pub path: PathBuf,
    pub newly_added: bool,
}
impl FileToProcess {
    pub fn new(path: PathBuf, newly_added: bool) -> Self {
        FileToProcess { path, newly_added }
    }
}
#[derive(Debug, Clone)]
pub(crate) struct UntrustedMod {
    pub name: String,
    pub version: String,
    pub hash: Vec<u8>,
}
impl UntrustedMod {
    pub fn new(name: String, version: String, hash: Vec<u8>) -> Self {
        UntrustedMod { name, version, hash }
    }
}
#[derive(Debug, Default)]
pub(crate) struct ModLoaderAppData {
    pub mods_path: Option<PathBuf>,
    pub paks_path: Option<PathBuf>,
    pub game_install_path: Option<PathBuf>,
    pub game_build: Option<GameBuild>,
    pub refuse_mismatched_connections: bool,
    pub files_to_process: Vec<FileToProcess>,
    pub game_mods: BTreeMap<String, GameMod>,
    pub profiles: Vec<profile::Profile>,
    pub error: Option<ModLoaderError>,
    pub warnings: Vec<ModLoaderWarning>,
    pub failed: bool,
    pub dependency_graph: Option<DependencyGraph>,
    pub install_managers: BTreeMap<&'static str, Box<dyn InstallManager>>,
    pub selected_game_platform: Option<String>,
    pub trusted_mods: Vec<Vec<u8>>,
    pub untrusted_mods: Vec<UntrustedMod>,
}
impl ModLoaderAppData {
    pub fn set_game_platform(&mut self, platform: &str) -> Result<(), ()> {
        let manager = self.install_managers.get(platform);
        if let Some(manager) = manager {
            self.game_install_path = manager.get_game_install_path();
            self.game_build = manager.get_game_build();
            self.paks_path = manager.get_paks_path();
            self.selected_game_platform = Some(platform.to_string());
            write_config(self);
            return Ok(());
        }
        Err(())
    }
    #[allow(clippy::borrowed_box)]
    pub fn get_install_manager(&self) -> Option<&Box<dyn InstallManager>> {
        if let Some(platform) = &self.selected_game_platform {
            return self.install_managers.get(&platform.as_str());
        }
        None
    }
}
pub const fn default_true() -> bool {
    true
}

fn engine(n: &str) -> unreal_asset::engine_version::EngineVersion {
    unreal_asset::engine_version::EngineVersion::try_from(n.parse::<i32>().unwrap()).unwrap()
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    common::install_hook();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a.as_slice() {
        ["deps", file] => deps::replay(file),
        ["emit", file, dir] => layers::emit(file, dir),
        ["manage", file, part] => manage::replay(file, part),
        ["layers", assets, file, engine] => layers::replay(assets, file, engine),
        other => {
            eprintln!("unknown command {other:?}");
            std::process::exit(2)
        }
    }
}
