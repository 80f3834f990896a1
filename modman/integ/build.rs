// The real build script cooks or downloads the integrator's own assets. Here they are the stand-ins beside this file.
use std::{env, fs, path::PathBuf};
fn main() {
    println!("cargo:rerun-if-changed=assets");
    let to = PathBuf::from(env::var_os("OUT_DIR").unwrap()).join("ModIntegrator/Saved/Cooked/WindowsNoEditor/ModIntegrator/Content/Integrator");
    fs::create_dir_all(&to).unwrap();
    for n in ["IntegratorStatics_BP", "ListOfMods", "Mod", "ModIntegrator", "ModIntegratorComponent", "ModMismatchWidget", "SyncMode"] {
        for e in ["uasset", "uexp"] {
            let f = format!("{n}.{e}");
            let from = PathBuf::from("assets").join(&f);
            let data = if from.exists() { fs::read(&from).unwrap() } else { format!("stand-in for {f}").into_bytes() };
            fs::write(to.join(&f), data).unwrap();
        }
    }
}
