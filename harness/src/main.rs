//! Conformance harness: binds the TLA+ specifications in ../specs to the real crates in /repo.
//! usage: harness <module> <mode> [args...]; reads cases/traces as JSON lines, writes JSON lines.
mod alloc;
mod asset;
mod edit;
mod members;
mod moved;
mod refs;
mod common;
mod chain;
mod dbg;
mod cli;
mod helpers;
mod imap;
mod meta;
mod names;
mod opaque;
mod pak;
mod registry;
mod usmap;
mod versions;
mod wire;

#[global_allocator]
static GLOBAL: alloc::Guard = alloc::Guard;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    common::install_hook();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a.as_slice() {
        ["imap", "replay", file] => imap::replay(file),
        ["imap", "drive", seed, n, len] => imap::drive(seed, n, len),
        ["chain", "replay", file] => chain::replay(file),
        ["chain", "drive", seed, n, len] => chain::drive(seed, n, len),
        ["prim", file] => helpers::replay(file, ""),
        ["prim", file, extra] => helpers::replay(file, extra),
        ["meta", file] => meta::replay(file),
        ["names", file] => names::replay(file),
        ["versions", "dump"] => versions::dump(),
        ["versions", file] => versions::replay(file),
        ["refs", file] => refs::replay(file),
        ["edit", file] => edit::replay(file, false),
        ["contents", file] => edit::replay(file, true),
        ["members", file] => members::replay(file),
        ["moved", file] => moved::replay(file),
        ["opaque", file] => opaque::replay(file),
        ["registry", file] => registry::replay(file),
        ["regbad", file] => registry::damage(file),
        ["regparts", file] => registry::parts(file),
        ["usmap", file] => usmap::replay(file),
        ["usmapbad", file] => usmap::damage(file),
        ["asset", file] => asset::replay(file, ""),
        ["asset", file, only] => asset::replay(file, only),
        ["assetshow", file, n] => asset::show_case(file, n),
        ["cli", file, bin, scratch] => cli::run(file, bin, scratch),
        ["pak", "write", file] => pak::write(file),
        ["pak", "foreign", file] => pak::foreign(file),
        ["pak", "damage", file] => pak::damage(file),
        ["pak", "memory", file, zip0] => pak::memory(file, zip0),
        other => {
            eprintln!("unknown command {other:?}");
            std::process::exit(2)
        }
    }
}
