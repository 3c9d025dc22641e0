//! Derives this crate's root from /repo/crates/wasm-shim/src/lib.rs: the same
//! items, with the module files found by absolute path and `start` reachable.
use std::fmt::Write as _;
use std::path::Path;

fn main() {
    let src = "/repo/crates/wasm-shim/src";
    println!("cargo:rerun-if-changed={src}");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-env=WASM_SHIM_PROFILE=mc");
    println!("cargo:rustc-env=WASM_SHIM_FEATURES=[]");
    println!("cargo:rustc-env=WASM_SHIM_GIT_HASH=mc");
    let text = std::fs::read_to_string(format!("{src}/lib.rs")).expect("wasm-shim lib.rs");
    let mut out = String::new();
    for line in text.lines() {
        let t = line.trim_start();
        if t.starts_with("#![") || t.starts_with("//!") {
            continue;
        }
        let bare = t
            .strip_prefix("pub(crate) ")
            .or_else(|| t.strip_prefix("pub "))
            .unwrap_or(t);
        if let Some(name) = bare.strip_prefix("mod ").and_then(|r| r.trim_end().strip_suffix(';')) {
            let file = format!("{src}/{name}.rs");
            let path = if Path::new(&file).exists() {
                file
            } else {
                format!("{src}/{name}/mod.rs")
            };
            let _ = writeln!(out, "#[path = \"{path}\"]\npub mod {name};");
        } else if bare.starts_with("extern \"C\" fn start") {
            let _ = writeln!(out, "pub {bare}");
        } else {
            let _ = writeln!(out, "{line}");
        }
    }
    let dst = format!("{}/shim.rs", std::env::var("OUT_DIR").expect("OUT_DIR"));
    std::fs::write(dst, out).expect("write shim.rs");
}
