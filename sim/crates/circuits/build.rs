//! Writes the crate root: every module of /repo's crate but the prover and verifier of the proof system.
use std::fmt::Write;
use std::path::Path;

const SRC: &str = "/repo/circuits/src";
const LEFT_OUT: &[&str] = &["prover", "verifier", "batch_prover", "batch_verifier", "recursive_verifier", "poly", "proof", "test_utils"];

fn mods(file: &str) -> Vec<String> {
    let text = std::fs::read_to_string(format!("{SRC}/{file}")).unwrap();
    text.lines().filter_map(|l| {
        let l = l.trim();
        let l = l.strip_prefix("pub(crate) ").or(l.strip_prefix("pub ")).unwrap_or(l);
        l.strip_prefix("mod ")?.strip_suffix(';').map(str::to_string)
    }).filter(|m| !LEFT_OUT.contains(&m.as_str())).collect()
}
fn path(dir: &str, m: &str) -> String {
    let f = format!("{SRC}/{dir}{m}.rs");
    if Path::new(&f).exists() { f } else { format!("{SRC}/{dir}{m}/mod.rs") }
}

fn main() {
    println!("cargo:rerun-if-changed={SRC}/lib.rs");
    println!("cargo:rerun-if-changed={SRC}/stark/mod.rs");
    let mut out = String::new();
    for m in mods("lib.rs") {
        if m == "stark" {
            writeln!(out, "pub mod stark {{").unwrap();
            for s in mods("stark/mod.rs") { writeln!(out, "    #[path = \"{}\"] pub mod {s};", path("stark/", &s)).unwrap(); }
            writeln!(out, "    #[path = \"{}/src/proof.rs\"] pub mod proof;\n}}", env!("CARGO_MANIFEST_DIR")).unwrap();
        } else {
            writeln!(out, "#[path = \"{}\"] pub mod {m};", path("", &m)).unwrap();
        }
    }
    std::fs::write(format!("{}/root.rs", std::env::var("OUT_DIR").unwrap()), out).unwrap();
}
