// Generates the module tree that includes /repo/circuit-std-rs/src in place.
use std::fmt::Write;
use std::path::Path;

// `file` with every `mod x;` pointing to its real file; files that have sub-modules in a folder of
// their own name are put in line, because `#[path]` would look for those beside the file
fn tree(file: &str, dir: &str) -> String {
    println!("cargo:rerun-if-changed={file}");
    let mut out = String::new();
    for line in std::fs::read_to_string(file).unwrap().lines() {
        let l = line.trim();
        if l.starts_with("#![") {
            continue;
        }
        let body = l.trim_start_matches("pub(crate) ").trim_start_matches("pub ");
        if let Some(n) = body.strip_prefix("mod ").and_then(|x| x.strip_suffix(';')) {
            let (a, d) = (format!("{dir}/{n}.rs"), format!("{dir}/{n}"));
            let head = l.trim_end_matches(';');
            if !Path::new(&a).exists() {
                let _ = writeln!(out, "#[path = \"{d}/mod.rs\"]\n{l}");
            } else if Path::new(&d).is_dir() {
                let _ = writeln!(out, "{head} {{\n{}}}", tree(&a, &d));
            } else {
                let _ = writeln!(out, "#[path = \"{a}\"]\n{l}");
            }
        } else {
            out.push_str(line);
            out.push('\n');
        }
    }
    out
}
fn main() {
    println!("cargo:rerun-if-env-changed=VP_REPO");
    let root = std::env::var("VP_REPO").unwrap_or("/repo".into()) + "/circuit-std-rs/src";
    let dir = std::env::var("OUT_DIR").unwrap();
    let mut out = tree(&format!("{root}/lib.rs"), &root);
    // the RSA circuit: its library and its program
    let rsa = std::env::var("VP_REPO").unwrap_or("/repo".into()) + "/rsa_circuit/src";
    for (name, file) in [("rsa_lib", "lib.rs"), ("rsa_main", "main.rs")] {
        let _ = writeln!(out, "pub mod {name} {{\n{}}}", tree(&format!("{rsa}/{file}"), &rsa));
    }
    std::fs::write(format!("{dir}/tree.rs"), out).unwrap();
}
