// Generates the module tree that includes /repo/expander_compiler/src in place. Everything is
// included except the proving systems that need Expander's prover and MPI.
use std::fmt::Write;
use std::path::Path;
fn main() {
    let root = std::env::var("VP_REPO").unwrap_or("/repo".into()) + "/expander_compiler/src";
    println!("cargo:rerun-if-env-changed=VP_REPO");
    println!("cargo:rerun-if-changed={root}/lib.rs");
    println!("cargo:rerun-if-changed={root}/zkcuda/mod.rs");
    println!("cargo:rerun-if-changed={root}/zkcuda/proving_system.rs");
    let find = |dir: &str, name: &str| -> String {
        let a = format!("{dir}/{name}.rs");
        if Path::new(&a).exists() {
            a
        } else {
            format!("{dir}/{name}/mod.rs")
        }
    };
    // rewrite every `mod x;` of a module file so that it points to the real file
    let rewrite = |text: &str, dir: &str, sub: &dyn Fn(&str) -> Option<String>| -> String {
        let mut out = String::new();
        for line in text.lines() {
            let l = line.trim();
            if l.starts_with("#![") {
                continue;
            }
            let body = l.trim_start_matches("pub(crate) ").trim_start_matches("pub ");
            if let Some(n) = body.strip_prefix("mod ").and_then(|x| x.strip_suffix(';')) {
                if let Some(s) = sub(n) {
                    out.push_str(&s);
                } else {
                    let _ = writeln!(out, "#[path = \"{}\"]\n{l}", find(dir, n));
                }
            } else if l.starts_with("pub use expander") {
                continue;
            } else {
                out.push_str(line);
                out.push('\n');
            }
        }
        out
    };
    let ps = std::fs::read_to_string(format!("{root}/zkcuda/proving_system.rs")).unwrap();
    let ps = rewrite(&ps, &format!("{root}/zkcuda/proving_system"), &|n| {
        n.starts_with("expander").then(String::new)
    });
    let zk = std::fs::read_to_string(format!("{root}/zkcuda/mod.rs")).unwrap();
    let zk = rewrite(&zk, &format!("{root}/zkcuda"), &|n| match n {
        "proving_system" => Some(format!("pub mod proving_system {{\n{ps}\n}}\n")),
        "tests" => Some(String::new()),
        _ => None,
    });
    let lib = std::fs::read_to_string(format!("{root}/lib.rs")).unwrap();
    let lib = rewrite(&lib, &root, &|n| match n {
        "zkcuda" => Some(format!("pub mod zkcuda {{\n{zk}\n}}\n")),
        _ => None,
    });
    // the attribute line that `#[cfg(test)] mod tests;` leaves behind
    let lib = lib.replace("#[cfg(test)]\n\n}", "}").replace("#[cfg(test)]\n}", "}");
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(format!("{out}/tree.rs"), lib).unwrap();
}
