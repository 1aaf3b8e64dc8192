// Generates the root of the library: the real one without the half that needs Expander.
fn main() {
    println!("cargo:rerun-if-env-changed=VP_REPO");
    let root = std::env::var("VP_REPO").unwrap_or("/repo".into()) + "/expander_compiler/ec_go_lib/src";
    println!("cargo:rerun-if-changed={root}");
    let mut out = String::new();
    for line in std::fs::read_to_string(format!("{root}/lib.rs")).unwrap().lines() {
        let l = line.trim();
        let m = l.trim_start_matches("pub(crate) ").trim_start_matches("pub ");
        if l.starts_with("#![") || m.starts_with("mod proving") {
            continue;
        }
        if let Some(n) = m.strip_prefix("mod ").and_then(|x| x.strip_suffix(';')) {
            out += &format!("#[path = \"{root}/{n}.rs\"]\n");
        }
        out += line;
        out += "\n";
    }
    std::fs::write(std::env::var("OUT_DIR").unwrap() + "/tree.rs", out).unwrap();
}
