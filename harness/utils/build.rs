use std::fmt::Write;
fn main() {
    println!("cargo:rerun-if-env-changed=VP_REPO");
    let root = std::env::var("VP_REPO").unwrap_or("/repo".into()) + "/expander_compiler/src";
    let mut s = String::new();
    for (m, f) in [
        ("heap", "utils/heap.rs"),
        ("static_hash_map", "utils/static_hash_map.rs"),
        ("pool", "utils/pool.rs"),
        ("union_find", "utils/union_find.rs"),
        ("misc", "utils/misc.rs"),
        ("bucket_sort", "utils/bucket_sort.rs"),
        ("input_mapping", "circuit/input_mapping.rs"),
    ] {
        let _ = writeln!(s, "#[path = \"{root}/{f}\"]\npub mod {m};");
    }
    std::fs::write(std::env::var("OUT_DIR").unwrap() + "/tree.rs", s).unwrap();
}
