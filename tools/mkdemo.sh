#!/bin/bash
# mkdemo.sh ID: (re)creates the support files of seeded/ID next to its main.rs
set -e
D=/verif/seeded/$1
mkdir -p $D/crate/src
cp -r /verif/shims $D/; rm -rf $D/shims/gosrc
cp /verif/harness/core/build.rs /verif/harness/core/Cargo.lock $D/crate/
sed -e 's#../../shims#../shims#' -e '/\[\[bin\]\]/,/^$/d' -e '/^full = /d' /verif/harness/core/Cargo.toml > $D/crate/Cargo.toml
sed -i 's#^\[lib\]#[[bin]]\nname = "demo"\npath = "src/main.rs"\n\n[lib]#' $D/crate/Cargo.toml
grep -v "pub mod vp" /verif/harness/core/src/lib.rs > $D/crate/src/lib.rs
cp $D/main.rs $D/crate/src/main.rs
cat > $D/demo.sh <<'S'
#!/bin/bash
# exit 0: the property holds in this scenario; 1: it is broken
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
cp -r "$D/crate" "$D/shims" "$T/"
cd "$T/crate" || exit 3
export RUSTUP_TOOLCHAIN=nightly-2025-05-17 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target"
cargo build --offline --bin demo >"$T/log" 2>&1 || { tail -20 "$T/log"; exit 3; }
timeout 100 "$T/target/debug/demo"
r=$?
[ $r -eq 0 ] || exit 1
S
chmod +x $D/demo.sh
