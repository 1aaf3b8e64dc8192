#!/bin/bash
# mkdemo_lib.sh ID: support files of a demonstration on the C interface, next to its main.rs
set -e
D=/verif/seeded/$1
bash /verif/tools/mkdemo.sh $1
rm -f $D/crate/src/main.rs
sed -i '/^\[\[bin\]\]/,/^$/d' $D/crate/Cargo.toml
cat > $D/stdbuild.rs < /verif/harness/go/build.rs
mkdir -p $D/std/src
mv $D/stdbuild.rs $D/std/build.rs
cp /verif/harness/go/Cargo.lock $D/std/
sed -e 's#../../shims#../shims#' -e 's#path = "../core"#path = "../crate"#' -e 's#^name = "vpgo"#name = "demo"#' -e 's#src/bin/vpgo.rs#src/main.rs#' /verif/harness/go/Cargo.toml > $D/std/Cargo.toml
grep -v "pub mod \(vp\|cross\|built\)" /verif/harness/go/src/lib.rs > $D/std/src/lib.rs
cp $D/main.rs $D/std/src/main.rs
cat > $D/demo.sh <<'S'
#!/bin/bash
# exit 0: the property holds in this scenario; 1: it is broken
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
cp -r "$D/crate" "$D/std" "$D/shims" "$T/"
cd "$T/std" || exit 3
export RUSTUP_TOOLCHAIN=nightly-2025-05-17 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target"
cargo build --offline --bin demo >"$T/log" 2>&1 || { tail -20 "$T/log"; exit 3; }
timeout 100 "$T/target/debug/demo"
r=$?
[ $r -eq 0 ] || exit 1
S
chmod +x $D/demo.sh
