#!/bin/bash
# mkdemo_utils.sh ID: a demo that compiles single utility files of the repository
D=/verif/seeded/$1
cat > $D/demo.sh <<'S'
#!/bin/bash
# exit 0: the property holds in this scenario; 1: it is broken
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 3
export RUSTUP_TOOLCHAIN=nightly-2025-05-17
if [ -f "$D/serdes.rs" ]; then
  rustc --edition 2021 --crate-type proc-macro --crate-name serdes "$D/serdes.rs" -o libserdes.so || exit 3
  X="--extern serdes=libserdes.so"
fi
rustc --edition 2021 -A warnings $X "$D/main.rs" -o demo >log 2>&1 || { tail -20 log; exit 3; }
timeout 100 ./demo
r=$?
[ $r -eq 0 ] || exit 1
S
chmod +x $D/demo.sh
