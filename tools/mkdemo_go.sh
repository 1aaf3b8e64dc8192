#!/bin/bash
# mkdemo_go.sh ID: support files of a demonstration on the Go packages, next to its main.go
set -e
D=/verif/seeded/$1
mkdir -p $D/gosrc
cp -r /verif/shims/gosrc/. $D/gosrc/
mv $D/main.rs $D/main.go
sed -e 's#^V=.*#V="$4"#' -e 's#/harness/gofront/\*.go#/main.go#' -e 's#\$V"/main.go#$V/main.go"#' -e 's#/shims/gosrc#/gosrc#g' /verif/tools/gobuild.sh > $D/gobuild.sh
cat > $D/demo.sh <<'S'
#!/bin/bash
# exit 0: the property holds in this scenario; 1: it is broken
R="$(pwd)"
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'chmod -R u+w "$T"; rm -rf "$T"' EXIT
cp -r "$D/gosrc" "$D/main.go" "$T/"
bash "$D/gobuild.sh" "$R" "$T/tree" "$T/demo" "$T" >"$T/log" 2>&1 || { tail -20 "$T/log"; exit 3; }
timeout 100 "$T/demo" >/dev/null 2>&1
r=$?
[ $r -eq 3 ] && exit 3
[ $r -eq 0 ] || exit 1
S
chmod +x $D/demo.sh
