#!/bin/bash
# exit 0 if the demonstrated behaviour is right, non-zero otherwise
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$R" || exit 9
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
{ echo '{"Replace":{'; s=""; for f in "$D"/*_test.go; do echo "$s\"$R/zz_demo/$(basename "$f")\":\"$f\""; s=","; done; echo '}}'; } > "$T/overlay.json"
cp go.mod "$T/go.mod"; cp go.sum "$T/go.sum"
go test -c -o "$T/demo.test" -overlay "$T/overlay.json" -modfile "$T/go.mod" -vet=off ./zz_demo || exit 8
cd "$T" && timeout 240 ./demo.test -test.count=1
