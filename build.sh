# sourced by check.sh: defines build_harness, sets WORK
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
WORK="$(mktemp -d /tmp/verif.XXXXXX)"
trap 'rm -rf "$WORK"' EXIT

# overlay DIR-IN-REPO SOURCE-DIR: prints overlay JSON entries
overlay_json() {
  local first=1
  echo '{"Replace":{'
  while [ $# -gt 0 ]; do
    for f in "$2"/*.go; do
      [ -e "$f" ] || continue
      [ $first = 1 ] || echo ','
      first=0
      printf '"%s/%s/%s":"%s"' "$REPO" "$1" "$(basename "$f")" "$f"
    done
    shift 2
  done
  echo '}}'
}

gobuild() { # extra go build flags..., last arg package
  cp "$REPO/go.mod" "$WORK/go.mod" && cp "$REPO/go.sum" "$WORK/go.sum" || return 1
  (cd "$REPO" && go build -overlay "$WORK/overlay.json" -modfile "$WORK/go.mod" "$@")
}

build_harness() {
  overlay_json zz_verif "$VERIF/harness" x/authn/crypto/zzbridge "$VERIF/bridge" > "$WORK/overlay.json"
  gobuild -tags verif -o "$WORK/zz_verif" ./zz_verif
}

# build_race: the harness with the race detector.
build_race() {
  gobuild -race -tags verif -o "$WORK/zz_race" ./zz_verif
}

# build_native: the operation runner with the native secp256k1 backend under
# several sanitizers, and with the Go backend, into $WORK/native.
build_native() {
  local p=./x/authn/crypto/secp256k1/zznative w="$WORK/native"
  mkdir -p "$w"
  overlay_json x/authn/crypto/secp256k1/zznative "$VERIF/native" > "$WORK/overlay.json"
  gobuild -o "$w/go" $p || return 1
  if ! gobuild -tags libsecp256k1 -o "$w/plain" $p 2> "$w/log"; then
    mv "$w/log" "$w/native-build-failed"
    return 0
  fi
  local san="-fsanitize=undefined -fno-sanitize-recover=undefined"
  ( export CGO_CFLAGS="-g -O1 $san" CGO_LDFLAGS="-fsanitize=undefined"; gobuild -tags libsecp256k1 -asan -o "$w/asan" $p ) & local a=$!
  ( export CGO_CFLAGS="-g -O1 -DVERIFY"; gobuild -tags libsecp256k1 -o "$w/verify" $p ) & local b=$!
  ( export CGO_CFLAGS="-g -O1" CC=clang; gobuild -tags libsecp256k1 -msan -o "$w/msan" $p ) & local c=$!
  wait $a && wait $b && wait $c
}
