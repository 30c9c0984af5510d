#!/bin/bash
# compiles the tool of this tree against stand-ins for its libraries, and runs demo.py with it
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
mkdir "$W/rs"; cp -r @CRATE@/src @CRATE@/Cargo.toml "$W/rs/" || exit 2
cp "$W/rs/Cargo.toml" "$W/Cargo.orig"
build() {
  { cat "$W/Cargo.orig"; echo; echo '[patch.crates-io]'; for c in "$@"; do echo "$c = { path = \"$D/stubs/$c\" }"; done; echo '[workspace]'; } > "$W/rs/Cargo.toml"
  (cd "$W/rs" && CARGO_NET_OFFLINE=true timeout 200 cargo build --offline --quiet --target-dir "$W/target" > "$W/log" 2>&1)
}
S=$(ls "$D/stubs" | grep -v -e derive -e rayon)
build $S $(ls "$D/stubs" | grep rayon) || build $S || { tail -5 "$W/log"; exit 2; }
gcc -shared -fPIC -O1 -w -o "$W/shim.so" "$D/shim.c" -ldl || exit 2
export VERIF_BIN=$W/target/debug/@CRATE@ VERIF_SHIM=$W/shim.so VERIF_WORK=$W PYTHONHASHSEED=0
timeout 60 /usr/bin/python3 "$D/demo.py" > "$W/out" 2>&1; rc=$?
tail -3 "$W/out" | cut -c1-400; exit $rc
