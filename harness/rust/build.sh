# sourced by run.sh: compiles the generator of /repo's working tree against the stand-ins of stubs/ and the file shim
RS=$WORK/rs
mkdir -p "$RS"
cp -r "$VERIF_REPO/rust-create-cascade/src" "$VERIF_REPO/rust-create-cascade/Cargo.toml" "$RS/" || return 3
rs_build() { # with the given crates replaced
  cp "$VERIF_REPO/rust-create-cascade/Cargo.toml" "$RS/Cargo.toml"
  { echo; echo '[patch.crates-io]'; for c in "$@"; do echo "$c = { path = \"$HERE/harness/rust/stubs/$c\" }"; done; echo '[workspace]'; } >> "$RS/Cargo.toml"
  (cd "$RS" && CARGO_NET_OFFLINE=true cargo build --offline --quiet --target-dir "$WORK/rstarget" > "$WORK/rs.log" 2>&1)
}
STUBS="base64 rand statsd stderrlog rust_cascade clubcard clubcard-crlite clap"
# the tasks of the parallel loops run in a chosen order; a tree that uses more of rayon than the stand-in has gets the real one
rs_build $STUBS rayon || rs_build $STUBS || { cat "$WORK/rs.log"; return 3; }
gcc -shared -fPIC -O1 -w -o "$WORK/shim.so" "$HERE/harness/rust/shim.c" -ldl || return 3
export VERIF_BIN=$WORK/rstarget/debug/rust-create-cascade VERIF_SHIM=$WORK/shim.so PYTHONHASHSEED=0
RUN=(/usr/bin/python3 "$HERE/harness/py/check.py" "$PROP")
