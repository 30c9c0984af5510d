# sourced by run.sh: compiles the query tool of /repo's working tree against the stand-ins of stubs/ and the file shim
RS=$WORK/rs
mkdir -p "$RS"
cp -r "$VERIF_REPO/rust-query-crlite/src" "$VERIF_REPO/rust-query-crlite/Cargo.toml" "$RS/" || return 3
{ echo; echo '[patch.crates-io]'
  for c in base64 clubcard clubcard-crlite der-parser num-bigint pem reqwest rust_cascade rustls stderrlog x509-parser; do echo "$c = { path = \"$HERE/harness/query/stubs/$c\" }"; done
  echo '[workspace]'; } >> "$RS/Cargo.toml"
(cd "$RS" && CARGO_NET_OFFLINE=true cargo build --offline --quiet --target-dir "$WORK/rstarget" > "$WORK/rs.log" 2>&1) || { cat "$WORK/rs.log"; return 3; }
gcc -shared -fPIC -O1 -w -o "$WORK/shim.so" "$HERE/harness/rust/shim.c" -ldl || return 3
export VERIF_BIN=$WORK/rstarget/debug/rust-query-crlite VERIF_SHIM=$WORK/shim.so PYTHONHASHSEED=0
RUN=(/usr/bin/python3 "$HERE/harness/py/check.py" "$PROP")
