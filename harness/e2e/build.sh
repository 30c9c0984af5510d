# sourced by run.sh: the Go programs under the simulator, the generator and the query tool against stand-ins of their libraries
maps=("@ctfetch=cmd/ct-fetch" "@aggcrls=cmd/aggregate-crls" "@aggknown=cmd/aggregate-known" "@commit=cmd/commit" "$VERIF_REPO/go/verif_e2e/main.go=$HERE/harness/e2e/main.go")
for f in env logs merkle tiled; do maps+=("$VERIF_REPO/go/verif_e2e/$f.go=$HERE/harness/fetch/$f.go"); done
go_build ./verif_e2e "${maps[@]}"
mv "$WORK/bin" "$WORK/pipeline"
( . "$HERE/harness/rust/build.sh" && cp "$VERIF_BIN" "$WORK/rust-create-cascade" ) || return 3
rm -rf "$WORK/rs" "$WORK/rstarget"
. "$HERE/harness/query/build.sh" || return 3
export VERIF_PIPELINE=$WORK/pipeline VERIF_CASCADE=$WORK/rust-create-cascade
RUN=(/usr/bin/python3 "$HERE/harness/py/check.py" "$PROP")
