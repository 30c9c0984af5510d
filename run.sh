#!/bin/bash
# run.sh PROPERTY : builds the harness for PROPERTY from /repo's working tree
# and runs it. VERIF_TIER=quick|thorough. VERIF_REPLAY=file replays a violation.
set -u
PROP=${1:?usage: run.sh PROPERTY}
HERE=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR=${VERIF_DIR:-$HERE}
export VERIF_TIER=${VERIF_TIER:-quick} VERIF_SEED=${VERIF_SEED:-1}
export VERIF_REPO=${VERIF_REPO:-/repo}
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOMODCACHE=/root/go/pkg/mod \
  GOCACHE=${GOCACHE:-/root/.cache/go-build} GOEXPERIMENT=synctest GOWORK=off
export PATH=/opt/veriftools/go1.25.14/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1
WORK=$(mktemp -d /tmp/verif.XXXXXX)
cleanup() { rm -rf "$WORK"; }
[ -n "${VERIF_KEEP:-}" ] || trap cleanup EXIT
trap 'exit 3' INT TERM
case $PROP in
  C01|C02|C03|C04|C05|C06|C07) H=store ;;
  C08|C09|C10|C11|C12|C28|C29) H=fetch ;;
  C13|C14|C15|C16|C17|C18|C27) H=agg ;;
  C19|C20|C21|C22|C24) H=py ;;
  C23) H=rust ;;
  C25) H=query ;;
  C26) H=e2e ;;
  *) echo "no harness for $PROP"; exit 3 ;;
esac
export VERIF_WORK=$WORK TMPDIR=$WORK
# go_build PACKAGE [virtual=/real ...]: compiles PACKAGE of /repo/go with the overlay into $WORK/bin
go_build() {
  local pkg=$1; shift
  python3 "$HERE/sim/gen_overlay.py" "$WORK/ov" "$@" || return 3
  cp "$VERIF_REPO/go/go.mod" "$WORK/go.mod"; cp "$VERIF_REPO/go/go.sum" "$WORK/go.sum"
  (cd "$VERIF_REPO/go" && go build -modfile="$WORK/go.mod" -overlay "$WORK/ov/overlay.json" -ldflags=-checklinkname=0 -o "$WORK/bin" "$pkg") || return 3
}
RUN=("$WORK/bin" "$PROP")
. "$HERE/harness/$H/build.sh" || exit 3
[ -n "${VERIF_BUILD_ONLY:-}" ] && exit 0
"${RUN[@]}"
exit $?
