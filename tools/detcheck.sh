#!/bin/bash
# detcheck.sh PROP SCENARIO [TIER]: runs every execution twice and reports
# differences between the two (the harness must be deterministic).
set -u
cd "$(dirname "$0")/.."
VERIF_BUILD_ONLY=1 VERIF_KEEP=1 ./run.sh "$1" || exit 3
D=$(ls -td /tmp/verif.?????? | head -1)
for i in 0 1 2 3; do
  (VERIF_DIR=$PWD GOMAXPROCS=1 GOGC=400 TMPDIR=$D VERIF_TIER=${3:-quick} VERIF_DETCHECK=1 VERIF_SCENARIO=$2 VERIF_SHARD=$i/4 VERIF_SHARD_OUT=$D/o$i.json \
    VERIF_DEADLINE=$(($(date +%s)+${T:-200})) "$D/bin" "$1" >"$D/o$i.txt" 2>&1) &
done
wait
grep -a -c "^DETCHECK" "$D"/o?.txt
grep -a -h -A${N:-33} "^DETCHECK" "$D"/o?.txt | head -${M:-70}
rm -rf "$D"
