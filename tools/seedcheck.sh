#!/bin/bash
# seedcheck.sh ID [nochecks]: confirms a planted bug in a scratch copy of /repo (builds, passes the stable tests, demo
# passes without and fails with it), then runs this property's quick check against it.
ID=$1; S=/verif/seeded/$ID
W=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cp -a "$S" "$W/demo"; rm -f "$W/demo"/*.diff "$W/demo"/meta.json
cd "$W/repo" && git checkout -q -- . && git clean -fdq
bash "$W/demo/demo.sh" > "$W/d0" 2>&1; d0=$?
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
bash "$W/demo/demo.sh" > "$W/d1" 2>&1; d1=$?
[ $d0 = 0 ] && [ $d1 != 0 ] || { echo "$ID: demo without=$d0 with=$d1"; tail -15 "$W/d0"; echo ---; tail -15 "$W/d1"; }
if [ -z "$2" ]; then
 sed "s#/repo/go#$W/repo/go#" /opt/vp/test.sh > "$W/test.sh"; sed -i 's#\. /opt/vp/env.sh#. /opt/vp/env.sh#' "$W/test.sh"
 bash "$W/test.sh" "$W/out.json" > "$W/t" 2>&1
 python3 - "$W/out.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
s=set(b.get('stable',b.get('passed',[]))); p=set(o['passed'])
print('  tests:', 'ok' if s<=p else 'FAIL %s'%sorted(s-p)[:5])
P
fi
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
out=$(cd /verif && VERIF_REPO=$W/repo timeout 900 ./run.sh "$P" 2>&1); rc=$?
echo "$ID $P: demo without=$d0 with=$d1 check=$rc $(echo "$out" | grep -m1 '^VIOLATION')"
[ $rc = 1 ] && echo "$out" | grep -m2 -B0 'VIOLATION ' | head -3 | cut -c1-300
