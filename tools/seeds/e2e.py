GS = "containers/scripts/crlite-generate.sh"; MLBF = "workflow/2-generate_mlbf"; IS = "go/rootprogram/issuers.go"
SEEDS = [
dict(id="c26-delta-reasons", property="C26",
 needs="a certificate is revoked, for a reason that is no priority, after the first run; a client that uses the priority filters",
 breaks="deltas are computed for all reasons unless said otherwise, so the priority channel's delta lists revocations for every reason",
 edits=[(MLBF, '''    delta_reason_set = args.delta_reason_set if args.delta_reason_set else reason_set
''', '''    delta_reason_set = args.delta_reason_set if args.delta_reason_set else "all"
''')], script='''#!/bin/bash
# what the workflow script asks rust-create-cascade for
set -e
R=$(pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
mkdir -p "$W/lib/google/cloud" "$W/lib/google/api_core" "$W/home" "$W/run"
cat > "$W/home/rust-create-cascade" <<EOF
#!/bin/bash
printf '%s\\\\n' "\\$@" > $W/args
EOF
chmod +x "$W/home/rust-create-cascade"
touch "$W/lib/google/api_core/page_iterator.py"
touch "$W/lib/google/__init__.py" "$W/lib/google/cloud/__init__.py" "$W/lib/google/api_core/__init__.py"
echo 'class NotFound(Exception): pass' > "$W/lib/google/api_core/exceptions.py"
echo 'Client = None' > "$W/lib/google/cloud/storage.py"
for m in info warning error debug fatal; do echo "def $m(*a): pass"; done > "$W/lib/glog.py"
cp -r "$R/workflow" "$W/wf"
cd "$W/wf"
unset GOOGLE_APPLICATION_CREDENTIALS
for s in all specified priority; do
  HOME=$W/home PYTHONPATH=$W/lib PYTHONDONTWRITEBYTECODE=1 /usr/bin/python3 2-generate_mlbf "$W/run" --filter-bucket b --reason-set $s --filter-type clubcard > "$W/log" 2>&1 || { tail -3 "$W/log"; exit 1; }
  for o in --reason-set --delta-reason-set; do
    got=$(grep -x -A1 -e "$o" "$W/args" | tail -1)
    [ "$got" = $s ] || { echo "$o is $got for the filter of reasons $s"; exit 1; }
  done
done
exit 0
'''),
dict(id="c26-enrolment-kept", property="C26",
 needs="a second run, with an issuer enrolled or revoked since the first",
 breaks="the known certificates are aggregated for the issuers that were enrolled when the first run was made",
 edits=[(GS, '''${crlite_bin:-~/go/bin}/aggregate-known -knownpath ${ID}/known \\
              -enrolledpath ${ID}/enrolled.json \\
''', '''# Keep the list of enrolled issuers, for commit jobs between two runs
ENROLLED=${crlite_persistent:-/ct}/enrolled.json
if [ ! -s ${ENROLLED} ] ; then
  cp ${ID}/enrolled.json ${ENROLLED}
fi

${crlite_bin:-~/go/bin}/aggregate-known -knownpath ${ID}/known \\
              -enrolledpath ${ENROLLED} \\
''')], script='''#!/bin/bash
R=$(pwd); W=$(mktemp -d) || exit 1
trap 'chmod -R u+w "$W"; rm -rf "$W"' EXIT
mkdir -p "$W/wf" "$W/bin" "$W/p" "$W/ct/crls"
touch "$W/wf/0-set_credentials.inc"
cat > "$W/wf/0-allocate_identifier" <<EOF
#!/bin/bash
mkdir -p $W/p/20240101-\\$N; echo $W/p/20240101-\\$N
EOF
for s in 1-upload_data_to_storage 2-generate_mlbf 3-upload_mlbf_to_storage; do printf '#!/bin/bash\\n' > "$W/wf/$s"; done
cat > "$W/bin/aggregate-crls" <<'EOF'
#!/bin/bash
while [ $# -gt 0 ]; do case $1 in -revokedpath) mkdir -p $2;; -enrolledpath) echo "issuers of run $N" > $2;; esac; shift; done
EOF
cat > "$W/bin/aggregate-known" <<EOF
#!/bin/bash
while [ \\$# -gt 0 ]; do case \\$1 in -knownpath) mkdir -p \\$2;; -enrolledpath) cat \\$2 > $W/used;; esac; shift; done
EOF
chmod +x "$W"/wf/* "$W"/bin/*
export crlite_workflow=$W/wf crlite_bin=$W/bin crlite_processing=$W/p/ crlite_persistent=$W/ct statsdHost=x WORKDIR=$W
for N in 0 1; do
  export N
  bash -e "$R/containers/scripts/crlite-generate.sh" > "$W/log" 2>&1 || { tail -3 "$W/log"; exit 1; }
  [ "$(cat "$W/used")" = "issuers of run $N" ] || { echo "run $N: known certificates of the $(cat "$W/used")"; exit 1; }
done
exit 0
'''),
dict(id="c26-namesake-lost", property="C26",
 needs="two enrolled issuers with the same name and different keys",
 breaks="aggregate-known keeps one issuer per name, so the certificates of a namesake are in no filter",
 edits=[(IS, '''	for _, ei := range list {
		cert, err := PEMToCertificate(ei.Pem)
''', '''	seen := make(map[string]bool)
	for _, ei := range list {
		// An issuer is listed once for each of its certificates
		if seen[ei.Subject] && !ei.UsesPartitionedCrls {
			continue
		}
		seen[ei.Subject] = true

		cert, err := PEMToCertificate(ei.Pem)
''')], pkg="rootprogram", helpers=[], demo='''package rootprogram

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	sx509 "crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"math/big"
	"path/filepath"
	"testing"
	"time"

	"github.com/mozilla/crlite/go"
)

func TestSeedDemo(t *testing.T) {
	saved := NewMozillaIssuers()
	var issuers []types.Issuer
	for i := 0; i < 3; i++ {
		k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			t.Fatal(err)
		}
		tmpl := &sx509.Certificate{SerialNumber: big.NewInt(int64(i + 1)), Subject: pkix.Name{CommonName: []string{"One", "One", "Two"}[i]}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), IsCA: true, BasicConstraintsValid: true}
		der, err := sx509.CreateCertificate(rand.Reader, tmpl, tmpl, k.Public(), k)
		if err != nil {
			t.Fatal(err)
		}
		c, err := PEMToCertificate(string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})))
		if err != nil {
			t.Fatal(err)
		}
		issuers = append(issuers, saved.InsertIssuer(c, nil, false))
	}
	p := filepath.Join(t.TempDir(), "enrolled.json")
	if err := saved.SaveIssuersList(p); err != nil {
		t.Fatal(err)
	}
	loaded := NewMozillaIssuers()
	if err := loaded.LoadEnrolledIssuers(p); err != nil {
		t.Fatal(err)
	}
	for i, iss := range issuers {
		if !loaded.IsIssuerInProgram(iss) {
			t.Errorf("issuer %d is lost", i)
		}
	}
}
'''),
dict(id="c26-publish-piped", property="C26",
 needs="a publisher that fails",
 breaks="the job that runs the publisher ends well whatever the publisher does, so failures go unnoticed",
 edits=[("containers/scripts/crlite-publish.sh", '''  --download-path /tmp/crlite ${ARGS}
''', '''  --download-path /tmp/crlite ${ARGS} 2>&1 | sed -u 's/^/[publisher] /'
''')], script="""#!/bin/bash
# what the publishing job does, with a stand-in for the publisher
R=$(pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
mkdir -p "$W/wf" "$W/bin" "$W/moz_kinto_publisher"
touch "$W/wf/0-set_credentials.inc"
printf '#!/bin/bash\\ntrue\\n' > "$W/bin/mkdir"
cat > "$W/moz_kinto_publisher/main.py" <<EOF
#!/bin/bash
echo "args: \$*"
exit \${FAIL:-0}
EOF
chmod +x "$W/bin/mkdir" "$W/moz_kinto_publisher/main.py"
unset DoNotUpload KINTO_NOOP FAIL
export crlite_workflow=$W/wf PATH=$W/bin:$PATH
cd "$W"
job() { env "$@" bash -e "$R/containers/scripts/crlite-publish.sh" > "$W/log" 2>&1; }
job A=1 || { echo "fails although the publisher does not"; exit 1; }
! job FAIL=1 || { echo "the publisher failed, the job did not"; exit 1; }
exit 0
"""),
dict(id="c26-noop-default", property="C26",
 needs="a deployment with KINTO_NOOP set but not DoNotUpload",
 breaks="KINTO_NOOP is ignored by the publishing job unless DoNotUpload is set, too: filters of a trial deployment are published",
 edits=[("containers/scripts/crlite-publish.sh", '''if [ "x${DoNotUpload}x" != "xx" ] || [ "x${KINTO_NOOP}x" != "xx" ] ; then
''', '''if [ "x${DoNotUpload}x" != "xx" -a "x${KINTO_NOOP}x" != "xx" ] ; then
''')], script="""#!/bin/bash
# what the publishing job does, with a stand-in for the publisher
R=$(pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
mkdir -p "$W/wf" "$W/bin" "$W/moz_kinto_publisher"
touch "$W/wf/0-set_credentials.inc"
printf '#!/bin/bash\\ntrue\\n' > "$W/bin/mkdir"
cat > "$W/moz_kinto_publisher/main.py" <<EOF
#!/bin/bash
echo "args: \$*"
exit \${FAIL:-0}
EOF
chmod +x "$W/bin/mkdir" "$W/moz_kinto_publisher/main.py"
unset DoNotUpload KINTO_NOOP FAIL
export crlite_workflow=$W/wf PATH=$W/bin:$PATH
cd "$W"
job() { env "$@" bash -e "$R/containers/scripts/crlite-publish.sh" > "$W/log" 2>&1; }
for v in DoNotUpload=1 KINTO_NOOP=1; do
  job $v || { echo "$v: fails"; exit 1; }
  grep -q '^args: .*--noop' "$W/log" || { echo "$v: publishes"; exit 1; }
done
job A=1 && ! grep -q -e --noop "$W/log" || { echo "does not publish"; exit 1; }
exit 0
"""),
]
