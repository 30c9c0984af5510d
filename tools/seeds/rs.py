# seeds against the Rust tools (C23: rust-create-cascade, C25: rust-query-crlite) and the sign-off (C24)
MR = "rust-create-cascade/src/main.rs"; CH = "rust-create-cascade/src/clubcard_helper.rs"; QR = "rust-query-crlite/src/main.rs"
ST = "containers/scripts/crlite-signoff-tool.py"; SS = "containers/scripts/crlite-signoff.sh"
SEEDS = [
dict(id="c23-last-reason", property="C23", rust="rust",
 needs="a serial listed twice for one issuer, first with a reason the filter type includes and then with one it does not",
 breaks="the reasons are filtered after the list was reduced to one reason per serial: the certificate counts as not revoked",
 edits=[(MR, '''        while let Some(mut line) = self.lines.as_mut()?.next().transpose().expect("IO error") {
            let reason = decode_reason(&line[..2]);
            if self.skip_reason(&reason) {
                continue;
            }
            let serial = line.split_off(2);
            return Some((serial, reason));
        }
        None
''', '''        let mut line = self.lines.as_mut()?.next().transpose().expect("IO error")?;
        let reason = decode_reason(&line[..2]);
        let serial = line.split_off(2);
        Some((serial, reason))
'''), (MR, '''        iter.map(|(serial, _)| serial).collect()''', '''        HashMap::<Serial, Reason>::from(iter).into_keys().collect()'''),
 (MR, '''    fn from(iter: RevokedSerialAndReasonIterator) -> HashMap<Serial, Reason> {
        iter.collect()''', '''    fn from(mut iter: RevokedSerialAndReasonIterator) -> HashMap<Serial, Reason> {
        let mut reasons: HashMap<Serial, Reason> = iter.by_ref().collect();
        reasons.retain(|_, reason| !iter.skip_reason(reason));
        reasons''')],
 demo_rs='''
for rev in ([(1, S), (0, S)], [(0, S), (1, S)]):
    known, revoked = {A: [(DAY1, S), (DAY1, T)]}, {A: rev}
    e = Env(); e.inputs(known, revoked)
    finish(X(), e, "clubcard", "specified", "specified", known, revoked)
'''),
dict(id="c23-new-keys-only", property="C23", rust="rust",
 needs="three successive runs, a certificate revoked throughout",
 breaks="the saved set holds only what was newly revoked: the run after the next announces old revocations as new again",
 edits=[(MR, '''                    writeln!(per_issuer_delta_file, "{:02x}{}", (*reason) as u8, serial)
                        .expect("Could not write delta entry");
                }
                revset.insert(key);
''', '''                    writeln!(per_issuer_delta_file, "{:02x}{}", (*reason) as u8, serial)
                        .expect("Could not write delta entry");
                    revset.insert(key);
                }
''')],
 demo_rs='''
known, e, prev = {A: [(DAY1, S), (DAY1, T)]}, Env(), None
for revoked in ({A: [(1, S)]}, {A: [(1, S), (1, T)]}, {A: [(1, S), (1, T)]}):
    e.inputs(known, revoked)
    rc = e.run(X(), "clubcard", "all", "all")
    if rc: X().fail("failed", str(rc))
    judge(X(), e, "out", "clubcard", "all", "all", known, revoked, prev)
    prev = revset(known, revoked, "all")
    shutil.copyfile(e.path("out/revset.bin"), e.path("prev"))
'''),
dict(id="c23-exclude-remove", property="C23", rust="rust",
 needs="a revoked serial that is known under two expiry dates",
 breaks="the second mention of the serial goes into the exact part of the filter as not revoked",
 edits=[(CH, '''        let revoked_serial_set: HashSet<Serial> = revoked_serials_and_reasons
            .map(|iter| iter.into())
            .unwrap_or_default();

        for (_expiry, serial) in known_serials {
            let serial_bytes = decode_serial(&serial);
            let key = if revoked_serial_set.contains(&serial) {''', '''        let mut revoked_serial_set: HashSet<Serial> = revoked_serials_and_reasons
            .map(|iter| iter.into())
            .unwrap_or_default();

        for (_expiry, serial) in known_serials {
            let serial_bytes = decode_serial(&serial);
            let key = if revoked_serial_set.remove(&serial) {''')],
 demo_rs='''
known, revoked = {A: [(DAY1, S), (DAY1, T), (DAY2, S)]}, {A: [(1, S)]}
e = Env(); e.inputs(known, revoked)
finish(X(), e, "clubcard", "all", "all", known, revoked)
'''),
dict(id="c23-stash-reasons", property="C23", rust="rust",
 needs="filters for fewer reasons than the deltas, and a new revocation for a reason only the deltas include",
 breaks="the stash is cut down to the reasons of the filter while the delta filter is not",
 edits=[(MR, '''    write_stash(
        stash_file,
        delta_dir,
        delta_reason_set,''', '''    write_stash(
        stash_file,
        delta_dir,
        reason_set,''')],
 demo_rs='''
known, revoked = {A: [(DAY1, S), (DAY1, T), (DAY1, U)]}, {A: [(1, S), (4, T)]}
e = Env(); e.inputs(known, revoked)
finish(X(), e, "clubcard", "priority", "all", known, revoked)
'''),
dict(id="c23-no-revoked-file", property="C23", rust="rust",
 needs="an issuer with known certificates and no file in the revoked directory",
 breaks="issuers that revoked nothing are left out of the filter: their certificates get no answer",
 edits=[(MR, '''            pairs.push((issuer, None, k_file));''', '''            debug!("no revocations by {}", issuer.to_string_lossy());''')],
 demo_rs='''
known, revoked = {A: [(DAY1, S), (DAY1, T)], B: [(DAY1, S)]}, {A: [(1, S)]}
e = Env(); e.inputs(known, revoked)
finish(X(), e, "clubcard", "all", "all", known, revoked)
'''),
dict(id="c23-delta-dir-reused", property="C23", rust="rust",
 needs="an output directory whose only remains of an earlier run are its per-issuer delta files, and no --clobber",
 breaks="the delta files of another run are taken into the stash and the delta filter",
 edits=[(MR, '''            revset_file,
            delta_dir,
            delta_filter_file,
        ] {''', '''            revset_file,
            delta_filter_file,
        ] {''')],
 demo_rs='''
known, revoked = {A: [(DAY1, S), (DAY1, T)], B: [(DAY1, S)]}, {A: [(1, S)]}
e = Env(); e.inputs(known, revoked)
e.put("out/delta/" + name(B), b"01" + S.encode() + b"\\n")
e.inputs(known, {A: [(1, S)]})
if e.run(X(), "clubcard", "all", "all", clobber=False) == 0:
    judge(X(), e, "out", "clubcard", "all", "all", known, revoked)
if e.read("out/delta/" + name(B)) != b"01" + S.encode() + b"\\n":
    X().fail("overwritten", "delta file")
'''),
dict(id="c24-no-precondition", property="C24", pyseed=True,
 needs="the records change between the tool's two requests",
 breaks="the status is changed unconditionally, so that records nobody reviewed are signed",
 edits=[(ST, '''                original=original, changes=BasicPatch({"status": "to-sign"})''', '''                id=collection, changes=BasicPatch({"status": "to-sign"})''')],
 py='''
w = new_world(X()); w.collection("cert-revocations")["status"] = "to-review"
n = []
def on_op(kind, name):
    n.append(name)
    if len(n) == 2:
        w.touch("cert-revocations"); w.edits["cert-revocations"] = 1; w.collection("cert-revocations")["status"] = "work-in-progress"
w.on_op = on_op
code = tool(X(), w, "cert-revocations")
need(code != 0 and len(n) >= 2, code, n)
'''),
dict(id="c24-conflict-retried", property="C24", pyseed=True,
 needs="the records change between the tool's two requests",
 breaks="after a conflict the tool reads the collection again and signs it without looking at its status",
 edits=[(ST, '''        except KintoException as e:
            log.error(f"Couldn't sign {collection}")
            raise e
''', '''        except KintoException as e:
            if e.response is None or e.response.status_code != 412:
                log.error(f"Couldn't sign {collection}")
                raise e
            log.info("Collection changed meanwhile. Trying again.")
            resp = self.patch_collection(
                original=self.get_collection(id=collection)["data"],
                changes=BasicPatch({"status": "to-sign"}),
            )
''')],
 py='''
w = new_world(X()); w.collection("cert-revocations")["status"] = "to-review"
n = []
def on_op(kind, name):
    n.append(name)
    if len(n) == 2:
        w.touch("cert-revocations"); w.edits["cert-revocations"] = 1; w.collection("cert-revocations")["status"] = "work-in-progress"
w.on_op = on_op
code = tool(X(), w, "cert-revocations")
need(code != 0 and len(n) >= 2, code, n)
'''),
dict(id="c24-size-as-text", property="C24",
 needs="a filter above the limit whose size has more digits and a smaller first digit than the limit, or the reverse",
 breaks="the filter's size and the limit are compared as text",
 edits=[(SS, '''if (( FILTER_SIZE > MAX_FILTER_SIZE ))''', '''if [[ "${FILTER_SIZE}" > "${MAX_FILTER_SIZE}" ]]''')],
 sizes="'(9, 1000, True), (1000, 9, False), (1000, 1000, True), (1001, 1000, False)'"),
dict(id="c24-size-in-kib", property="C24",
 needs="a filter larger than the limit by less than a KiB",
 breaks="size and limit are rounded down to KiB before they are compared",
 edits=[(SS, '''if (( FILTER_SIZE > MAX_FILTER_SIZE ))''', '''if (( FILTER_SIZE / 1024 > MAX_FILTER_SIZE / 1024 ))''')],
 sizes="'(9, 1000, True), (1000, 1000, True), (1001, 1000, False)'"),
dict(id="c25-newest-covering", property="C25", rust="query",
 needs="a certificate revoked by the full filter and covered by a newer delta, which lists only newer revocations",
 breaks="the newest filter that covers the certificate decides alone",
 edits=[(QR, '''        for filter in &self.filters {
            let one_filter_result''', '''        for filter in self.filters.iter().rev() {
            let one_filter_result'''), (QR, '''                Status::Good => maybe_good = true,
''', '''                Status::Good => {
                    maybe_good = true;
                    break;
                }
''')],
 demo_rs='''
e = Env(); e.put("r/db/crlite.intermediates", intermediates([("CA", "k1")]))
fs = [Filter([(L1, 10, 100)], {"k1": {b"\\1"}}), Filter([(L1, 10, 200)], {"k1": {b"\\2"}})]
e.put("r/db/20240101-0-default.filter", fs[0].bytes()); e.put("r/db/20240101-1-default.filter.delta", fs[1].bytes())
ls = [Leaf(serial=bytes([s])) for s in (1, 2, 3)]
rc = e.run(X(), ["x509"] + certs(e, ls))
compare(X(), e, rc, ls, [("CA", "k1")], fs)
'''),
dict(id="c25-run-order-text", property="C25", rust="query",
 needs="ten or more runs on one day",
 breaks="the newest run is found by comparing run identifiers as text, so that the enrolled list of an older run is used",
 edits=[(QR, '''fn extract_run_id(path: &Path) -> Option<(String, u32)> {''', '''fn extract_run_id(path: &Path) -> Option<(String, String)> {'''),
  (QR, '''    let revision: u32 = parts.next()?.parse().ok()?;''', '''    let revision: u32 = parts.next()?.parse().ok()?;
    let revision = revision.to_string();'''),
  (QR, '''    let mut latest_run_id: Option<(String, u32)> = None;''', '''    let mut latest_run_id: Option<(String, String)> = None;''')],
 demo_rs='''
e = Env(); p = publish(0, 1); p.serve(e, "prod", cas_of(1), RUNS[1])
e.serve(ENROLLED % RUNS[0], enrolled_json(cas_of(0)))
rc = e.run(X(), ["x509"] + certs(e, ASKED), update="prod")
compare(X(), e, rc, ASKED, cas_of(1), [r["f"] for r in p.of("default")])
check_db(X(), e, p, "default", cas_of(1))
'''),
dict(id="c25-issuer-by-name", property="C25", rust="query",
 needs="a certificate of an issuer that is not enrolled and has the name of an enrolled one",
 breaks="the signature is not verified where only one enrolled issuer has the name: the certificate is looked up under the wrong key",
 edits=[(QR, '''                if cert.verify_signature(Some(&issuer_spki)).is_ok() {''', '''                if der_issuer_certs.len() == 1 || cert.verify_signature(Some(&issuer_spki)).is_ok() {''')],
 demo_rs='''
e = Env(); e.put("r/db/crlite.intermediates", intermediates([("CA", "k1")]))
e.put("r/db/20240101-0-default.filter", F[0].bytes())
ls = [Leaf(), Leaf(signer="k2"), Leaf(signer="k2", serial=b"\\3")]
rc = e.run(X(), ["x509"] + certs(e, ls))
compare(X(), e, rc, ls, [("CA", "k1")], [F[0]])
'''),
dict(id="c25-digest-late", property="C25", rust="query",
 needs="a filter that arrives damaged, and a query without another update",
 breaks="the filter is in place before its digest is compared: the next query answers from it",
 edits=[(QR, '''        let digest = Sha256::digest(filter_bytes);
        if expected_digest != digest.as_slice() {
            return Err(CRLiteDBError::from("filter digest mismatch"));
        }

        std::fs::write(&path, filter_bytes)?;
''', '''        std::fs::write(&path, filter_bytes)?;

        let digest = Sha256::digest(filter_bytes);
        if expected_digest != digest.as_slice() {
            return Err(CRLiteDBError::from("filter digest mismatch"));
        }
''')],
 demo_rs='''
e = Env(); p = publish(0, 1); p.serve(e, "prod", cas_of(1), RUNS[1])
e.put("r/db/crlite.intermediates", intermediates(cas_of(1)))
e.serve(RS["prod"][0] + p.of("default")[1]["loc"], DEF[3].bytes())
if e.run(X(), ["x509"] + certs(e, ASKED), update="prod") == 0: X().fail("accepted", "")
intact(X(), e, "")
'''),
dict(id="c25-stale-delta", property="C25", rust="query",
 needs="an update to a new full filter, deltas of the old one being there",
 breaks="only full filters are removed when they are no longer published: old deltas go on answering",
 edits=[(QR, '''        if (extension == Some("delta") || extension == Some("filter"))
            && !expected''', '''        if extension == Some("filter")
            && !expected''')],
 demo_rs='''
e = Env()
for r in publish(0, 1).of("default"): e.put("r/db/" + r["name"], r["bytes"])
p = publish(2, 3); p.serve(e, "prod", cas_of(3), RUNS[3])
rc = e.run(X(), ["x509"] + certs(e, ASKED), update="prod")
check_db(X(), e, p, "default", cas_of(3))
'''),
dict(id="c25-first-sct", property="C25", rust="query",
 needs="a certificate whose first timestamp is not covered and whose second one is",
 breaks="only the first timestamp of a certificate is considered",
 edits=[(QR, '''    scts.iter()
        .map''', '''    scts.first()
        .into_iter()
        .map''')],
 demo_rs='''
e = Env(); e.put("r/db/crlite.intermediates", intermediates([("CA", "k1")]))
e.put("r/db/20240101-0-default.filter", F[0].bytes())
ls = [Leaf(scts=((L3, 50), (L1, 50)))]
rc = e.run(X(), ["x509"] + certs(e, ls))
compare(X(), e, rc, ls, [("CA", "k1")], [F[0]])
'''),
dict(id="c25-serial-sign-byte", property="C25", rust="query",
 needs="a revoked certificate whose serial number begins with a zero octet",
 breaks="the leading zero octet is taken off the serial: the filter says nothing of that number",
 edits=[(QR, '''        let serial = cert.tbs_certificate.raw_serial();
''', '''        let serial = match cert.tbs_certificate.raw_serial() {
            [0, rest @ ..] if !rest.is_empty() => rest,
            serial => serial,
        };
''')],
 demo_rs='''
e = Env(); e.put("r/db/crlite.intermediates", intermediates([("CA", "k1")]))
e.put("r/db/20240101-0-default.filter", F[0].bytes())
ls = [Leaf(serial=b"\\0\\x80"), Leaf(serial=b"\\x80"), Leaf(serial=b"\\0")]
rc = e.run(X(), ["x509"] + certs(e, ls))
compare(X(), e, rc, ls, [("CA", "k1")], [F[0]])
'''),
dict(id="c25-host-skipped", property="C25", rust="query",
 needs="a sign-off list with a host that cannot be reached, and others that can",
 breaks="hosts whose certificate cannot be obtained are skipped: the sign-off succeeds",
 edits=[(QR, '''        if CmdResult::SomeRevoked == query_https_host(db, host, Arc::clone(&config))? {
            found_revoked_certs = true;
        }
''', '''        match query_https_host(db, host, Arc::clone(&config)) {
            Ok(CmdResult::SomeRevoked) => found_revoked_certs = true,
            Ok(CmdResult::NoneRevoked) => (),
            Err(e) => warn!("{}", e.message),
        }
''')],
 demo_rs='''
e = Env(); e.put("r/db/crlite.intermediates", intermediates([("CA", "k1")]))
e.put("r/db/20240101-0-default.filter", F[0].bytes())
a, b = Host([[Leaf(serial=b"\\3").der]]), Host(["reset"])
if e.run(X(), ["https", f"127.0.0.1:{a.port}"]) != 0: X().fail("good host", e.out)
if e.run(X(), ["https", f"127.0.0.1:{a.port}", f"127.0.0.1:{b.port}"]) == 0: X().fail("passes", e.out)
'''),
dict(id="c25-unlabelled-everywhere", property="C25", rust="query",
 needs="records that name no channel, and the compat channel asked for",
 breaks="records without a channel are taken for records of every channel instead of the default one",
 edits=[(QR, '''        .filter(|x| x.channel.unwrap_or_default() == *channel)''', '''        .filter(|x| x.channel.map_or(true, |c| c == *channel))''')],
 demo_rs='''
e = Env(); p = publish(0, 1, True, False); p.serve(e, "prod", cas_of(1), RUNS[1])
rc = e.run(X(), ["x509"] + certs(e, ASKED), update="prod", channel="compat")
check_db(X(), e, p, "compat", cas_of(1))
'''),
]
PYX = '''import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


class X:
    violations, spent = (), {}

    def choose(self, label, alts):
        return 0

    def step(self, s=""):
        print(s)

    def fail(self, key, msg):
        print(key + ": " + msg, flush=True)
        os._exit(1)


from c24 import *
def need(c, *msg):
    if not c:
        print(*msg)
        sys.exit(1)
'''
SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export VERIF_REPO=$(pwd) PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export VERIF_WORK=$W TMPDIR=$W
timeout 250 /usr/bin/python3 "$D/demo.py" > "$W/out" 2>&1; rc=$?
tail -5 "$W/out"; exit $rc
'''
SIZES = '''#!/bin/bash
# runs the script on filters of several sizes, with the tool replaced by one that writes down what it was asked to sign
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
mkdir -p "$D/wf" "$D/p/crlite_db" "$D/app/scripts" "$D/bin"
: > "$D/wf/0-set_credentials.inc"
printf '#!/bin/bash\\necho "$2" >> "%s/calls"\\n' "$D" > "$D/bin/python3"; chmod +x "$D/bin/python3"
bad=0
while read -r size max want; do
  : > "$D/calls"; truncate -s "$size" "$D/p/crlite_db/crlite.filter"
  PATH=$D/bin:$PATH crlite_workflow=$D/wf crlite_bin=$D/app crlite_processing=$D/p max_filter_size=$max crlite_filter_bucket=crlite-filters-prod bash containers/scripts/crlite-signoff.sh > "$D/out" 2>&1
  got=no; grep -q '^cert-revocations$' "$D/calls" && got=yes
  [ $got = $want ] || { echo "size $size limit $max: signed $got"; bad=1; }
done <<'X'
9 1000 yes
1000 9 no
1000 1000 yes
1001 1000 no
20000 3000 no
3000 20000 yes
X
exit $bad
'''
for s in SEEDS:
    if s.get("pyseed"):
        s["script"], s["files"] = SH, {"demo.py": PYX + s["py"]}
    elif "sizes" in s:
        s["script"] = SIZES
        del s["sizes"]
