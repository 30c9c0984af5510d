MP = "moz_kinto_publisher/main.py"; WF = "workflow/__init__.py"; GS = "containers/scripts/crlite-generate.sh"; UP = "workflow/3-upload_mlbf_to_storage"; GM = "workflow/2-generate_mlbf"; AL = "workflow/0-allocate_identifier"
PY = '''import os, sys, json, base64, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


class X:
    """plays the explorer: everything goes well except what is planned: [(part of the request, which one, what happens)]"""
    def __init__(self, *plan):
        self.plan, self.seen, self.log = list(plan), {}, []

    def choose(self, label, alts):
        for part, nth, what in self.plan:
            if part in label:
                n = self.seen[part] = self.seen.get(part, 0) + 1
                if n == nth:
                    return [a[0] for a in alts].index(what)
        return 0

    def step(self, s=""):
        self.log.append(s)

    def fail(self, key, msg):
        print(key + ": " + msg, flush=True)
        os._exit(1)


from publisher import *
def need(c, *msg):
    if not c:
        print(*msg)
        sys.exit(1)
'''
SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export VERIF_REPO=$(pwd) PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export VERIF_WORK=$W TMPDIR=$W
timeout 250 /usr/bin/python3 "$D/demo.py" > "$W/out" 2>&1; rc=$?
tail -5 "$W/out"; exit $rc
'''
SEEDS = [
dict(id="c19-run-order-text", property="C19",
 needs="ten or more runs on one day, the published records ending at the run with index 9",
 breaks="run identifiers are compared as text, so that run 10 counts as older than the published run 9 and is never published",
 edits=[(MP, '''        if run_date < cut_date or (run_date == cut_date and run_idx <= cut_idx):''', '''        if run_id <= record_run_ids[-1] or run_date < cut_date:''')],
 py='''
w = PWorld(X())
times = {}
for i in range(8, 12):
    times[f"20240101-{i}"] = f"2024-01-01T{i:02d}:00:00"
    w.gen(f"20240101-{i}", times[f"20240101-{i}"])
    if i == 9:
        for c in CHANNELS:
            place_chain(w, c, ["20240101-8", "20240101-9"], times)
need(w.run_main() is None, "publisher failed")
for c in CHANNELS:
    need(chain_of(w, c) == (["20240101-8", "20240101-9", "20240101-10", "20240101-11"], None), chain_of(w, c))
'''),
dict(id="c19-unfinished-between", property="C19",
 needs="a run that never finished (but has its files) between the published one and the newest complete run",
 breaks="runs before the newest are no longer required to be completed: a delta of an unfinished run is published",
 edits=[(MP, '''    for r in identifiers_to_check:
        if not run_db.is_run_ready(r):
            raise''', '''    for r in identifiers_to_check[-1:]:
        if not run_db.is_run_ready(r):
            raise''')],
 py='''
w = PWorld(X())
times = {"20240101-0": "2024-01-01T00:00:00", "20240101-1": "2024-01-01T06:00:00", "20240101-2": "2024-01-01T12:00:00"}
for r in times:
    w.gen(r, times[r], "complete, unmarked" if r.endswith("-1") else "complete")
for c in CHANNELS:
    place_chain(w, c, ["20240101-0"], times)
w.collection(REVS)
need(w.run_main() is None, "publisher failed")
for c in CHANNELS:
    runs, bad = chain_of(w, c)
    need(bad is None and "20240101-1" not in runs and runs[-1] == "20240101-2", runs, bad)
'''),
dict(id="c19-noop-deltas", property="C19",
 needs="--noop with published deltas that have to be replaced by a base filter",
 breaks="--noop deletes the published deltas",
 edits=[(MP, '''    if noop:
        log.info("Would clean up CRLite deltas, but no-op set")
        return
''', '''    if noop:
        log.info("Would clean up CRLite deltas, but no-op set")
''')],
 py='''
w = PWorld(X())
times = {"20240101-0": "2024-01-01T00:00:00", "20240101-1": "2024-01-01T06:00:00", "20240301-0": "2024-03-01T12:00:00"}
for r in times:
    w.gen(r, times[r])
for c in CHANNELS:
    place_chain(w, c, ["20240101-0", "20240101-1"], times)
before = json.dumps(w.kinto[REVS], sort_keys=True)
w.run_main("--noop")
need(json.dumps(w.kinto[REVS], sort_keys=True) == before, "changed by --noop")
'''),
dict(id="c19-failed-attachment", property="C19",
 needs="the upload of an attachment fails",
 breaks="the failure is only logged: the record is gone, the run goes on and ends with success, and a following delta is linked to a record that does not exist",
 edits=[(MP, '''        log.error("Stale record deleted.")
        raise ke
    return recordid''', '''        log.error("Stale record deleted.")
    return recordid''')],
 py='''
x = X(("attach", 1, "Kinto error before"))
w = PWorld(x)
w.faults = std_faults()
times = {"20240101-0": "2024-01-01T00:00:00", "20240101-1": "2024-01-01T06:00:00", "20240101-2": "2024-01-01T12:00:00"}
for r in times:
    w.gen(r, times[r])
for c in CHANNELS:
    place_chain(w, c, ["20240101-0"], times)
e = w.run_main()
need(x.seen.get("attach", 0) >= 1, "the fault was not met")
for c in CHANNELS:
    need(e is not None or chain_of(w, c) == (list(times), None), "success with", chain_of(w, c))
'''),
dict(id="c20-same-name-and-key", property="C20",
 needs="two enrolled certificates with the same name and key (a renewed intermediate)",
 breaks="certificates with the same name and key are taken for one: only one of them is published",
 edits=[(MP, '''            f"{base64.b85encode(self.pubKeyHash).decode('utf-8')}"
            + f"-{self.subject}-{self.derHash}"
        )''', '''            f"{base64.b85encode(self.pubKeyHash).decode('utf-8')}"
            + f"-{self.subject}"
        )''')],
 py='''
from c20 import *
w = IWorld(X(), ["A", "A2"], [entry("A"), entry("A2")])
w.protect()
need(w.run_main() is None, "publisher failed")
need(compare(w, ["A", "A2"]) is None, compare(w, ["A", "A2"]))
'''),
dict(id="c20-broken-left", property="C20",
 needs="a broken record (left by an upload that was interrupted) whose removal fails",
 breaks="broken records found by the final verification are only logged: the run ends with success although the collection holds a record without attachment",
 edits=[(MP, '''        raise KintoException(
            f"There are {len(verified_error_records)} broken intermediates. Re-run to fix."
        )''', '''        log.error(
            f"There are {len(verified_error_records)} broken intermediates. Re-run to fix."
        )''')],
 py='''
from c20 import *
x = X(("delete", 1, "Kinto error before"))
w = IWorld(x, ["A", "B"], [entry("A"), entry("B")])
w.faults = std_faults()
place(w, "A", "ok and broken")
w.protect()
e = w.run_main()
need(x.seen, "the fault was not met", x.log)
need(e is not None or compare(w, ["A", "B"]) is None, "success with", read(w))
'''),
dict(id="c20-duplicates-kept", property="C20",
 needs="an intermediate that is recorded twice (a request that took effect although it seemed to fail)",
 breaks="duplicate records are no longer removed",
 edits=[(MP, '''                log.warning("Will remove duplicate intermediate: %s", intObj)
                remote_error_records.append(record)
''', '''                log.warning("Duplicate intermediate: %s", intObj)
''')],
 py='''
from c20 import *
w = IWorld(X(), ["A"], [entry("A")])
place(w, "A", "twice")
w.protect()
e = w.run_main()
need(e is None and compare(w, ["A"]) is None, e, read(w))
'''),
dict(id="c21-re-enrolled", property="C21",
 needs="a log that is not enrolled and whose attributes change in the source list",
 breaks="the update of the record enrolls the log again",
 edits=[(MP, '''        upstream_log["crlite_enrolled"] = known_log["crlite_enrolled"]
''', '''        if known_log["crlite_enrolled"]:
            upstream_log["crlite_enrolled"] = known_log["crlite_enrolled"]
''')],
 py='''
from c21 import *
u = upstream("x")
w = LWorld(X(), [("Op", "rfc", u)])

w.known(want_record(dict(u, mmd=1), "rfc", "Op", False))
w.start()
need(w.run_main() is None and w.mismatch() is None, w.mismatch())
'''),
dict(id="c21-operator-change", property="C21",
 needs="a log that is taken over by another operator",
 breaks="the published operator is not updated",
 edits=[(MP, '''            "admissible",
            "operator",
            "tiled",
        ]:''', '''            "admissible",
            "tiled",
        ]:''')],
 py='''
from c21 import *
u = upstream("x")
w = LWorld(X(), [("Op", "rfc", u)])

w.known(want_record(u, "rfc", "Old operator", True))
w.start()
need(w.run_main() is None and w.mismatch() is None, w.mismatch())
'''),
dict(id="c21-removal-of-changed", property="C21",
 needs="a log that disappears from the source list while a log is uploaded in the same run",
 breaks="removed logs are only deleted when no new log was uploaded, although the run reports success",
 edits=[(MP, '''    for known_id, known_log in known_lut.items():
        if known_id in upstream_lut:
            continue

        if args.noop:
            log.info("Noop enabled, skipping deletion of %s.", known_log)''', '''    for known_id, known_log in known_lut.items():
        if known_id in upstream_lut or len(upstream_lut) > len(known_lut):
            continue

        if args.noop:
            log.info("Noop enabled, skipping deletion of %s.", known_log)''')],
 py='''
from c21 import *
u, v, old = upstream("x"), upstream("y"), upstream("old")
w = LWorld(X(), [("Op", "rfc", u), ("Op", "rfc", v), ("Op", "tiled", upstream("z", "tiled"))])
w.known(want_record(u, "rfc", "Op", True))
w.known(want_record(old, "rfc", "Op", True))
w.start()
need(w.run_main() is None and w.mismatch() is None, w.mismatch())
'''),
dict(id="c22-marked-early", property="C22",
 needs="the upload of a priority artifact fails, or the job dies during it",
 breaks="the run is marked completed before the priority filter is in place",
 edits=[(UP, '''    sentinel = bucket.blob(str(Path(runIdPath.name) / "completed"))
    log.info(f"Saving 'completed' marker to {sentinel.name}")
    if not args.noop:
        sentinel.upload_from_string(
            f"Upload completed at {datetime.datetime.now(datetime.UTC)}"
        )
''', ''), (UP, '''    for path, dirs, files in os.walk(runIdPath / "clubcard-priority"):
''', '''    sentinel = bucket.blob(str(Path(runIdPath.name) / "completed"))
    log.info(f"Saving 'completed' marker to {sentinel.name}")
    if not args.noop:
        sentinel.upload_from_string(
            f"Upload completed at {datetime.datetime.now(datetime.UTC)}"
        )

    for path, dirs, files in os.walk(runIdPath / "clubcard-priority"):
''')],
 py='''
from c22 import *
def upload(*plan):
    x = X(*plan)
    w = PWorld(x)
    w.gcs[BUCKET] = {}
    w.faults = std_faults()
    p = os.path.join(w.dir, "20240101-0")
    for d in ("clubcard-all", "clubcard-priority"):
        os.makedirs(os.path.join(p, d))
        for f in ("filter", "filter.delta", "revset.bin"):
            open(os.path.join(p, d, f), "w").write(d + f)
    rc, _ = run_script(w, os.path.join(REPO, "workflow", "3-upload_mlbf_to_storage"), p, "--filter-bucket", BUCKET)
    o = w.objects(BUCKET)
    full = all(f"20240101-0/{d}/{f}" in o for d in ("clubcard-all", "clubcard-priority") for f in ("filter", "filter.delta", "revset.bin"))
    return rc, full, "20240101-0/completed" in o, x
rc, full, marked, x = upload()
need(rc == 0 and full and marked, rc, full, marked)

rc, full, marked, x = upload(("20240101-0/clubcard-priority/", 1, "the process dies before it"))
need(x.seen and (full or not marked), "marked, but incomplete", rc)
'''),
dict(id="c22-index-padding", property="C22",
 needs="more than 99 runs on one day, or an index of 100 or more",
 breaks="runs with an index above 99 are ordered before run 11",
 edits=[(WF, 'return f"{parts[0]}{int(parts[1]):06d}"', 'return f"{parts[0]}{int(parts[1]):02d}"')], py='''
setup()
import main as m
w = PWorld(X())
for i in (5, 11, 99, 100, 101):
    w.gen(f"20240101-{i}", "2024-01-01T00:00:00")
import workflow
got = workflow.get_run_identifiers(BUCKET)
need(got == [f"20240101-{i}" for i in (5, 11, 99, 100, 101)], got)
'''),
dict(id="c22-priority-optional", property="C22",
 needs="the generation of the priority filter fails",
 breaks="the job goes on without the priority filter and marks the run completed",
 edits=[(GS, '''              --reason-set priority \\
              --filter-type clubcard
''', '''              --reason-set priority \\
              --filter-type clubcard || echo "crlite-fullrun: no priority filter"
''')], script='''#!/bin/bash
R=$(pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
mkdir -p $W/wf $W/bin $W/p $W/ct/crls
touch $W/wf/0-set_credentials.inc
cat > $W/wf/0-allocate_identifier <<E
#!/bin/bash
mkdir -p $W/p/20240101-0; echo $W/p/20240101-0
E
cat > $W/wf/2-generate_mlbf <<E
#!/bin/bash
case "\\$*" in *priority*) exit \\${FAIL:-0};; esac
E
cat > $W/wf/3-upload_mlbf_to_storage <<E
#!/bin/bash
touch $W/uploaded
E
printf '#!/bin/bash\\n' > $W/wf/1-upload_data_to_storage
printf '#!/bin/bash\\nmkdir -p %s/p/20240101-0/known %s/p/20240101-0/revoked\\n' $W $W > $W/bin/aggregate-crls
cp $W/bin/aggregate-crls $W/bin/aggregate-known
chmod +x $W/wf/* $W/bin/*
export crlite_workflow=$W/wf crlite_bin=$W/bin crlite_processing=$W/p/ crlite_persistent=$W/ct statsdHost=x
bash -e $R/containers/scripts/crlite-generate.sh > $W/log 2>&1 && [ -e $W/uploaded ] || { tail -3 $W/log; exit 1; }
rm $W/uploaded
chmod -R u+w $W/p; rm -r $W/p/20240101-0
if FAIL=1 bash -e $R/containers/scripts/crlite-generate.sh > $W/log 2>&1; then echo "success although the priority filter failed"; exit 1; fi
[ ! -e $W/uploaded ] || { echo "uploaded and marked although the priority filter failed"; exit 1; }
exit 0
'''),
dict(id="c22-upload-skipped", property="C22",
 needs="the upload of one file keeps failing",
 breaks="files that cannot be uploaded are skipped, and the run is marked completed without them",
 edits=[(UP, '''            continue

        uploadBlob(bucket, remoteFilePath, localFilePath)
''', '''            continue

        try:
            uploadBlob(bucket, remoteFilePath, localFilePath)
        except Exception as e:
            log.error(f"Could not upload {remoteFilePath}: {e}")
''')],
 py='''
from c22 import *
def upload(*plan):
    x = X(*plan)
    w = PWorld(x)
    w.gcs[BUCKET] = {}
    w.faults = std_faults()
    p = os.path.join(w.dir, "20240101-0")
    for d in ("clubcard-all", "clubcard-priority"):
        os.makedirs(os.path.join(p, d))
        for f in ("filter", "filter.delta", "revset.bin"):
            open(os.path.join(p, d, f), "w").write(d + f)
    rc, _ = run_script(w, os.path.join(REPO, "workflow", "3-upload_mlbf_to_storage"), p, "--filter-bucket", BUCKET)
    o = w.objects(BUCKET)
    full = all(f"20240101-0/{d}/{f}" in o for d in ("clubcard-all", "clubcard-priority") for f in ("filter", "filter.delta", "revset.bin"))
    return rc, full, "20240101-0/completed" in o, x
rc, full, marked, x = upload()
need(rc == 0 and full and marked, rc, full, marked)

rc, full, marked, x = upload(("20240101-0/clubcard-all/filter.delta", 1, "storage refuses"))
need(x.seen and (full or not marked), "marked, but incomplete", rc)
'''),
]

for s in SEEDS:
    if "py" in s:
        s["script"] = SH
        s["pyseed"] = True
        s["files"] = {"demo.py": PY + s["py"]}
