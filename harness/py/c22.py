"""C22: run identifiers are unique and completed runs are complete."""
import io, itertools, selectors, shutil, signal, socket, subprocess, tempfile, time as real_time
from contextlib import redirect_stdout, redirect_stderr
from publisher import *
import c19
from explore import Scenario

RULE = ("Allocation: the real 0-allocate_identifier on every set of stored and local identifiers from boundary alphabets. Pipeline: the real crlite-generate.sh with the real workflow scripts as processes, the programs they call and the storage "
        "bucket replaced by stand-ins that ask the explorer before every effect, with every single failure and death (pairs in thorough), followed by another run. Readers: the real publisher on every set of complete and unfinished runs.")
ASSUME = ["one generator runs at a time; objects appear in storage as a whole",
          "the aggregators and the filter builder are represented by programs that write the files they are documented to write"]

REPO = world.REPO
SCRIPT0 = os.path.join(REPO, "workflow", "0-allocate_identifier")


def run_script(w, path, *argv):
    """runs a workflow script in this process; returns (exit code, stdout)."""
    setup()
    import workflow
    saved = {k: sys.modules.get(k) for k in ("datetime", "time", "__init__")}
    sys.modules.update(world.shim_modules())
    sys.modules["__init__"] = workflow
    out, args, path0 = io.StringIO(), sys.argv, list(sys.path)
    sys.argv = [path] + list(argv)
    try:
        code = compile(open(path).read(), path, "exec")
        with redirect_stdout(out), redirect_stderr(io.StringIO()):
            exec(code, {"__name__": "__main__", "__file__": path})
        return 0, out.getvalue()
    except Crash:
        return "crash", out.getvalue()
    except SystemExit as e:
        return e.code or 0, out.getvalue()
    except Exception as e:
        return f"{type(e).__name__}: {e}", out.getvalue()
    finally:
        sys.argv = args
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


TODAY = "20240115"


def judge_allocation(w, x, code, out, stored, local, today, path):
    ids = [n for n in stored | local if n.count("-") == 1 and all(p.isdigit() for p in n.split("-")) and len(n.split("-")[0]) == 8]
    if code != 0:
        x.fail("allocation-fails", f"no identifier is allocated: {code}")
        return
    got = os.path.basename(out.strip())
    d, _, i = got.partition("-")
    if out.strip() != os.path.join(path, got) or not i.isdigit() or d != today:
        x.fail("allocated-name", f"allocated {out.strip()!r} on {today}")
        return
    if got in stored:
        x.fail("identifier-reused", f"allocated {got}, which is stored")
    elif got in local:
        x.fail("identifier-reused", f"allocated {got}, which exists locally")
    elif any(rid(n) >= rid(got) for n in ids if n.split("-")[0] == today):
        x.fail("identifier-not-later", f"allocated {got} although {[n for n in ids]} exist")
    elif not os.path.isdir(os.path.join(path, got)):
        x.fail("no-directory", f"{got} was not created")
    else:
        ts = open(os.path.join(path, got, "timestamp")).read()
        if ts != VNOW(w):
            x.fail("timestamp", f"timestamp is {ts}")


def VNOW(w):
    return datetime.datetime.utcfromtimestamp(w.now).isoformat(timespec="seconds")


NAMES = [TODAY + "-0", TODAY + "-1", TODAY + "-2", TODAY + "-9", TODAY + "-10", TODAY + "-11", TODAY + "-99", TODAY + "-100", "20240114-7", "20240114-10", "20231231-3", "20240116-0", "20240116-12"]
JUNK = ["", "latest", TODAY + "-3.old", TODAY + "-4-copy", "x" + TODAY + "-5", TODAY + "-x", "2024015-6", "202401150-7", "logs"]


def allocation(size):
    def run(x):
        w = PWorld(x, start="2024-01-15T10:30:00")
        try:
            w.gcs[BUCKET] = {}
            stored, last = set(), -1
            for i in range(size):
                rest = list(range(last + 1, len(NAMES)))
                k = x.choose(f"stored run {i}", [("none", None)] + [(NAMES[j], None) for j in rest])
                if k == 0:
                    break
                last = rest[k - 1]
                stored.add(NAMES[last])
            junk = x.pick("another directory", JUNK)
            for n in stored | ({junk} - {""}):
                w.put_object(BUCKET, n + "/timestamp", b"x")
                w.put_object(BUCKET, n + "/known/issuer", b"x")
            local = set(x.pick("local directories", [(), (TODAY + "-0",), (TODAY + "-0", TODAY + "-1"), (TODAY + "-2",), (TODAY + "-10", TODAY + "-9"), ("20240114-11",)]))
            proc = os.path.join(w.dir, "processing")
            os.mkdir(proc)
            for n in local:
                os.mkdir(os.path.join(proc, n))
            seen = []
            for r in range(2):  # a second allocation before anything is stored
                code, out = run_script(w, SCRIPT0, "--path", proc, "--filter-bucket", BUCKET)
                judge_allocation(w, x, code, out, stored, local, TODAY, proc)
                if x.violations:
                    return
                local.add(os.path.basename(out.strip()))
                w.now += 60
            x.outcome = os.path.basename(out.strip()) if len(stored) < 2 else str(len(stored))
        finally:
            w.close()
    return run


def allocation_faults(x):
    """a failing listing allocates nothing rather than something that exists"""
    w = PWorld(x, start="2024-01-15T23:59:59")
    try:
        w.gcs[BUCKET] = {}
        stored = {TODAY + "-0", TODAY + "-1", "20240114-0", "20240114-1", TODAY + "-2"}
        for n in stored:
            w.put_object(BUCKET, n + "/timestamp", b"x")
        proc = os.path.join(w.dir, "processing")
        os.mkdir(proc)
        w.faults = std_faults(kinto=False)
        code, out = run_script(w, SCRIPT0, "--path", proc, "--filter-bucket", BUCKET)
        if code == 0:
            judge_allocation(w, x, code, out, stored, set(), TODAY, proc)
        elif out.strip():
            x.fail("allocated-on-failure", f"{code}: printed {out!r}")
        w.restart()
        w.faults = lambda k, n: ()
        w.now += x.pick("seconds later", [0, 1, 86400])
        today = datetime.datetime.utcfromtimestamp(w.now).strftime("%Y%m%d")
        local = set(os.listdir(proc))
        code, out = run_script(w, SCRIPT0, "--path", proc, "--filter-bucket", BUCKET)
        judge_allocation(w, x, code, out, stored, local, today, proc)
        x.outcome = out.strip()[-12:]
    finally:
        w.close()


def ordering(x):
    """any two to four identifiers (and junk) are listed in chronological order"""
    w = PWorld(x, start="2024-01-15T10:30:00")
    try:
        import workflow
        w.gcs[BUCKET] = {}
        n, last, names = 4, -1, []
        for i in range(n):
            rest = list(range(last + 1, len(NAMES)))
            k = x.choose(f"run {i}", [("none", None)] + [(NAMES[j], None) for j in rest])
            if k == 0:
                break
            last = rest[k - 1]
            names.append(NAMES[last])
        junk = x.pick("another directory", JUNK)
        for m in names + [junk]:
            if m:
                w.put_object(BUCKET, m + "/timestamp", b"x")
        got = workflow.get_run_identifiers(BUCKET)
        if list(got) != sorted(names, key=rid):
            x.fail("order", f"stored {names} and {junk!r}, listed {got}")
        x.outcome = str(len(names))
    finally:
        w.close()


RUNS = ["20240114-10", TODAY + "-2", TODAY + "-9", TODAY + "-10", TODAY + "-11", "20240116-0"]


def readers(count):
    def run(x):
        w = PWorld(x, start="2024-01-17T00:00:00")
        try:
            stored, last, complete = [], -1, []
            for i in range(count):
                rest = list(range(last + 1, len(RUNS)))
                k = x.choose(f"run {i}", [("none", None)] + [(RUNS[j], None) for j in rest])
                if k == 0:
                    break
                last = rest[k - 1]
                r = RUNS[last]
                out = x.pick(f"state of {r}", ["complete", "complete, unmarked", "source only"])
                w.gen(r, f"2024-01-16T{last:02d}:00:00", out)
                stored.append(r)
                if out == "complete":
                    complete.append(r)
                if i + 1 < count and x.pick("publish now", [False, True]):
                    w.run_main()
                    check_readers(w, x, stored, complete)
                    if x.violations:
                        return
            w.run_main()
            check_readers(w, x, stored, complete)
            x.outcome = f"{len(stored)} stored, {len(complete)} complete: " + c19.outcome(w)
        finally:
            w.close()
    return run


def check_readers(w, x, stored, complete):
    for slug in CHANNELS:
        runs, bad = chain_of(w, slug)
        if bad:
            x.fail("inconsistent", f"channel {slug}: {bad}")
            continue
        if any(r not in complete for r in runs):
            x.fail("incomplete-run-selected", f"channel {slug} has {runs}; complete are {complete}")
        if runs != sorted(runs, key=rid):
            x.fail("not-chronological", f"channel {slug} has {runs}")
        if stored and stored[-1] in complete and (not runs or runs[-1] != stored[-1]):
            x.fail("newest-not-selected", f"channel {slug} has {runs}; the newest run {stored[-1]} is complete")


# ---- the pipeline ------------------------------------------------------------------------------------------------
class Pipe:
    """runs crlite-generate.sh as real processes; every effect is decided here."""

    def __init__(self, x):
        self.x = x
        self.dir = tempfile.mkdtemp(prefix="verifpipe.", dir="/dev/shm" if os.path.isdir("/dev/shm") else os.environ.get("VERIF_WORK"))
        d = self.dir
        for p in ("bin", "home", "processing", "persistent/crls", "tmp"):
            os.makedirs(os.path.join(d, p))
        tool = os.path.join(world.HERE, "pipe", "tool")
        for t in ("bin/aggregate-crls", "bin/aggregate-known", "home/rust-create-cascade"):
            os.symlink(tool, os.path.join(d, t))
        open(os.path.join(d, "persistent/crls/x.crl"), "w").write("crl")
        open(os.path.join(d, "persistent/ccadb-intermediates.csv"), "w").write("csv")
        self.objects, self.now, self.tags, self.tools, self.faulty = {}, 0, 0, [], True
        self.writes = []

    def close(self):
        subprocess.run(["chmod", "-R", "u+w", self.dir], check=False)
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, now, noupload=False):
        """returns the exit status of the script; -9 when the machine died."""
        d = self.dir
        sock = os.path.join(d, "s")
        if os.path.exists(sock):
            os.unlink(sock)
        srv = socket.socket(socket.AF_UNIX)
        srv.bind(sock)
        srv.listen(8)
        py = os.path.join(world.HERE, "pipe") + ":" + os.path.join(world.HERE, "stubs")
        env = {"PATH": os.environ["PATH"], "HOME": os.path.join(d, "home"), "PYTHONPATH": py, "PYTHONDONTWRITEBYTECODE": "1", "VERIF_SOCK": sock, "TMPDIR": os.path.join(d, "tmp"),
               "VERIF_NOW": str(t(now).timestamp()), "crlite_workflow": os.path.join(REPO, "workflow"), "crlite_bin": os.path.join(d, "bin"), "crlite_processing": os.path.join(d, "processing"),
               "crlite_persistent": os.path.join(d, "persistent"), "crlite_filter_bucket": BUCKET, "GOOGLE_APPLICATION_CREDENTIALS": os.path.join(d, "home", "credentials.json"), "WORKDIR": d, "statsdHost": "statsd.example", "PYTHONHASHSEED": "0"}
        if noupload:
            env["DoNotUpload"] = "1"
        if os.environ.get("VERIF_DEBUG"):
            env["VERIF_DEBUG"] = "1"
        err = open(os.path.join(d, "log"), "ab")
        p = subprocess.Popen(["bash", os.path.join(REPO, "containers/scripts/crlite-generate.sh")] if False else ["bash", "-e", os.path.join(REPO, "containers/scripts/crlite-generate.sh")],
                             cwd=d, env=env, stdout=err, stderr=err, stdin=subprocess.DEVNULL, start_new_session=True)
        sel = selectors.DefaultSelector()
        sel.register(srv, selectors.EVENT_READ, None)
        pidfd = os.pidfd_open(p.pid)
        sel.register(pidfd, selectors.EVENT_READ, "exit")
        self.died = False
        end = real_time.time() + 60
        try:
            while True:
                done = False
                for k, _ in sel.select(1):
                    if k.data == "exit":
                        done = True
                    elif k.data is None:
                        c, _ = srv.accept()
                        sel.register(c, selectors.EVENT_READ, c.makefile("rwb"))
                    else:
                        line = k.data.readline()
                        if not line:
                            sel.unregister(k.fileobj)
                            k.fileobj.close()
                            continue
                        r = self.answer(json.loads(line))
                        if r[0] == "machine":
                            os.killpg(p.pid, signal.SIGKILL)
                            p.wait()
                            return -9
                        k.data.write(json.dumps(r).encode() + b"\n")
                        k.data.flush()
                if done:
                    return p.wait()
                if real_time.time() > end:
                    raise RuntimeError("the pipeline hangs")
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            os.close(pidfd)
            srv.close()
            sel.close()
            err.close()

    def answer(self, m):
        if m[0] == "op":
            _, kind, name, mutating = m
            self.x.step(f"{kind} {name}")
            alts = [("ok", None)]
            if self.faulty:
                if kind == "gcs":
                    alts += [("unavailable once", "fault"), ("refused", "fault")]
                    if mutating:
                        alts += [("unavailable after taking effect", "fault")]
                else:
                    alts += [("the program fails", "fault")]
                    alts += [("the program fails after writing it", "fault")]
                alts += [("the process dies", "fault"), ("the machine dies", "fault")]
            i = self.x.choose(f"{kind} {name}", alts)
            a = alts[i][0]
            return {"ok": ["ok"], "unavailable once": ["before", "ServiceUnavailable"], "refused": ["before", "Forbidden"], "unavailable after taking effect": ["after", "ServiceUnavailable"],
                    "the program fails": ["before", ""], "the program fails after writing it": ["after", ""], "the process dies": ["die"], "the machine dies": ["machine"]}[a]
        if m[0] == "names":
            return ["ok", sorted(self.objects)]
        if m[0] == "get":
            return ["ok", self.objects.get(m[1])]
        if m[0] == "put":
            self.objects[m[1]] = m[2]
            self.writes.append(m[1])
            self.judge(m[1])
            return ["ok"]
        if m[0] == "pop":
            self.objects.pop(m[1], None)
            self.judge(m[1])
            return ["ok"]
        if m[0] == "tool":
            self.tags += 1
            self.tools.append((m[1], m[2], self.tags))
            return ["ok", f"#{self.tags}"]
        raise RuntimeError(m)

    def judge(self, what):
        """every run marked completed must be complete, and stay as it was"""
        done = {n.split("/")[0] for n in self.objects if n.endswith("/completed")}
        for run in done:
            bad = self.incomplete(run)
            if bad:
                self.x.fail("completed-incomplete", f"{run} is marked completed while {bad} (after {what})")
        for run in self.snap:
            for n, v in self.snap[run].items():
                if self.objects.get(n) != v:
                    self.x.fail("completed-run-changed", f"{n} of the completed run {run} was changed")
        for run in done:
            self.snap.setdefault(run, {n: v for n, v in self.objects.items() if n.startswith(run + "/") and not n.endswith("/completed")})

    snap = property(lambda self: self.__dict__.setdefault("_snap", {}))

    def incomplete(self, run):
        o = self.objects
        local = os.path.join(self.dir, "processing", run)
        for n in ("timestamp", "enrolled.json", "ct-logs.json", "known/issuer", "revoked/issuer", "revoked/idle", "clubcard-all/filter", "clubcard-all/filter.delta", "clubcard-all/revset.bin", "clubcard-priority/filter",
                  "clubcard-priority/filter.delta", "clubcard-priority/revset.bin"):
            if f"{run}/{n}" not in o:
                return f"{n} is not stored"
            p = os.path.join(local, n)
            if not os.path.exists(p) or open(p, encoding="latin-1").read() != o[f"{run}/{n}"]:
                return f"{n} is not what was generated"
        f = o[f"{run}/clubcard-all/filter"]
        if not f.endswith(f"of {o[run + '/known/issuer']}, {o[run + '/ct-logs.json']}"):
            return "the filter is not built from the stored source data"


def pipeline(second):
    def run(x):
        p = Pipe(x)
        try:
            if x.pick("before", ["nothing", "one run"]) == "one run":
                p.faulty = False
                rc = p.run("2024-01-15T04:00:00")
                p.faulty = True
                if rc != 0:
                    x.fail("clean-run-fails", f"a run without failures ends with {rc}: {open(os.path.join(p.dir, 'log')).read()[-600:]}")
                    return
            rc = p.run("2024-01-15T10:00:00")
            check_exit(p, x, rc, 1)
            if second and not x.violations:
                if x.pick("local disk afterwards", ["kept", "fresh"]) == "fresh":
                    subprocess.run(["chmod", "-R", "u+w", os.path.join(p.dir, "processing")])
                    shutil.rmtree(os.path.join(p.dir, "processing"))
                    os.mkdir(os.path.join(p.dir, "processing"))
                    p.snap_local = True
                    p.incomplete = lambda run: None  # what was generated is gone; stored runs must merely not change
                p.faulty = False
                before = {n.split("/")[0] for n in p.objects}
                rc = p.run("2024-01-15T16:00:00")
                if rc != 0:
                    x.fail("next-run-fails", f"the run after the failure ends with {rc}: {open(os.path.join(p.dir, 'log')).read()[-600:]}")
                    return
                new = {n.split("/")[0] for n in p.objects} - before
                check_exit(p, x, rc, len(new))
                if not any(f"{n}/completed" in p.objects for n in new):
                    x.fail("no-new-run", "the run after the failure stored no new completed run")
            x.outcome = f"exit {rc}, " + " ".join(sorted(n for n in p.objects if n.endswith("completed")))
        finally:
            p.close()
    return run


def check_exit(p, x, rc, _):
    runs = sorted({n.split("/")[0] for n in p.objects if n[:1] == "2"}, key=rid)
    if rc == 0 and not (runs and f"{runs[-1]}/completed" in p.objects):
        x.fail("success-without-completion", f"the job ends with success but the newest run {runs[-1:]} is not marked completed")
    check_deltas(p, x)


def check_deltas(p, x):
    """the delta of a completed run follows the run stored before it, for each kind of filter (or follows nothing)"""
    done = sorted({n.split("/")[0] for n in p.objects if n.endswith("/completed")}, key=rid)
    for a, b in zip(done, done[1:]):
        between = [r for r in {n.split("/")[0] for n in p.objects if n[:1] == "2"} if rid(a) < rid(r) < rid(b)]
        for d in ("clubcard-all", "clubcard-priority"):
            after = p.objects[f"{b}/{d}/filter.delta"].split(" after ", 1)[1]
            ok = {"None"} | {p.objects[f"{r}/{d}/revset.bin"] for r in [a] + between if f"{r}/{d}/revset.bin" in p.objects}
            if after not in ok:
                x.fail("delta-of-another-kind", f"the {d} delta of {b} was computed against {after!r}, the run before is {a} with {p.objects[f'{a}/{d}/revset.bin']!r}")


def layout(x):
    """the run layout that C19 assumes is the one the scripts produce (conformance of the model); nothing is stored when uploads are turned off"""
    p = Pipe(x)
    try:
        p.faulty = False
        noup = x.pick("DoNotUpload", [False, True])
        for i in range(3):
            rc = p.run(f"2024-01-15T0{3 * i}:00:00", noup)
            if rc != 0:
                x.fail("clean-run-fails", f"a run without failures ends with {rc}: {open(os.path.join(p.dir, 'log')).read()[-600:]}")
                return
        if noup:
            if p.writes:
                x.fail("stored-with-uploads-off", str(p.writes[:3]))
            x.outcome = "nothing stored"
            return
        runs = sorted({n.split("/")[0] for n in p.objects if n[:1] == "2"}, key=rid)
        if runs != ["20240115-0", "20240115-1", "20240115-2"]:
            x.fail("identifiers", f"three runs of a day are stored as {runs}")
            return
        for r in runs:
            if f"{r}/completed" not in p.objects:
                x.fail("not-completed", f"{r} is not marked completed after a run without failures")
        check_deltas(p, x)
        for a, b in zip(runs, runs[1:]):
            for d in ("clubcard-all", "clubcard-priority"):
                if p.objects[f"{b}/{d}/filter.delta"].endswith("after None"):
                    x.fail("delta-of-nothing", f"the {d} delta of {b} does not use the run before it")
        # the model of C19
        w = PWorld(x, start="2024-01-15T00:00:00")
        w.gcs[BUCKET] = {}
        w.gen(runs[0], "2024-01-15T00:00:00")
        model = set(w.gcs[BUCKET]) - {runs[0] + "/known/x"}
        w.close()
        missing = [n for n in model if n not in p.objects]
        if missing:
            x.fail("model-layout", f"the scripts do not store {missing}")
        o = [n for n in p.writes if n.startswith(runs[0])]
        if o[-1] != runs[0] + "/completed":
            x.fail("marker-not-last", f"objects stored after the marker: {o[-3:]}")
        x.outcome = f"{len(p.objects)} objects"
    finally:
        p.close()


SCENARIOS = [
    Scenario("allocation", allocation(2)),
    Scenario("allocation-larger", allocation(4), thorough=True),
    Scenario("allocation-faults", allocation_faults, {"fault": 1, "crash": 1}, 1),
    Scenario("ordering", ordering),
    Scenario("readers", readers(3)),
    Scenario("readers-more", readers(4), thorough=True),
    Scenario("layout", layout),
    Scenario("pipeline", pipeline(True), {"fault": 1}),
    Scenario("pipeline-pairs", pipeline(False), {"fault": 2}, thorough=True),
]
