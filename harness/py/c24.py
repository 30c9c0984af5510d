"""C24: signing off (containers/scripts/crlite-signoff-tool.py and crlite-signoff.sh)."""
import os, shutil, subprocess, sys
import world
from world import World, std_faults
from explore import Scenario
from c22 import run_script, setup

REPO = os.environ.get("VERIF_REPO", "/repo")
SCRIPTS = os.path.join(REPO, "containers/scripts")
CONFIG = {"KINTO_CRLITE_COLLECTION": "cert-revocations", "KINTO_INTERMEDIATES_COLLECTION": "intermediates", "KINTO_BUCKET": "security-state-staging",
          "KINTO_NOOP": None, "statsdHost": None, "KINTO_RW_SERVER_URL": "https://kinto.example/v1/"}
STATUS = ("to-review", "work-in-progress", "signed", "to-sign", "to-rollback", "to-resign", "TO-REVIEW", "")


class Env:
    """environment variables of one run"""

    def __init__(self, **kw):
        self.v = dict(CONFIG, **kw)

    def __enter__(self):
        self.old = {k: os.environ.get(k) for k in self.v}
        for k, v in self.v.items():
            os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, v)


def new_world(x):
    w = World(x)
    w.edits, w.got, w.signings = {}, {}, []

    def answer(name, r):
        w.got[name] = w.edits.get(name, 0)
        return r

    def signed(name):
        w.signings.append(name)
        if w.collection(name)["status"] != "to-review":
            x.fail("signed-unreviewed", f"{name} was signed while {w.collection(name)['status']!r}")
        elif w.got.get(name) != w.edits.get(name, 0):
            x.fail("signed-changed-content", f"{name} was changed after its status was read, and signed all the same")

    w.answer, w.signed = answer, signed
    return w


def others(w, x, names):
    """what publisher and reviewers may do between two requests"""
    def edit(n, status):
        def f():
            w.touch(n)
            w.edits[n] = w.edits.get(n, 0) + 1
            w.collection(n)["status"] = status
        return f
    acts = []
    for n in names:
        acts += [(f"records of {n} change", edit(n, "work-in-progress")), (f"records of {n} change and wait for review again", edit(n, "to-review")), (f"review of {n} is declined", edit(n, "work-in-progress")),
                 (f"{n} is signed by another", edit(n, "signed"))]

    def on_op(kind, name):
        i = x.choose("before " + name, [("nothing", None)] + [(d, "env") for d, _ in acts])
        if i:
            acts[i - 1][1]()
    w.on_op = on_op


def judge(x, w, code, arg, target, before, disturbed, noop=False):
    muts = [r for r in w.requests]
    if noop or target is None:
        if muts:
            x.fail("changes-without-being-asked", f"{arg}{' (noop)' if noop else ''}: {muts}")
    for n in w.signings:
        if n != target:
            x.fail("signed-another-collection", f"asked for {arg}, signed {n}")
    for n, c in w.kinto.items():
        if c["status"] != before.get(n, {}).get("status") and n not in w.signings and not disturbed:
            x.fail("status-changed", f"{n} went from {before[n]['status']!r} to {c['status']!r}")
    if target is None:
        if code == 0:
            x.fail("failure-not-reported", f"exit 0 for the unknown collection {arg!r}")
    elif not noop and not disturbed:
        if before[target]["status"] == "to-review":
            if target not in w.signings or code != 0:
                x.fail("not-signed", f"{target} waits for review, was {'signed' if target in w.signings else 'not signed'}; exit {code}")
        elif code != 0 or muts:
            x.fail("touched-unreviewed", f"{target} is {before[target]['status']!r}: exit {code}, {muts}")
    x.outcome = f"{code} {w.signings}"


def place(w, x, names, statuses=STATUS[:3], all_of=None):
    for n in names:
        c = w.collection(n)
        w.stamp += 1
        c["status"], c["last_modified"] = x.pick(f"{n} is", statuses if n == all_of else statuses[:3] if all_of is None else STATUS[:2]), w.stamp
    return {n: dict(w.collection(n)) for n in names}


def tool(x, w, *argv, **env):
    with Env(**env):
        return run_script(w, os.path.join(SCRIPTS, "crlite-signoff-tool.py"), *argv)[0]


ARGS = {"cert-revocations": "KINTO_CRLITE_COLLECTION", "intermediates": "KINTO_INTERMEDIATES_COLLECTION"}


def states(x):
    w = new_world(x)
    env = {"KINTO_CRLITE_COLLECTION": x.pick("revocations collection", ("cert-revocations", "other-revocations")), "KINTO_INTERMEDIATES_COLLECTION": x.pick("intermediates collection", ("intermediates", "other-intermediates"))}
    arg = x.pick("argument", ("cert-revocations", "intermediates", "other-revocations", "plugins"))
    target = env.get(ARGS.get(arg, ""))
    before = place(w, x, sorted(set(env.values()) | {"cert-revocations", "intermediates"}), STATUS, target or "none")
    how = x.pick("noop", (None, "--noop", "KINTO_NOOP"))
    if how == "KINTO_NOOP":
        env["KINTO_NOOP"] = "yes"
    if x.pick("statsd", (False, True)):
        env["statsdHost"] = "statsd.example"
    code = tool(x, w, arg, *(["--noop"] if how == "--noop" else []), **env)
    judge(x, w, code, arg, target, before, False, noop=bool(how))
    w.close()


def malformed(x):
    w = new_world(x)
    before = place(w, x, ("cert-revocations", "intermediates"), STATUS[:2])
    arg = x.pick("argument", tuple(ARGS))
    form = x.pick("answer", ("no data", "null data", "no status", "null status", "status of another type"))
    base = w.answer

    def answer(n, r):
        r = base(n, r)
        if form == "no data":
            return {}
        if form == "null data":
            return {"data": None}
        if form == "no status":
            del r["data"]["status"]
        elif form == "null status":
            r["data"]["status"] = None
        else:
            r["data"]["status"] = ["to-review"]
        return r
    w.answer = answer
    code = tool(x, w, arg)
    if w.requests:
        x.fail("signed-unreviewed", f"{form}: {w.requests}")
    if code == 0 and form != "status of another type":
        x.fail("failure-not-reported", f"exit 0 although the answer of Kinto had {form}")
    x.outcome = f"{code} {form}"
    w.close()


def schedules(x):
    """faults and other parties' actions around the two requests"""
    w = new_world(x)
    names = ("cert-revocations", "intermediates")
    before = place(w, x, names)
    arg = x.pick("argument", names)
    w.faults = std_faults(gcs=False)
    others(w, x, names)
    code = tool(x, w, arg)
    disturbed = bool(x.spent)
    judge(x, w, code, arg, arg, before, disturbed)
    if code == 0 and x.spent.get("fault"):
        x.fail("failure-not-reported", f"exit 0 although a request failed; signed {w.signings}")
    if code == 0 and w.got.get(arg) is None:
        x.fail("failure-not-reported", "exit 0 although the status was never read")
    if x.spent.get("crash"):
        w.restart()
    # once more, undisturbed: what waits is signed, the rest is left alone
    w.faults, w.on_op = (lambda k, n: ()), None
    st = {n: dict(w.collection(n)) for n in names}
    del w.signings[:], w.requests[:]
    code = tool(x, w, arg)
    judge(x, w, code, arg, arg, st, False)
    x.outcome += f" {sorted((n, c['status']) for n, c in st.items())}"
    w.close()


FAKE = '''#!/bin/bash
echo "$(basename "$1") $2" >> "$VERIF_CALLS"
[ "$2" = intermediates ] && exit ${VERIF_RC_I:-0}
exit ${VERIF_RC_C:-0}
'''
MAX = 10485760


def script(x):
    """the shell script: which collections it has signed off, for every size of the filter"""
    w = World(x)
    d = w.dir
    bindir = os.path.join(d, "bin")
    os.makedirs(os.path.join(d, "wf"))
    os.makedirs(os.path.join(d, "proc", "crlite_db"))
    os.makedirs(os.path.join(d, "app"))
    os.makedirs(bindir)
    os.symlink(SCRIPTS, os.path.join(d, "app", "scripts"))
    open(os.path.join(d, "wf", "0-set_credentials.inc"), "w").close()
    with open(os.path.join(bindir, "python3"), "w") as f:
        f.write(FAKE)
    os.chmod(os.path.join(bindir, "python3"), 0o755)
    limit = x.pick("max_filter_size", (None, "1000", "0"))
    top = MAX if limit is None else int(limit)
    bucket = x.pick("bucket", ("crlite-filters-prod", "crlite-filters-stage", "crlite-filters-dev", "crlite_filters_staging", ""))
    rci, rcc = x.pick("intermediates exit", (0, 1)), x.pick("revocations exit", (0, 1))
    size = x.pick("size of the filter", (top, 0, 1, top - 1, top + 1, 2 * top, 2 ** 31 + 5, 10 ** 12, "missing"))
    if size != "missing":
        with open(os.path.join(d, "proc", "crlite_db", "crlite.filter"), "wb") as f:
            if size > 0:
                f.truncate(size)
            else:
                size = 0
    env = {"PATH": bindir + ":/usr/bin:/bin", "HOME": d, "crlite_workflow": os.path.join(d, "wf"), "crlite_bin": os.path.join(d, "app"), "crlite_processing": os.path.join(d, "proc"),
           "crlite_filter_bucket": bucket, "VERIF_CALLS": os.path.join(d, "calls"), "VERIF_RC_I": str(rci), "VERIF_RC_C": str(rcc)}
    if limit is not None:
        env["max_filter_size"] = limit
    p = subprocess.run(["/bin/bash", os.path.join(SCRIPTS, "crlite-signoff.sh")], env=env, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    calls = open(os.path.join(d, "calls")).read().split("\n")[:-1] if os.path.exists(os.path.join(d, "calls")) else []
    x.step(f"size {size} limit {limit} {bucket}: {calls} exit {p.returncode}")
    want = ["crlite-signoff-tool.py intermediates", "crlite-signoff-tool.py cert-revocations"]
    if bucket not in ("crlite-filters-prod", "crlite-filters-stage", "crlite-filters-dev"):
        if calls or p.returncode == 0:
            x.fail("unknown-instance", f"bucket {bucket!r}: {calls}, exit {p.returncode}")
    else:
        for c in calls:
            if c not in want:
                x.fail("signed-another-collection", f"called {c}")
        revs = want[1] in calls
        if size == "missing":
            if revs:
                x.fail("signed-without-size", f"the size of the filter could not be determined ({p.stdout.decode()[:120]!r}) and cert-revocations is signed off all the same")
        elif size > top:
            if revs:
                x.fail("signed-too-large", f"a filter of {size} bytes is signed off, the limit is {top}")
            if p.returncode == 0:
                x.fail("failure-not-reported", f"exit 0 although the filter of {size} bytes was not signed off")
        else:
            if not revs:
                x.fail("not-signed", f"a filter of {size} bytes (limit {top}) is not signed off: {p.stdout.decode()[:200]}")
            elif rcc and p.returncode == 0:
                x.fail("failure-not-reported", "exit 0 although signing off cert-revocations failed")
            elif not rcc and p.returncode:
                x.fail("script-fails", f"exit {p.returncode}: {p.stdout.decode()[-200:]}")
        if want[0] not in calls:
            x.fail("not-signed", "intermediates are not signed off")
    x.outcome = f"{p.returncode} {len(calls)}"
    w.close()


SCENARIOS = [
    Scenario("states", states),
    Scenario("malformed", malformed),
    Scenario("schedules", schedules, {"env": 1, "fault": 1, "crash": 1}, total=2),
    Scenario("script", script),
    Scenario("schedules-deep", schedules, {"env": 3, "fault": 1, "crash": 1}, total=4, thorough=True),
]
RULE = ("every execution runs the repository's own sign-off tool against a Kinto server in memory whose collections other parties may change between any two requests, or its own shell script with the tool replaced by a recorder; "
        "at the moment a collection turns signed it must have been waiting for review, unchanged since its status was read")
ASSUME = ["Kinto refuses a conditional change of a collection that was modified since (If-Match), as the kinto_http client asks it to when given the original",
          "editing a record takes its collection back to work-in-progress, as the signer plugin does"]
