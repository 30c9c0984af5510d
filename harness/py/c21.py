"""C21: the published CT log list matches the source list."""
import base64
from publisher import *
from explore import Scenario

RULE = ("Each execution runs the real publisher's main() against an in-memory Kinto server and web with an enumerated source list and an enumerated state of the ct-logs collection, with enumerated failures and crashes; "
        "an independent reader compares the collection with the source list after every run, and the enrolment flags after every change.")
ASSUME = ["one publisher runs at a time; Kinto requests are atomic and a collection's status returns to work-in-progress with every change",
          "the source list has the documented shape: every log has a state, and operators have both kinds of lists"]

ADMISSIBLE = ("qualified", "usable", "readonly", "retired")
STATES = ADMISSIBLE + ("pending", "rejected")


def key(name):
    return base64.b64encode(b"key of " + name.encode()).decode()


def log_id(name):
    return base64.b64encode(hashlib.sha256(b"key of " + name.encode()).digest()).decode()


def upstream(name, kind="rfc", state="usable", **k):
    d = {"description": "Log " + name, "log_id": log_id(name), "key": key(name), "mmd": 86400, "state": {state: {"timestamp": "2024-01-01T00:00:00Z"}},
         "temporal_interval": {"start_inclusive": "2024-01-01T00:00:00Z", "end_exclusive": "2025-01-01T00:00:00Z"}}
    if kind == "rfc":
        d["url"] = f"https://{name}.example/"
    else:
        d.update(submission_url=f"https://{name}.example/submit/", monitoring_url=f"https://{name}.example/tiles/")
    d.update(k)
    return d


def want_record(u, kind, operator, enrolled):
    return {"admissible": any(s in ADMISSIBLE for s in u["state"]), "crlite_enrolled": enrolled, "description": u["description"], "key": u["key"], "logID": u["log_id"], "mmd": u["mmd"],
            "operator": operator, "tiled": kind == "tiled", "url": u["url"] if kind == "rfc" else u["monitoring_url"]}


class LWorld(PWorld):
    def __init__(self, x, logs):
        """logs: list of (operator, kind, upstream entry)"""
        super().__init__(x, start="2024-01-02T00:00:00")
        self.gen("20240101-0", "2024-01-01T00:00:00")
        for s in CHANNELS:
            place_chain(self, s, ["20240101-0"], {"20240101-0": "2024-01-01T00:00:00"})
        self.set_list(logs)
        self.monitor = self.on_change
        self.flags = {}

    def set_list(self, logs):
        self.logs = logs
        ops = {}
        for o, k, u in logs:
            ops.setdefault(o, {"name": o, "email": [], "logs": [], "tiled_logs": []})["logs" if k == "rfc" else "tiled_logs"].append(u)
        self.web[CTLOGS] = json.dumps({"version": "1", "operators": list(ops.values())}).encode()

    def known(self, rec):
        self.put_record(LOGS, rec)
        self.flags[rec["logID"]] = rec["crlite_enrolled"]

    def on_change(self):
        seen = set()
        for r in self.collection(LOGS)["records"].values():
            i = r.get("logID")
            if i in seen:
                self.x.fail("duplicate", f"two records of log {i[:8]}")
            seen.add(i)
            if r.get("crlite_enrolled") is not self.flags.setdefault(i, True):
                self.x.fail("enrolment-changed", f"the enrolment flag of log {i[:8]} became {r.get('crlite_enrolled')!r}")
        listed = {u["log_id"] for _, _, u in self.logs}
        for i in self.there & listed:
            if i not in seen:
                self.x.fail("listed-log-removed", f"log {i[:8]} is in the source list and its record was removed")

    def start(self):
        self.collection(LOGS)["status"] = "signed"
        self.there = {r["logID"] for r in self.collection(LOGS)["records"].values()}

    def mismatch(self):
        return next(iter(self.mismatches()), None)

    def mismatches(self):
        """one line for every log whose record is wrong"""
        want = {u["log_id"]: want_record(u, k, o, self.flags.get(u["log_id"], True)) for o, k, u in self.logs}
        got = {}
        for r in self.collection(LOGS)["records"].values():
            got[r["logID"]] = {k: r.get(k) for k in ("admissible", "crlite_enrolled", "description", "key", "logID", "mmd", "operator", "tiled", "url")}
        if len(got) != len(self.collection(LOGS)["records"]):
            yield "two records of one log"
        for i in sorted(want.keys() | got.keys()):
            if i not in got:
                yield f"log {want[i]['description']} is missing"
            elif i not in want:
                yield f"log {got[i]['description']} is not in the source list"
            else:
                for f in want[i]:
                    if want[i][f] != got[i][f] or type(want[i][f]) is not type(got[i][f]):
                        yield f"{f} of {want[i]['description']} is {got[i][f]!r}, the source says {want[i][f]!r}"
                        break


def clean(w, x, idem=True):
    w.faults = lambda k, n: ()
    e = w.run_main()
    if e is not None:
        x.fail("clean-run-fails", f"the publisher fails although nothing failed around it: {type(e).__name__}: {e}")
        return
    bad = w.mismatch()
    if bad:
        x.fail("mismatch-after-clean-run", "after a clean run " + bad)
        return
    if w.collection(LOGS)["status"] == "work-in-progress":
        x.fail("no-review", "the collection was changed, but review was not asked for")
    if idem:
        n = len(w.requests)
        w.run_main()
        if [r for r in w.requests[n:] if LOGS in r]:
            x.fail("not-idempotent", f"a second run made changes: {w.requests[n:][:3]}")


DIFFS = {"description": "Old name", "key": "a2V5", "url": "https://old.example/", "mmd": 1, "admissible": None, "operator": "Old operator", "tiled": None}
UP = ["absent"] + [("rfc", s) for s in STATES] + [("tiled", "usable"), ("tiled", "pending")]
KNOWN = ["absent", "same", "not enrolled", "no tiled field", "extra field"] + ["old " + d for d in DIFFS] + ["all old, not enrolled"]


def place(x, w, name, u, kind, op, form):
    if form == "absent":
        return
    if u is None:
        u, kind = upstream(name), "rfc"
    r = want_record(u, kind, op, True)
    if form in ("not enrolled", "all old, not enrolled"):
        r["crlite_enrolled"] = False
    if form == "no tiled field":
        del r["tiled"]
    if form == "extra field":
        r["schema"] = 1
    for d, v in DIFFS.items():
        if form == "old " + d or form.startswith("all old"):
            r[d] = (not r[d]) if v is None else v
    w.known(r)


def pairs(names, ups, known):
    def run(x):
        logs, pos = [], {}
        for n in names:
            k = x.pick(f"source {n}", ups)
            op = "Operator " + n
            if k != "absent":
                u = upstream(n, k[0], k[1])
                logs.append((op, k[0], u))
                pos[n] = (u, k[0], op)
            else:
                pos[n] = (None, None, op)
        w = LWorld(x, logs)
        try:
            fs = []
            for n in names:
                f = x.pick(f"record {n}", known)
                fs.append(f)
                place(x, w, n, *pos[n][:3], f) if pos[n][0] else place(x, w, n, None, None, pos[n][2], f)
            w.start()
            clean(w, x)
            x.outcome = f"{len(logs)}: " + ", ".join(sorted(fs))
        finally:
            w.close()
    return run


def shapes(x):
    """operators, orders and odd logs"""
    a, b, c = upstream("a"), upstream("b", "tiled"), upstream("c", state="rejected")
    name = x.pick("list", ["two of one operator", "a log of each kind", "operator without logs", "several states", "empty", "unicode", "zero mmd", "float mmd", "log_type"])
    logs = {"two of one operator": [("O", "rfc", a), ("O", "rfc", upstream("b"))], "a log of each kind": [("O", "rfc", a), ("O", "tiled", b), ("P", "rfc", c)],
            "operator without logs": [("O", "rfc", a)], "several states": [("O", "rfc", upstream("a", state={"usable": {}, "rejected": {}} and "usable"))], "empty": [],
            "unicode": [("Opérateur", "rfc", upstream("a", description="Journal « é »"))], "zero mmd": [("O", "rfc", upstream("a", mmd=0))], "float mmd": [("O", "rfc", upstream("a", mmd=1.5))],
            "log_type": [("O", "rfc", upstream("a", log_type="test"))]}[name]
    if name == "several states":
        logs[0][2]["state"] = {"rejected": {}, "retired": {}}
    w = LWorld(x, logs)
    try:
        if name == "operator without logs":
            d = json.loads(w.web[CTLOGS])
            d["operators"].insert(0, {"name": "Q", "email": [], "logs": [], "tiled_logs": []})
            w.web[CTLOGS] = json.dumps(d).encode()
        if x.pick("published before", [False, True]):
            for o, k, u in logs:
                w.known(want_record(u, k, o, x.pick("enrolled", [True, False])))
        if x.pick("another log published", [False, True]):
            w.known(want_record(upstream("z"), "rfc", "Z", True))
        w.start()
        clean(w, x)
        x.outcome = name
    finally:
        w.close()


def refused(x):
    """lists that contradict themselves change nothing"""
    a = upstream("a")
    odd = x.pick("list", ["a log twice", "a log in both kinds", "wrong log ID", "wrong log ID of the last", "not JSON", "an error page", "no operators", "known twice"])
    logs = [("O", "rfc", a), ("P", "rfc", upstream("b"))]
    if odd == "a log twice":
        logs.append(("P", "rfc", upstream("a", description="again")))
    if odd == "a log in both kinds":
        logs.append(("P", "tiled", upstream("a", "tiled")))
    if odd == "wrong log ID":
        logs[0][2]["log_id"] = log_id("other")
    if odd == "wrong log ID of the last":
        logs[1][2]["log_id"] = log_id("other")
    w = LWorld(x, logs)
    try:
        if odd == "not JSON":
            w.web[CTLOGS] = b'{"operators": [{"name": "O", "lo'
        if odd == "an error page":
            w.web[CTLOGS] = (500, b"<html>")
        if odd == "no operators":
            w.web[CTLOGS] = b"{}"
        for r in x.pick("published", [[], ["z"], ["a", "z"]]):
            w.known(want_record(upstream(r), "rfc", "Z", True))
        if odd == "known twice":
            for i in range(2):
                w.put_record(LOGS, want_record(upstream("y"), "rfc", "Z", True))
            w.flags[log_id("y")] = True
        w.start()
        w.monitor = None
        w.run_main()
        ch = [r for r in w.requests if LOGS in r]
        if ch:
            x.fail("changed-on-bad-list", f"{odd}: the collection was changed: {ch[:3]}")
        x.outcome = odd
    finally:
        w.close()


STARTS = {
    "first": ([("a", "same", None), ("b", "same", None)], []),
    "one added": ([("a", "same", None), ("b", "same", None)], ["a"]),
    "one gone": ([("a", "same", None)], ["a", "b"]),
    "one changed": ([("a", "same", None)], ["a old"]),
    "added, gone, changed": ([("a", "same", None), ("b", "same", None)], ["a old", "z"]),
    "two changed, not enrolled": ([("a", "same", None), ("b", "same", None)], ["a off", "b off"]),
    "nothing": ([("a", "same", None)], ["a"]),
}


def faults(depth):
    def run(x):
        name = x.pick("start", list(STARTS))
        src, known = STARTS[name]
        logs = [("O", "rfc" if n == "a" else "tiled", upstream(n, "rfc" if n == "a" else "tiled")) for n, _, _ in src]
        w = LWorld(x, logs)
        try:
            for k in known:
                n, *form = k.split(" ")
                kind = "rfc" if n in ("a", "z") else "tiled"
                r = want_record(upstream(n, kind), kind, "O", form != ["off"])
                if form:
                    r["description"], r["mmd"] = "old", 7
                w.known(r)
            w.start()
            w.faults = std_faults(only=lambda k, n: LOGS in n or "log_list" in n)
            for i in range(depth):
                before = sum(x.spent.values())
                e = w.run_main()
                refused = sum(x.spent.values()) - before
                # a change that the server refuses is left for the next run; it must not take others along
                bad = list(w.mismatches()) if e is None else []
                if len(bad) > refused:
                    x.fail("success-with-mismatch", f"{refused} changes were refused, a run that reported success left more undone: " + "; ".join(bad))
            if x.violations:
                return
            clean(w, x, idem=False)
            x.outcome = name
        finally:
            w.close()
    return run


def changing(length):
    """the source list changes from run to run; flags are changed by hand in between"""
    def run(x):
        w = LWorld(x, [])
        try:
            w.start()
            opts = ["absent", ("rfc", "usable"), ("rfc", "retired"), ("tiled", "usable"), ("rfc", "rejected")]
            for step in range(length):
                logs = []
                for n in ("a", "b"):
                    k = x.pick(f"source {n} at run {step}", opts)
                    if k != "absent":
                        logs.append(("O", k[0], upstream(n, *k)))
                w.set_list(logs)
                clean(w, x, idem=False)
                if x.violations:
                    return
                recs = list(w.collection(LOGS)["records"].values())
                ids = {r["logID"] for r in recs}
                for i in list(w.flags):
                    if i not in ids:
                        del w.flags[i]
                for r in recs:
                    if r["logID"] == log_id("a") and x.pick("a reviewer turns the enrolment of a", ["no", "around"]) == "around":
                        r["crlite_enrolled"] = not r["crlite_enrolled"]
                        w.flags[r["logID"]] = r["crlite_enrolled"]
                w.there = ids
            x.outcome = str(sorted((r["description"], r["tiled"], r["admissible"], r["crlite_enrolled"]) for r in recs))
        finally:
            w.close()
    return run


def noop(x):
    name = x.pick("start", list(STARTS))
    src, known = STARTS[name]
    w = LWorld(x, [("O", "rfc", upstream(n)) for n, _, _ in src])
    try:
        for k in known:
            n, *form = k.split(" ")
            r = want_record(upstream(n), "rfc", "O", True)
            if form:
                r["mmd"] = 1
            w.known(r)
        w.start()
        e = w.run_main("--noop")
        if w.requests or e is not None:
            x.fail("noop-changes", f"{name}: --noop: {e} {w.requests[:3]}")
        x.outcome = name
    finally:
        w.close()


SCENARIOS = [
    Scenario("one", pairs(["a"], UP + [("tiled", s) for s in STATES if ("tiled", s) not in UP], KNOWN)),
    Scenario("two", pairs(["a", "b"], UP, KNOWN)),
    Scenario("three", pairs(["a", "b", "c"], ["absent", ("rfc", "usable"), ("tiled", "retired"), ("rfc", "pending")], ["absent", "same", "not enrolled", "old url", "all old, not enrolled"]), thorough=True),
    Scenario("shapes", shapes),
    Scenario("refused", refused),
    Scenario("changing", changing(2)),
    Scenario("changing-longer", changing(3), thorough=True),
    Scenario("noop", noop),
    Scenario("faults", faults(1), {"fault": 1, "crash": 1}, 1),
    Scenario("fault-pairs", faults(2), {"fault": 2, "crash": 1}, 2),
    Scenario("fault-triples", faults(2), {"fault": 3, "crash": 1}, 3, thorough=True),
]
