"""Shared by C19-C21: runs the real publisher against the world, and an independent reading of what it published."""
import datetime, hashlib, json, os, sys
from pathlib import Path
import world
from world import World, Crash, std_faults

BUCKET = "filters"
CTLOGS = "https://www.gstatic.com/ct/log_list/v3/log_list.json"
REVS, INTS, LOGS = "cert-revocations", "intermediates", "ct-logs"
CHANNELS = {"default": ("clubcard-all", 45), "compat": ("clubcard-priority", 45)}
UTC = datetime.timezone.utc
main = None


def setup():
    global main
    if main is None:
        main = world.load_publisher()
    return main


def t(s):
    return datetime.datetime.fromisoformat(s).replace(tzinfo=UTC)


class PWorld(World):
    def __init__(self, x, **k):
        setup()
        super().__init__(x, **k)
        self.latest = None
        self.runs = {}  # id -> outcome
        self.web[CTLOGS] = json.dumps({"operators": []}).encode()
        self.put_object(BUCKET, "latest/nothing", b"")
        self.bad_reviews = []
        self.check_review = None

    def reviewed(self, coll):
        if self.check_review:
            self.check_review(coll)

    # ---- the run generator: what the workflow scripts leave in the bucket (the layout is checked against the real
    # scripts by C22)
    def gen(self, run, ts, outcome="complete", enrolled=b"[]"):
        o = lambda n, b: self.put_object(BUCKET, f"{run}/{n}", b)
        self.runs[run] = outcome
        if outcome == "nothing":
            return
        if outcome == "only enrolled.json":
            o("enrolled.json", enrolled)
            return
        if outcome != "no timestamp":
            o("timestamp", ts.encode())
        o("enrolled.json", enrolled)
        o("known/x", b"k")
        if outcome != "no ct-logs.json":
            o("ct-logs.json", b"[]")
        if outcome == "source only":
            return
        prev = self.latest
        if outcome != "no filters":
            for d in ("clubcard-all", "clubcard-priority"):
                if d == "clubcard-priority" and outcome in ("no priority", "no priority, unmarked"):
                    continue
                o(d + "/filter", filter_bytes(d, run))
                if outcome != "no deltas":
                    o(d + "/filter.delta", delta_bytes(d, prev, run))
                o(d + "/revset.bin", b"r")
                if d == "clubcard-all" and outcome == "no latest, unmarked":
                    return
            self.latest = run
        if "unmarked" in outcome:
            return
        o("completed", b"Upload completed")

    def run_main(self, *extra, args=None):
        """one execution of the publisher; returns None, the exception that ended it, or 'crash'."""
        self.restart()
        argv = sys.argv
        sys.argv = ["main.py", "--filter-bucket", BUCKET, "--download-path", self.dir] + list(extra) if args is None else ["main.py"] + args
        try:
            main.main()
            return None
        except Crash:
            return "crash"
        except SystemExit as e:
            return e if e.code else None
        except Exception as e:
            return e
        finally:
            self.dead = False
            sys.argv = argv

    def channel(self, slug):
        return [r for r in self.collection(REVS)["records"].values() if r.get("channel", "default") == slug]


def filter_bytes(d, run):
    return f"filter {d} {run}".encode()


def delta_bytes(d, prev, run):
    return f"delta {d} {prev} {run}".encode()


def rid(s):
    a, b = s.split("-")
    return (a, int(b))


def chain_of(w, slug, recs=None, complete=None):
    """Reads a channel's records: returns (runs from base to tip, None) or (None, what is wrong). Independent of the
    publisher: one base, every delta linked to exactly one predecessor, in run order with no run left out, every
    attachment the artifact of the run it is named after."""
    d, _ = CHANNELS.get(slug, ("clubcard-all", 0))
    recs = w.channel(slug) if recs is None else recs
    if not recs:
        return [], None
    if any("incremental" not in r for r in recs):
        return None, "a record that is neither a base filter nor a delta"
    bases = [r for r in recs if not r["incremental"]]
    if len(bases) != 1:
        return None, f"{len(bases)} base filters"
    nxt = {}
    for r in recs:
        if not r["incremental"]:
            continue
        if r.get("parent") in nxt:
            return None, "two deltas with one parent"
        nxt[r.get("parent")] = r
    path, cur = [], bases[0]
    while cur is not None:
        path.append(cur)
        cur = nxt.pop(cur["id"], None)
    if nxt:
        return None, f"{len(nxt)} deltas not linked to the base filter"
    runs = []
    for i, r in enumerate(path):
        a = r.get("attachment")
        if not a:
            return None, f"record {i} of the chain has no attachment"
        run = a["filename"].split("-" + slug)[0]
        body = w.attachments.get(a["location"])
        want = filter_bytes(d, run) if i == 0 else None
        if i == 0 and body != want:
            return None, f"the base filter's attachment is {body!r}"
        if i > 0 and body not in (delta_bytes(d, runs[-1], run), delta_bytes(d, None, run)):
            return None, f"delta {i} ({run}) after {runs[-1]} carries {body!r}"
        if i > 0 and not rid(runs[-1]) < rid(run):
            return None, f"run {run} after {runs[-1]}"
        runs.append(run)
    return runs, None


def record_details(w, slug, r):
    """what a record says about itself must be right; returns a complaint or None."""
    a = r["attachment"]
    run = a["filename"].split("-" + slug)[0]
    inc = r["incremental"]
    ts = w.objects(BUCKET).get(run + "/timestamp")
    if ts is None:
        return None
    ts = datetime.datetime.fromisoformat(ts.decode()).replace(tzinfo=UTC)
    want = {"effectiveTimestamp": int(ts.timestamp() * 1000), "details": {"name": ts.isoformat(timespec="seconds") + ("Z-diff" if inc else "Z-full")}, "channel": slug,
            "filter_expression": f"env.version|versionCompare('133.!') >= 0 && '{slug}' == 'security.pki.crlite_channel'|preferenceValue('none')"}
    for k, v in want.items():
        if k == "channel" and slug == "default" and k not in r:
            continue
        if r.get(k) != v:
            return f"{k} is {r.get(k)!r}, expected {v!r}"
    if a["filename"] != f"{run}-{slug}.filter" + (".delta" if inc else "") or a["mimetype"] != "application/x-protobuf":
        return f"attachment {a['filename']} {a['mimetype']}"
    return None


def base_record(slug, run, ts, **k):
    r = {"details": {"name": t(ts).isoformat(timespec="seconds") + "Z-full"}, "incremental": False, "effectiveTimestamp": int(t(ts).timestamp() * 1000), "coverage": [], "enrolledIssuers": [],
         "channel": slug, "filter_expression": f"env.version|versionCompare('133.!') >= 0 && '{slug}' == 'security.pki.crlite_channel'|preferenceValue('none')"}
    r.update(k)
    return r


def delta_record(slug, run, ts, parent, **k):
    r = {"details": {"name": t(ts).isoformat(timespec="seconds") + "Z-diff"}, "incremental": True, "effectiveTimestamp": int(t(ts).timestamp() * 1000), "parent": parent,
         "channel": slug, "filter_expression": f"env.version|versionCompare('133.!') >= 0 && '{slug}' == 'security.pki.crlite_channel'|preferenceValue('none')"}
    r.update(k)
    return r


def place_chain(w, slug, runs, times, prevs=None):
    """records as the publisher leaves them after publishing runs one by one"""
    d = CHANNELS.get(slug, ("clubcard-all", 0))[0]
    last = None
    for i, run in enumerate(runs):
        if i == 0:
            last = w.put_record(REVS, base_record(slug, run, times[run]))
            w.attach(REVS, last, f"{run}-{slug}.filter", filter_bytes(d, run), "application/x-protobuf")
        else:
            last = w.put_record(REVS, delta_record(slug, run, times[run], last))
            w.attach(REVS, last, f"{run}-{slug}.filter.delta", delta_bytes(d, runs[i - 1], run), "application/x-protobuf")
    w.collection(REVS)["status"] = "signed"
    return last
