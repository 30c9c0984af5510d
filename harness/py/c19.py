"""C19: published filters always form a consistent chain."""
from publisher import *
from explore import Scenario

RULE = ("Each execution runs the real moz_kinto_publisher/main.py main() (one or several times) against an in-memory Kinto server, storage bucket and web under a virtual clock, from an enumerated state of records and stored runs, "
        "with enumerated failures and crashes of its requests; an independent reader judges the records whenever review is asked for and after a publisher run without failures.")
ASSUME = ["one publisher runs at a time; Kinto requests are atomic and a collection's status returns to work-in-progress with every change",
          "kinto_http, google-cloud-storage, requests and cryptography are represented by stand-ins of the interfaces the publisher uses",
          "runs are generated one after the other; each delta is relative to the run in latest/ when it was generated (layout and order checked on the real scripts by C22)"]

T = {}


def stamp(i, day=1):
    return f"2024-01-{day:02d}T{i % 24:02d}:00:00"


def newest_complete(w):
    ids = sorted({n.split("/")[0] for n in w.objects(BUCKET) if n.split("/")[0][:1] == "2"}, key=rid)
    return ids, (ids[-1] if ids and f"{ids[-1]}/completed" in w.objects(BUCKET) else None)


def guard(w, x):
    """judges the records at the moment review is asked for"""
    def f(coll):
        if coll != REVS:
            return
        for slug in CHANNELS:
            runs, bad = chain_of(w, slug)
            if bad:
                x.fail("reviewed-inconsistent", f"review of {coll} is asked for while channel {slug} has {bad}")
            elif not runs and w.had.get(slug):
                x.fail("reviewed-empty", f"review of {coll} is asked for while channel {slug}, which had a filter, has none")
            else:
                for r in w.channel(slug):
                    c = r["id"] in w.created and record_details(w, slug, r)
                    if c:
                        x.fail("record-details", f"{slug}: {c}")
                if runs:
                    w.had[slug] = True
    w.had = {}
    w.check_review = f


def judge_clean(w, x, what, before=None):
    """after a publisher run in which nothing failed"""
    ids, newest = newest_complete(w)
    o = w.objects(BUCKET)
    for slug, (d, age) in CHANNELS.items():
        runs, bad = chain_of(w, slug)
        if newest is None:
            continue
        if bad:
            x.fail("inconsistent-after-clean-run", f"{what}: channel {slug} has {bad}")
            return
        if newest and (f"{newest}/{d}/filter" in o and f"{newest}/timestamp" in o):
            if not runs or runs[-1] != newest:
                x.fail("not-up-to-date", f"{what}: channel {slug} is at {runs}, the newest complete run is {newest}")
                return
        for r in w.channel(slug):
            c = r["id"] in w.created and record_details(w, slug, r)
            if c:
                x.fail("record-details", f"{what}: {slug}: {c}")
                return
    if newest and w.collection(REVS)["status"] == "work-in-progress" and all(w.channel(s) for s in CHANNELS):
        x.fail("no-review", f"{what}: the records are consistent and up to date, but review was not asked for")
    for r in w.collection(REVS)["records"].values():
        if r.get("channel", "default") not in CHANNELS and r.get("channel") == "experimental+deltas":
            x.fail("disabled-channel-kept", f"{what}: a record of the disabled channel is left")


def expected(w, slug, before):
    """what the publisher should do with a channel: ('keep', runs to add as deltas) or ('base', newest)"""
    d, age = CHANNELS[slug]
    ids, newest = newest_complete(w)
    o = w.objects(BUCKET)
    if newest is None:
        return "nothing", None
    recs = before[slug]
    if not recs:
        return "base", newest
    runs, bad = chain_of(w, slug, recs)
    if bad:
        return "base", newest
    new = [i for i in ids if rid(i) > rid(runs[-1])]
    if any(r not in ids for r in runs):
        return "base", newest
    for i in new:
        if not all(f"{i}/{n}" in o for n in ("completed", f"{d}/filter", f"{d}/filter.delta", "ct-logs.json", "timestamp")):
            return "base", newest
    when = lambda i: datetime.datetime.fromisoformat(o[i + "/timestamp"].decode())
    ts = [when(i) for i in runs + new]
    if any(a >= b for a, b in zip(ts, ts[1:])):
        return "base", newest
    if when(newest) - when(runs[0]) >= datetime.timedelta(days=age):
        return "base", newest
    return "keep", new


def snapshot(w):
    return {slug: world.clone(w.channel(slug)) for slug in CHANNELS}


def judge_decision(w, x, before, what):
    """after a run in which nothing failed: the choice between deltas and a new base filter was right"""
    for slug in CHANNELS:
        kind, arg = expected(w, slug, before)
        now = w.channel(slug)
        old = {r["id"] for r in before[slug]}
        kept = {r["id"] for r in now} & old
        if kind == "nothing":
            if [r for r in now] != before[slug]:
                x.fail("changed-without-run", f"{what}: channel {slug} was changed although the newest run is not complete")
        elif kind == "keep":
            if kept != old:
                x.fail("base-instead-of-delta", f"{what}: channel {slug}: records were dropped although deltas {arg} could be added")
            elif len(now) - len(old) != len(arg):
                x.fail("wrong-deltas", f"{what}: channel {slug}: {len(now)-len(old)} records added, expected deltas {arg}")
        else:
            if kept or len(now) != 1:
                x.fail("delta-instead-of-base", f"{what}: channel {slug}: expected only a new base filter of {arg}, found {len(now)} records, {len(kept)} of them old")


def clean_publish(w, x, what, decision=True):
    w.faults = lambda k, n: ()
    before = snapshot(w)
    e = w.run_main()
    if e is not None:
        x.fail("clean-run-fails", f"{what}: the publisher fails although nothing failed around it: {type(e).__name__}: {e}")
        return
    judge_clean(w, x, what)
    if decision:
        judge_decision(w, x, before, what)


def final_publish(w, x, idem=True):
    clean_publish(w, x, "after a clean run")
    if idem and not x.violations:
        n, before = len(w.requests), snapshot(w)
        w.run_main()
        if [r for r in w.requests[n:]] or snapshot(w) != before:
            x.fail("not-idempotent", f"a second publisher run with nothing new made changes: {w.requests[n:][:4]}")


def outcome(w):
    s = []
    for slug in CHANNELS:
        runs, bad = chain_of(w, slug)
        s.append(bad or (f"{len(runs)} runs" if runs else "empty"))
    return ", ".join(s) + ", " + w.collection(REVS)["status"]


# ---- start states ------------------------------------------------------------------------------------------------
IDS = ["20240101-0", "20240101-1", "20240102-0", "20240102-1"]
TIMES = {"20240101-0": "2024-01-01T00:00:00", "20240101-1": "2024-01-01T12:00:00", "20240102-0": "2024-01-02T00:00:00", "20240102-1": "2024-01-02T12:00:00"}
OUTCOMES = ["complete", "complete, unmarked", "source only", "no latest, unmarked", "nothing", "only enrolled.json", "no deltas", "no ct-logs.json", "no priority, unmarked"]


def states(x):
    """every state of one channel's records with up to three records, over three stored runs"""
    w = PWorld(x, start="2024-01-03T00:00:00")
    try:
        guard(w, x)
        stored = x.pick("stored runs", [(0, 1, 2), (1, 2), (2,), (0, 1, 2, 3), (0, 2)])
        for i in stored:
            w.gen(IDS[i], TIMES[IDS[i]])
        slug = x.pick("channel", ["default", "compat"])
        n = x.pick("records", [0, 1, 2, 3])
        kinds = []
        for i in range(n):
            opts = []
            for run in (0, 1, 2):
                for att in (True, False):
                    opts.append(("full", run, att, None))
                    opts += [("delta", run, att, p) for p in list(range(n)) + ["unknown"]]
            lo = opts.index(kinds[-1]) if kinds else 0  # unordered: enumerate multisets
            # the parent numbers refer to positions, so only identical options are interchangeable
            kinds.append(x.pick(f"record {i}", opts[lo:]))
        d = CHANNELS[slug][0]
        for i, (k, run, att, p) in enumerate(kinds):
            r = IDS[run]
            if k == "full":
                w.put_record(REVS, base_record(slug, r, TIMES[r]), f"rec-{i}")
            else:
                w.put_record(REVS, delta_record(slug, r, TIMES[r], f"rec-{p}"), f"rec-{i}")
            if att:
                body = filter_bytes(d, r) if k == "full" else delta_bytes(d, IDS[run - 1] if run else None, r)
                w.attach(REVS, f"rec-{i}", f"{r}-{slug}.filter" + (".delta" if k == "delta" else ""), body, "application/x-protobuf")
        w.collection(REVS)["status"] = "signed"
        # a chain whose deltas skip a run is consistent for the publisher, which cannot know: such states are not its own
        runs, bad = chain_of(w, slug)
        if bad and ("carries" in bad or "run 2" in bad):
            x.outcome = "not a state the publisher leaves"
            return
        final_publish(w, x)
        x.outcome = outcome(w)
    finally:
        w.close()


def legacy(x):
    """odd records: of other channels, without a channel, malformed"""
    w = PWorld(x, start="2024-01-03T00:00:00")
    try:
        guard(w, x)
        for i in IDS[:3]:
            w.gen(i, TIMES[i])
        for slug in CHANNELS:
            n = x.pick(f"published on {slug}", [0, 1, 2, 3])
            place_chain(w, slug, IDS[:n], TIMES)
        odd = x.pick("odd record", ["none", "no channel", "disabled channel full", "disabled channel delta", "disabled channel both", "unknown channel", "no attachment", "no incremental", "no parent", "no details", "no details.name", "only channel", "incremental null", "no channel chain"])
        slug = x.pick("on channel", ["default", "compat"])
        r = base_record(slug, IDS[0], TIMES[IDS[0]])
        dl = delta_record(slug, IDS[1], TIMES[IDS[1]], "elsewhere")
        put = lambda r, att=True: w.attach(REVS, w.put_record(REVS, r), f"{IDS[0]}-{r.get('channel', slug)}.filter", filter_bytes(CHANNELS.get(r.get("channel", slug), ("clubcard-all",))[0], IDS[0]), "application/x-protobuf") if att else w.put_record(REVS, r)
        if odd == "no channel":
            slug = "default"; del r["channel"]; put(r)
        elif odd == "no channel chain":
            for rec in w.channel("default"):
                rec.pop("channel", None)
        elif odd.startswith("disabled"):
            if "delta" not in odd or "both" in odd:
                r["channel"] = "experimental+deltas"; put(r)
            if "full" not in odd:
                dl["channel"] = "experimental+deltas"; put(dl)
        elif odd == "unknown channel":
            r["channel"] = "other"; put(r)
        elif odd == "no attachment":
            put(r, False)
        elif odd == "no incremental":
            del r["incremental"]; put(r)
        elif odd == "incremental null":
            r["incremental"] = None; put(r)
        elif odd == "no parent":
            del dl["parent"]; put(dl)
        elif odd == "no details":
            del r["details"]; put(r)
        elif odd == "no details.name":
            r["details"] = {}; put(r)
        elif odd == "only channel":
            put({"channel": slug}, False)
        w.collection(REVS)["status"] = "signed"
        other = [r["id"] for r in w.collection(REVS)["records"].values() if r.get("channel") == "other"]
        final_publish_loose(w, x, odd)
        if any(i not in w.collection(REVS)["records"] for i in other):
            x.fail("foreign-channel-touched", "a record of a channel the publisher does not know was deleted")
        x.outcome = odd + ": " + outcome(w)
    finally:
        w.close()


def final_publish_loose(w, x, odd):
    if odd in ("no channel chain",):
        for r in w.channel("default"):
            r["channel_absent"] = True
        # records without a channel belong to the default channel: nothing needs publishing anew, details are not judged
        before = snapshot(w)
        w.faults = lambda k, n: ()
        e = w.run_main()
        if e is not None:
            x.fail("clean-run-fails", f"{type(e).__name__}: {e}")
        judge_decision(w, x, before, "after a clean run")
        return
    final_publish(w, x)


def canonical(x, w):
    """start states with chains of some length on each channel and the runs stored since"""
    opts = {"nothing published": (0, 0, ("complete",)),
            "base, one new run": (1, 1, ("complete",)),
            "base and delta, two new runs": (2, 2, ("complete", "complete")),
            "base, an unfinished run between": (1, 1, ("complete, unmarked", "complete")),
            "compat behind": (2, 1, ("complete",)),
            "old base": (1, 1, ("complete",)),
            "broken default": (2, 2, ("complete",)),
            "up to date": (2, 2, ())}
    name = x.pick("start", list(opts))
    nd, nc, new = opts[name]
    ids = ["20240101-0", "20240101-1", "20240102-0", "20240102-1", "20240103-0"]
    times = dict(zip(ids, ["2024-01-01T00:00:00", "2024-01-01T12:00:00", "2024-01-02T00:00:00", "2024-01-02T12:00:00", "2024-01-03T00:00:00"]))
    k = max(nd, nc)
    for i in range(k):
        w.gen(ids[i], times[ids[i]])
    place_chain(w, "default", ids[:nd], times)
    place_chain(w, "compat", ids[:nc], times)
    if name == "broken default":
        r = [r for r in w.channel("default") if r["incremental"] is False][0]
        del w.collection(REVS)["records"][r["id"]]
    for j, out in enumerate(new):
        i = ids[k + j]
        ts = times[i]
        if name == "old base":
            i, ts = "20240301-0", "2024-03-01T00:00:00"
        w.gen(i, ts, out)
    if x.pick("records of a disabled channel", [False, True]):
        b = w.put_record(REVS, dict(base_record("experimental+deltas", ids[0], times[ids[0]])))
        w.put_record(REVS, delta_record("experimental+deltas", ids[0], times[ids[0]], b))
    w.collection(REVS)["status"] = x.pick("status", ["signed", "to-review"])
    for s in CHANNELS:
        w.had[s] = bool(w.channel(s)) and name != "broken default"
    return name


def only_revs(kind, name):
    return REVS in name or kind == "gcs"


def faults(depth):
    """failures and crashes of any request, then a run without"""
    def run(x):
        w = PWorld(x, start="2024-03-02T00:00:00")
        try:
            guard(w, x)
            name = canonical(x, w)
            w.faults = std_faults(only=only_revs)
            for i in range(depth):
                e = w.run_main()
                if e is None:
                    judge_clean(w, x, "a run that reported success")
                if depth > 1 and i == 0 and x.pick("meanwhile", ["nothing", "a new run", "an unfinished run"]) != "nothing":
                    ids, _ = newest_complete(w)
                    last = max(ids, key=rid)
                    nd = f"{last[:-1]}{int(last[-1])+1}"
                    lt = datetime.datetime.fromisoformat(w.objects(BUCKET)[last + "/timestamp"].decode())
                    w.gen(nd, (lt + datetime.timedelta(hours=6)).isoformat(), "complete" if x.at[-1].endswith("a new run") else "source only")
            ids, newest = newest_complete(w)
            if newest is None:
                final_publish(w, x, idem=False)
                w.gen("20240401-0", "2024-04-01T00:00:00")
            final_publish(w, x, idem=False)
            x.outcome = name + ": " + outcome(w)
        finally:
            w.close()
    return run


def histories(length):
    """every order of run outcomes and publisher runs"""
    def run(x):
        w = PWorld(x, start="2024-01-01T00:00:00")
        try:
            guard(w, x)
            n = 0
            hist = []
            w.faults = std_faults(only=only_revs)
            for i in range(length):
                a = x.pick(f"step {i}", ["publish"] + OUTCOMES + ["stop"])
                if a == "stop":
                    break
                hist.append(a)
                if a == "publish":
                    if i and hist[-2] == "publish" and "fault" not in x.spent:
                        pass
                    before = snapshot(w)
                    spent = x.total
                    e = w.run_main()
                    if e is None:
                        judge_clean(w, x, f"publisher run at step {i}")
                    if e is None and x.total == spent:
                        judge_decision(w, x, before, f"publisher run at step {i}")
                else:
                    run_id = f"2024010{1 + n // 3}-{n % 3}"
                    w.gen(run_id, f"2024-01-0{1 + n // 3}T0{(n % 3) * 4}:00:00", a)
                    n += 1
                w.now += 3600
                if x.violations:
                    return
            run_id = f"2024010{1 + n // 3}-{n % 3}"
            w.gen(run_id, f"2024-01-0{1 + n // 3}T0{(n % 3) * 4}:00:00")
            final_publish(w, x)
            x.outcome = outcome(w)
        finally:
            w.close()
    return run


def ages(deep):
    return lambda x: _ages(x, deep)


def _ages(x, deep):
    """times and numbers around the limits: the age of the base filter, equal and backward times, indices around 10"""
    w = PWorld(x, start="2024-03-20T00:00:00")
    try:
        guard(w, x)
        idx = x.pick("first index", [0, 8, 9, 98, 99] if deep else [0, 8, 9])
        n = x.pick("published", [1, 2, 3, 4] if deep else [1, 2, 3])
        gap = x.pick("gap", ["6h", "equal", "1s"])
        base = datetime.datetime(2024, 1, 1, 3, 0, 0)
        step = {"6h": 6 * 3600, "equal": 0, "1s": 1}[gap]
        ids, times = [], {}
        for i in range(n):
            r = f"20240101-{idx + i}"
            ids.append(r)
            times[r] = (base + datetime.timedelta(seconds=step * i)).isoformat()
            w.gen(r, times[r])
        place_chain(w, "default", ids, times)
        place_chain(w, "compat", ids, times)
        for s in CHANNELS:
            w.had[s] = True
        start, last = base, base + datetime.timedelta(seconds=step * (n - 1))
        m = x.pick("new runs", [1, 2, 3] if deep else [1, 2])
        for j in range(m):
            opts = {"6h later": last + datetime.timedelta(hours=6), "the same time": last, "a second earlier": last - datetime.timedelta(seconds=1), "an hour earlier": last - datetime.timedelta(hours=1),
                    "10 h earlier": last - datetime.timedelta(hours=10),
                    "a second before the limit": start + datetime.timedelta(days=45, seconds=-1), "at the limit": start + datetime.timedelta(days=45), "past the limit": start + datetime.timedelta(days=45, seconds=1),
                    "at the limit of the second": start + datetime.timedelta(days=45, seconds=step), "at 20 days": start + datetime.timedelta(days=20)}
            when = opts[x.pick(f"time of new run {j}", list(opts))]
            d = when.strftime("%Y%m%d")
            if d < ids[-1][:8]:
                d = ids[-1][:8]
            r = f"{d}-{int(ids[-1].split('-')[1]) + 1}" if d == ids[-1][:8] else f"{d}-0"
            ids.append(r)
            w.gen(r, when.isoformat())
            last = when
        final_publish(w, x)
        x.outcome = outcome(w)
    finally:
        w.close()


def waiting(x):
    """runs that appear or are finished while the publisher is at work or waits"""
    w = PWorld(x, start="2024-01-03T00:00:00")
    try:
        guard(w, x)
        n = x.pick("published", [0, 1, 2])
        for i in range(n):
            w.gen(IDS[i], TIMES[IDS[i]])
        for s in CHANNELS:
            place_chain(w, s, IDS[:n], TIMES)
            w.had[s] = n > 0
        k = n
        for out in x.pick("stored since", [(), ("complete",), ("complete, unmarked",), ("complete", "complete, unmarked"), ("source only",), ("complete, unmarked", "complete")]):
            w.gen(IDS[k], TIMES[IDS[k]], out)
            k += 1
        cell = {"k": k, "done": 0}

        def finish(*_):
            if cell["done"] >= 2 or k == 0:
                return
            unfinished = [r for r in w.runs if f"{r}/completed" not in w.objects(BUCKET) and r == max(w.runs, key=rid)]
            alts = [("nothing happens", None)]
            if unfinished:
                alts.append((f"run {unfinished[-1]} is finished", "event"))
            if cell["k"] < 4:
                alts.append(("a new run is stored", "event"))
                alts.append(("a new run begins to be stored", "event"))
            i = x.choose("meanwhile", alts)
            if i == 0:
                return
            cell["done"] += 1
            if alts[i][0].endswith("finished"):
                r = unfinished[-1]
                if w.runs[r] == "complete, unmarked":
                    w.put_object(BUCKET, f"{r}/completed", b"x")
                    w.runs[r] = "complete"
                else:
                    w.gen(r, TIMES[r])
            else:
                r = IDS[cell["k"]]
                w.gen(r, TIMES[r], "complete" if alts[i][0].endswith("is stored") else "source only")
                cell["k"] += 1
        w.on_op = lambda kind, name: finish() if (kind == "gcs" or REVS in name) else None
        w.on_sleep = lambda s: finish()
        t0 = w.now
        e = w.run_main()
        w.on_op = w.on_sleep = None
        if w.now - t0 > 3600:
            x.fail("waits-too-long", f"the publisher waited {w.now - t0:.0f} s")
        ids, newest = newest_complete(w)
        # if the newest run stays unfinished the publisher may leave the channels as they are
        for s in CHANNELS:
            runs, bad = chain_of(w, s)
            if bad and e is None:
                x.fail("inconsistent-after-clean-run", f"channel {s} has {bad} ({e})")
        for r in list(w.runs):
            if f"{r}/completed" not in w.objects(BUCKET):
                for s in CHANNELS:
                    runs, _ = chain_of(w, s)
                    if runs and r in runs:
                        x.fail("incomplete-run-published", f"channel {s} has {runs}, but {r} is not complete")
        if newest is None:
            r = IDS[cell["k"]] if cell["k"] < 4 else "20240103-0"
            w.gen(r, TIMES.get(r, "2024-01-03T00:00:00"))
        final_publish(w, x)
        x.outcome = outcome(w)
    finally:
        w.close()


def noop(x):
    """with --noop nothing is changed"""
    w = PWorld(x, start="2024-03-02T00:00:00")
    try:
        guard(w, x)
        name = canonical(x, w)
        before, n = snapshot(w), len(w.requests)
        e = w.run_main("--noop")
        if w.requests[n:] or snapshot(w) != before:
            x.fail("noop-changes", f"{name}: --noop made changes: {w.requests[n:][:3]}")
        if e is not None:
            x.fail("noop-fails", f"{name}: {e}")
        x.outcome = name
    finally:
        w.close()


SCENARIOS = [
    Scenario("states", states),
    Scenario("legacy", legacy),
    Scenario("ages", ages(False)),
    Scenario("ages-deep", ages(True), thorough=True),
    Scenario("noop", noop),
    Scenario("faults", faults(1), {"fault": 1, "crash": 1}, 1),
    Scenario("faults-again", faults(2), {"fault": 1, "crash": 1}, 1),
    Scenario("faults-twice", faults(2), {"fault": 1, "crash": 1}, 2, thorough=True),
    Scenario("fault-pairs", faults(1), {"fault": 2, "crash": 0}, 2, thorough=True),
    Scenario("histories", histories(4)),
    Scenario("histories-faults", histories(3), {"fault": 1, "crash": 1}, 1),
    Scenario("waiting", waiting, {"event": 1}),
    Scenario("waiting-twice", waiting, {"event": 2}, thorough=True),
]
