"""Deviation-bounded exhaustive exploration of deterministic executions.

A scenario is a function run(x). Wherever the environment may do more than one thing it calls x.choose(label, alts),
alts being a list of (description, class): class None costs nothing, any other class costs one unit of that class's
budget. Alternative 0 must be free. Every execution within the budgets is run, depth first over choice prefixes.
"""
import hashlib, json, multiprocessing, os, sys, time, traceback


class Violation(Exception):
    pass


class Diverged(Exception):
    pass


class Exec:
    def __init__(self, scenario, prefix, debug=False):
        self.s, self.prefix, self.taken, self.points = scenario, prefix, [], []
        self.spent, self.total, self.violations, self.steps, self.debug = {}, 0, [], 0, debug
        self.log, self.outcome, self.at = [], "", []

    def affordable(self, cls):
        if cls is None:
            return True
        return self.spent.get(cls, 0) < self.s.budget.get(cls, 0) and self.total < self.s.total

    def choose(self, label, alts):
        """alts: list of (desc, class). Returns the index taken."""
        idx = [i for i, (_, c) in enumerate(alts) if self.affordable(c)]
        n = len(self.taken)
        if len(idx) <= 1:
            return idx[0]
        pick = self.prefix[n] if n < len(self.prefix) else idx[0]
        if pick not in idx:
            raise Diverged(f"choice {n} ({label}): {pick} not among {idx}")
        self.points.append((n, idx))
        self.taken.append(pick)
        desc, cls = alts[pick]
        if cls is not None:
            self.spent[cls] = self.spent.get(cls, 0) + 1
            self.total += 1
        if pick != idx[0]:
            self.at.append(f"{label}: {desc}")
        if self.debug:
            print(f"  [{n}] {label} -> {desc}", file=sys.stderr)
        return pick

    def pick(self, label, options):
        """a free choice among the values of options; returns the value."""
        return options[self.choose(label, [(str(o), None) for o in options])]

    def fail(self, key, message):
        self.violations.append((key, message))

    def step(self, what):
        self.steps += 1
        if self.debug:
            print("    " + what, file=sys.stderr)
        self.log.append(what)


class Scenario:
    def __init__(self, name, run, budget=None, total=None, thorough=False, quick=True):
        self.name, self.run, self.budget = name, run, budget or {}
        self.total = sum(self.budget.values()) if total is None else total
        self.thorough, self.quick = thorough, quick


def execute(scenario, prefix, debug=False):
    x = Exec(scenario, prefix, debug)
    try:
        scenario.run(x)
    except Violation:
        pass
    return x


def _worker(job):
    """explores the subtree below prefix for a while; returns what it met and the prefixes left over."""
    si, prefix, limit, deadline = job
    scenario = SCENARIOS[si]
    stack, res = [prefix], {"n": 0, "steps": 0, "points": 0, "maxpoints": 0, "outcomes": {}, "viol": [], "states": set(), "samples": [], "nontrivial": 0}
    while stack and res["n"] < limit and time.time() < deadline:
        p = stack.pop()
        try:
            x = execute(scenario, p)
        except Exception:
            res["viol"].append(("harness-error", traceback.format_exc()[-1500:], p, []))
            res["n"] += 1
            continue
        res["n"] += 1
        res["steps"] += x.steps
        res["points"] += len(x.points)
        res["maxpoints"] = max(res["maxpoints"], len(x.points))
        res["nontrivial"] += bool(x.steps)
        if x.outcome not in res["outcomes"]:
            res["outcomes"][x.outcome] = 0
            res["samples"].append(scenario.name + "".join("; " + a for a in x.at) + " => " + x.outcome)
        res["outcomes"][x.outcome] += 1
        for k, m in x.violations:
            res["viol"].append((k, m, list(x.taken), list(x.at)))
        # children: alternatives at choice points beyond the prefix
        if not x.violations:
            for n, idx in reversed(x.points):
                if n < len(p):
                    break
                for alt in idx:
                    if alt != x.taken[n]:
                        stack.append(x.taken[:n] + [alt])
    return si, res, stack


SCENARIOS = []


def run_all(prop, scenarios, rule, assumptions):
    """explores every scenario, prints the result and writes the evidence; returns the exit code."""
    global SCENARIOS
    tier = os.environ.get("VERIF_TIER", "quick")
    vdir = os.environ["VERIF_DIR"]
    only = os.environ.get("VERIF_SCENARIO")
    SCENARIOS = [s for s in scenarios if (tier == "thorough" or not s.thorough) and (tier != "thorough" or s.quick or s.thorough) and (not only or s.name == only)]
    replay = os.environ.get("VERIF_REPLAY")
    known = load_known(vdir, prop)
    if replay:
        r = json.load(open(replay))
        s = [s for s in scenarios if s.name == r["Scenario"]][0]
        x = execute(s, r["Prefix"], debug=True)
        for k, m in x.violations:
            print(f"reproduced: {k}: {m}")
        bad = [v for v in x.violations if v[0] not in known]
        if bad:
            print(f"VIOLATION property={prop} replay={replay}")
        return 1 if bad else 0
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", "600" if tier == "quick" else "7200"))
    deadline = t0 + budget
    cov, viol, seen_known = [], [], {}
    procs = int(os.environ.get("VERIF_SHARDS", "0")) or os.cpu_count() or 4
    tot = {"n": 0, "steps": 0, "points": 0, "nontrivial": 0}
    outcomes, samples = set(), []
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(procs) as pool:
        for si, s in enumerate(SCENARIOS):
            st = time.time()
            agg = {"n": 0, "steps": 0, "points": 0, "maxpoints": 0, "nontrivial": 0, "outcomes": {}, "samples": []}
            todo, pending, stopped = [[]], [], False
            limit = 1
            nviol = 0
            while todo or pending:
                while todo and len(pending) < procs * 2 and not stopped:
                    pending.append(pool.apply_async(_worker, ((si, todo.pop(), limit, deadline),)))
                if not pending:
                    break
                ready = [p for p in pending if p.ready()]
                if not ready:
                    pending[0].wait(0.02)
                    continue
                for p in ready:
                    pending.remove(p)
                    _, r, rest = p.get()
                    for k in ("n", "steps", "points", "nontrivial"):
                        agg[k] += r[k]
                    agg["maxpoints"] = max(agg["maxpoints"], r["maxpoints"])
                    for o, c in r["outcomes"].items():
                        agg["outcomes"][o] = agg["outcomes"].get(o, 0) + c
                    if len(agg["samples"]) < 4:
                        agg["samples"] += r["samples"][: 4 - len(agg["samples"])]
                    for v in r["viol"]:
                        if v[0] in known:
                            seen_known.setdefault(v[0], v)
                        else:
                            viol.append((s,) + v)
                            nviol += 1
                    todo += rest
                limit = 1 if agg["n"] < 64 else 20 if agg["n"] < 2000 else 400
                if nviol >= 40 or time.time() > deadline:
                    stopped = True
                    todo = []
            for k in tot:
                tot[k] += agg[k]
            outcomes |= set((s.name, o) for o in agg["outcomes"])
            samples += agg["samples"][:2]
            cov.append({"scenario": s.name, "executions": agg["n"], "steps": agg["steps"], "max_choice_points": agg["maxpoints"], "distinct_outcomes": len(agg["outcomes"]),
                        "budget": s.budget, "total_budget": s.total, "completed": not stopped, "wall_s": round(time.time() - st, 1)})
            print(f"{prop} {s.name}: {agg['n']} executions, {agg['steps']} steps, {len(agg['outcomes'])} outcomes, {time.time()-st:.1f}s{'' if not stopped else ' (stopped)'}", flush=True)
    rc, shown = 0, set()
    for s, key, msg, prefix, at in sorted(viol, key=lambda v: (v[1], len(v[4]), len(v[3]))):
        if key in shown:
            continue
        shown.add(key)
        d = os.path.join(vdir, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop}-{hashlib.sha1((s.name + key).encode()).hexdigest()[:8]}.json")
        json.dump({"Property": prop, "Scenario": s.name, "Prefix": prefix, "Key": key, "Message": msg, "At": at}, open(path, "w"), indent=1)
        print(f"scenario {s.name}: {key}: {msg}\n   at: {'; '.join(at)}")
        print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    for k, v in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={prop} {k}: {v[1][:300]}")
    e = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
         "coverage": {"states": len(outcomes), "transitions": tot["steps"], "traces_validated_against_impl": tot["n"], "evaluations": tot["n"], "nontrivial_executions": tot["nontrivial"],
                      "distinct_nontrivial": len(outcomes), "choice_points": tot["points"], "exhaustive": all(c["completed"] for c in cov), "rule": rule, "samples": samples or ["(none)"],
                      "scenarios": cov, "known_findings_met": {k: v[1][:200] for k, v in seen_known.items()}},
         "assumptions": assumptions, "wall_s": round(time.time() - t0, 1), "violations": len(shown)}
    os.makedirs(os.path.join(vdir, "evidence"), exist_ok=True)
    json.dump(e, open(os.path.join(vdir, "evidence", prop + ".json"), "w"), indent=1)
    return rc


def load_known(vdir, prop):
    known = set()
    p = os.path.join(vdir, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith(f"known: property={prop} key="):
                known.add(line.split("key=", 1)[1].split(" ", 1)[0])
    return known
