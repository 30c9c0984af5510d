"""C23: the filter generator (rust-create-cascade), run as a process on every input of the alphabets."""
import base64, itertools, math, os, shutil, signal, subprocess, tempfile
from explore import Scenario

BIN, SHIM = os.environ["VERIF_BIN"], os.environ["VERIF_SHIM"]
A, B, C = ("A" * 32).encode(), ("B" * 32).encode(), bytes(range(200, 232))
SETS, KINDS = ("all", "specified", "priority"), ("clubcard", "cascade")
S, T, U = "01", "0101", "00" + "7f" * 19
DAY1, DAY2 = 1700000000 - 1700000000 % 86400, 1700000000 - 1700000000 % 86400 + 86400


def name(issuer):
    return base64.urlsafe_b64encode(issuer).decode()


class Env:
    """a directory of inputs and outputs, one per exploring process, emptied for each execution."""
    _dir = None

    def __init__(self):
        pid = os.getpid()
        if Env._dir is None or Env._dir[0] != pid:
            base = os.environ["VERIF_WORK"]
            if os.path.isdir("/dev/shm"):
                base = "/dev/shm"
            Env._dir = (pid, tempfile.mkdtemp(prefix="verifrs.", dir=base))
            import atexit, multiprocessing.util
            multiprocessing.util.Finalize(None, shutil.rmtree, args=(Env._dir[1], True), exitpriority=10)
            atexit.register(shutil.rmtree, Env._dir[1], True)
        self.root = Env._dir[1]
        for f in os.listdir(self.root):
            p = self.path(f)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)

    def path(self, *p):
        return os.path.join(self.root, *p)

    def put(self, p, data):
        p = self.path(p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode())

    def inputs(self, known, revoked, ct='[{"LogID":"AA==","MinTimestamp":1,"MaxTimestamp":2}]\n'):
        """known: {issuer: [(expiry, serial)]}; revoked: {issuer: [(reason, serial)]}; None for no directory at all."""
        for d, m in (("known", known), ("revoked", revoked)):
            shutil.rmtree(self.path(d), True)
            if m is None:
                continue
            os.makedirs(self.path(d))
            for i, rows in m.items():
                text, last = "", None
                for a, s in rows:
                    if d == "known":
                        if a != last:
                            text, last = text + "@%016x\n" % a, a
                        text += s + "\n"
                    else:
                        text += "%02x%s\n" % (a, s)
                self.put(d + "/" + name(i), text)
        self.ct = ct
        if ct is None:
            if os.path.exists(self.path("ct-logs.json")):
                os.unlink(self.path("ct-logs.json"))
        else:
            self.put("ct-logs.json", ct)

    def run(self, x, kind, rs, drs, out="out", prev="prev", clobber=True, env=None, extra=()):
        argv = [BIN, "--known", self.path("known"), "--revoked", self.path("revoked"), "--ct-logs-json", self.path("ct-logs.json"), "--outdir", self.path(out),
                "--reason-set", rs, "--delta-reason-set", drs, "--filter-type", kind, "--prev-revset", self.path(prev)] + (["--clobber"] if clobber else []) + list(extra)
        e = {"PATH": os.environ["PATH"], "LD_PRELOAD": SHIM, "VERIF_ROOT": self.root, "RAYON_NUM_THREADS": "1"}
        e.update(env or {})
        p = subprocess.run(argv, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=60)
        self.err = p.stderr.decode("utf-8", "replace")
        x.step(f"{kind} {rs}/{drs} {sorted((env or {}).items())} -> {p.returncode} {self.err.strip()[-200:] if p.returncode else ''}")
        return p.returncode

    def read(self, p):
        try:
            with open(self.path(p), "rb") as f:
                return f.read()
        except (FileNotFoundError, NotADirectoryError, IsADirectoryError):
            return None


def accepted(reason, rs):
    if rs == "all":
        return True
    if rs == "specified":
        return reason in (1, 2, 3, 4, 5, 6, 8, 9, 10)
    return reason in (1, 5, 9)


def universe(known):
    return {(i, s) for i, rows in known.items() for _, s in rows}


def revset(known, revoked, rs):
    u = universe(known)
    return {(i, s) for i, rows in revoked.items() for r, s in rows if accepted(r, rs)} & u


class Filter:
    """the filter as its stand-in library wrote it: what was put in, and what may be asked of it."""

    def __init__(self, data):
        self.blocks, self.inc, self.exact, self.cov, self.kind = set(), set(), {}, None, None
        if not data or not data.endswith(b"END\n"):
            return
        lines = data.decode().split("\n")
        self.kind = {"CLUBCARD": "clubcard", "CASCADE": "cascade"}.get(lines[0])
        for l in lines[1:]:
            w = l.split(" ")
            if w[0] == "c":
                self.cov = bytes.fromhex(w[1])
            elif w[0] == "b":
                self.blocks.add(bytes.fromhex(w[1]))
            elif self.kind == "clubcard" and w[0] == "i":
                self.inc.add((bytes.fromhex(w[1]), w[2]))
            elif self.kind == "clubcard" and w[0] in "rx" and len(w) == 3:
                self.exact[(bytes.fromhex(w[1]), w[2])] = w[0] == "r"
            elif self.kind == "cascade" and w[0] in "ix" and len(w) == 2:
                k = bytes.fromhex(w[1])
                k = (k[:32], k[32:].hex())
                if w[0] == "i":
                    self.inc.add(k)
                self.exact[k] = w[0] == "i"

    def answer(self, k):
        """True, False, or None where the filter may say either."""
        if k in self.inc:
            return True if self.exact.get(k) is True else self.exact.get(k)
        if self.exact.get(k) is False:
            return False
        if self.kind == "clubcard" and k[0] not in {b for b, _ in self.inc}:
            return False  # nothing of that issuer is in the approximate filter
        return None


def parse_stash(data):
    out, n = [], 0
    while n < len(data):
        cnt = int.from_bytes(data[n:n + 4], "little")
        il = data[n + 4]
        i = data[n + 5:n + 5 + il]
        if len(i) != il or il == 0:
            raise ValueError("truncated issuer")
        n += 5 + il
        for _ in range(cnt):
            if n >= len(data):
                raise ValueError("truncated serial list")
            sl = data[n]
            s = data[n + 1:n + 1 + sl]
            if len(s) != sl:
                raise ValueError("truncated serial")
            out.append((i, s.hex()))
            n += 1 + sl
    return out


def nice(ks):
    return sorted(f"{i[:1].decode('latin1')}.{s}" for i, s in ks)


def judge_filter(x, what, data, kind, u, r, known, cov, blocks):
    if data is None and kind == "cascade" and not r:
        return  # an empty cascade is not written
    f = Filter(data)
    if f.kind != kind:
        x.fail(f"{what}-missing", f"the run succeeded and left {'no ' + what if data is None else repr(data[:40])}")
        return
    for k in sorted(u):
        a = f.answer(k)
        if a != (k in r):
            x.fail(f"{what}-misclassifies-{'revoked' if k in r else 'valid'}",
                   f"{nice([k])[0]} is {'revoked' if k in r else 'not revoked'}, the {what} {'says otherwise' if a is not None else 'leaves it open'}; known {nice(u)}, revoked {nice(r)}")
            return
    if kind == "clubcard":
        if f.cov != cov.encode():
            x.fail(f"{what}-coverage", f"the coverage of the {what} is {f.cov!r}, the logs' is {cov!r}")
        miss = {i for i, rows in known.items() if rows} - f.blocks
        if blocks and miss:
            x.fail("issuer-not-enrolled", f"the filter has no block for {nice((m, '') for m in miss)}, whose certificates are known")


def judge(x, e, out, kind, rs, drs, known, revoked, prev=None, loose=False):
    """prev: the earlier set, None when unreadable (then everything is new). loose: prev may also count as unreadable."""
    u = universe(known)
    judge_filter(x, "filter", e.read(out + "/filter"), kind, u, revset(known, revoked, rs), known, e.ct, True)
    r = revset(known, revoked, drs)
    ds = [r - prev] if prev is not None else [r]
    if loose:
        ds.append(r)
    raw = e.read(out + "/filter.stash")
    if raw is None:
        x.fail("stash-missing", "the run succeeded and left no stash")
        return
    try:
        st = parse_stash(raw)
    except (ValueError, IndexError) as ex:
        x.fail("stash-malformed", f"the stash does not parse: {ex}: {raw.hex()}")
        return
    d = next((d for d in ds if set(st) == d), None)
    if d is None:
        x.fail("stash-content", f"the stash lists {nice(set(st))}, newly revoked are {nice(ds[0])}")
        return
    if len(st) != len(set(st)):
        x.fail("stash-duplicates", f"the stash lists a certificate twice: {nice(st)}")
    if e.read(out + "/revset.bin") is None:
        x.fail("revset-missing", "the run succeeded and left no revset")
    judge_filter(x, "delta filter", e.read(out + "/filter.delta"), kind, u, d, known, e.ct, False)


KNOWN_FORMS = [(), (DAY1,), (DAY2,), (DAY1, DAY2), (DAY1, DAY1)]
REVOKED_FORMS = [(), (0,), (1,), (4,), (9,), (7,), (0, 1), (1, 0), (1, 1)]


def place(known, revoked, i, s, kf, rf):
    known.setdefault(i, []).extend((d, s) for d in kf)
    known[i].sort(key=lambda t: t[0])
    revoked.setdefault(i, []).extend((r, s) for r in rf)


def one(x, extra=()):
    known, revoked = {}, {}
    for s in (S, T):
        kf = x.pick(f"{s} known", KNOWN_FORMS)
        rf = x.pick(f"{s} revoked for", REVOKED_FORMS)
        place(known, revoked, A, s, kf, rf)
    kind, rs = x.pick("kind", KINDS), x.pick("reasons", SETS)
    e = Env()
    e.inputs(known, revoked)
    finish(x, e, kind, rs, rs, known, revoked, extra=extra)


def finish(x, e, kind, rs, drs, known, revoked, env=None, extra=()):
    rc = e.run(x, kind, rs, drs, env=env, extra=extra)
    if rc != 0:
        x.fail("generation-fails", f"{kind}: exit {rc}: {e.err[-300:]}")
    else:
        judge(x, e, "out", kind, rs, drs, known, revoked)
    x.outcome = f"{rc} {len(revset(known, revoked, rs))} of {len(universe(known))}"


def reasons(x):
    r = x.pick("reason", range(256))
    rs, drs, kind = x.pick("reasons", SETS), x.pick("delta reasons", SETS), x.pick("kind", KINDS)
    known, revoked = {A: [(DAY1, S), (DAY1, T)]}, {A: [(r, S)]}
    e = Env()
    e.inputs(known, revoked)
    finish(x, e, kind, rs, drs, known, revoked)


def serials(x):
    """serial numbers of every length, with and without leading zeros and high bits"""
    n, first = x.pick("length", range(1, 22)), x.pick("first octet", (0, 1, 0x7f, 0x80, 0xff))
    rev = x.pick("revoked", (True, False))
    kind = x.pick("kind", KINDS)
    s = ("%02x" % first) + "ab" * (n - 1)
    other = s + "00"
    known, revoked = {A: [(DAY1, s), (DAY1, other)], B: [(DAY1, s)]}, {A: [(1, s)] if rev else [(1, other)]}
    e = Env()
    e.inputs(known, revoked)
    finish(x, e, kind, "all", "all", known, revoked)


def issuers(x, who=(A, B), kforms=(None, (), (S,), (S, T)), rforms=(None, (), (S,), (U,), (S, S)), kinds=KINDS):
    known, revoked = {}, {}
    for i in who:
        kf = x.pick("known", kforms)
        rf = x.pick("revoked", rforms)
        if kf is not None:
            known[i] = [(DAY1, s) for s in kf]
        if rf is not None:
            revoked[i] = [(1, s) for s in rf]
    kind = x.pick("kind", kinds)
    k = math.factorial(max(len(known), 1))
    env = {"VERIF_ORDER": str(x.pick("directory order", range(k))), "VERIF_TASKS": str(x.pick("task order", range(k)))}
    e = Env()
    e.inputs(known, revoked)
    finish(x, e, kind, "all", "all", known, revoked, env)


STATES = ("unknown", "valid", "unspecified", "key compromise")


def chain(x, who=((A, S), (A, T), (B, S)), runs=2, kinds=("clubcard",)):
    """successive runs, each given the revset of the one before; the last is run once more on the same input."""
    rs, kind = x.pick("reasons", SETS), x.pick("kind", kinds)
    e, prev, n = Env(), None, []
    for k in range(runs):
        known, revoked = {}, {}
        for i, s in who:
            st = x.pick(f"run {k}: {nice([(i, s)])[0]}", STATES)
            place(known, revoked, i, s, () if st == "unknown" else (DAY1,), () if st in ("unknown", "valid") else (0,) if st == "unspecified" else (1,))
        if k:
            e.inputs(known, revoked)
        else:
            e.inputs(known, revoked)
        for again in ((False, True) if k == runs - 1 else (False,)):
            rc = e.run(x, kind, rs, rs)
            if rc != 0:
                x.fail("generation-fails", f"{kind}: exit {rc}: {e.err[-300:]}")
                return
            judge(x, e, "out", kind, rs, rs, known, revoked, prev)
            if x.violations:
                return
            prev = revset(known, revoked, rs)
            shutil.copyfile(e.path("out/revset.bin"), e.path("prev"))
        n.append(len(prev))
    x.outcome = f"{n}"


def sets_change(x):
    """the earlier revset was made for other reasons"""
    st = [x.pick("certificate", STATES) for _ in range(2)]
    a, b, rs = x.pick("earlier reasons", SETS), x.pick("reasons of the delta", SETS), x.pick("reasons", SETS)
    known, revoked = {}, {}
    for s, t in zip((S, T), st):
        place(known, revoked, A, s, () if t == "unknown" else (DAY1,), () if t in ("unknown", "valid") else (0,) if t == "unspecified" else (1,))
    e = Env()
    e.inputs(known, revoked)
    if e.run(x, "clubcard", a, a) != 0:
        x.fail("generation-fails", e.err[-300:])
        return
    shutil.copyfile(e.path("out/revset.bin"), e.path("prev"))
    rc = e.run(x, "clubcard", rs, b)
    if rc != 0:
        x.fail("generation-fails", e.err[-300:])
    else:
        judge(x, e, "out", "clubcard", rs, b, known, revoked, revset(known, revoked, a))
    x.outcome = f"{rc}"


BASE = ({A: [(DAY1, S), (DAY1, T), (DAY2, U)], B: [(DAY1, S), (DAY2, T)]}, {A: [(1, S), (0, U)], B: [(1, T), (9, "05")]})
EARLIER = ({A: [(DAY1, S), (DAY1, T)], B: [(DAY1, S)]}, {A: [(1, S)]})


def base(e, x):
    """an earlier run's revset, then the inputs of this one; returns the earlier set."""
    e.inputs(*EARLIER)
    rc = e.run(x, "clubcard", "all", "all")
    if rc:
        x.fail("generation-fails", e.err[-300:])
    e.put("prev", e.read("out/revset.bin") or b"")
    shutil.rmtree(e.path("out"), True)
    e.inputs(*BASE)
    return revset(*EARLIER, "all")


def prev_forms(x):
    e = Env()
    prev = base(e, x)
    raw = e.read("prev")
    forms = ["whole", "absent", "garbage", "directory"] + [f"first {n} bytes" for n in range(len(raw))]
    f = x.pick("the earlier revset", forms)
    if f != "whole":
        os.unlink(e.path("prev"))
    if f == "garbage":
        e.put("prev", "<html>not found</html>")
    elif f == "directory":
        os.mkdir(e.path("prev"))
    elif f.startswith("first"):
        e.put("prev", raw[:int(f.split()[1])])
    kind = x.pick("kind", KINDS)
    rc = e.run(x, kind, "all", "all")
    if rc != 0:
        x.fail("generation-fails", e.err[-300:])
    else:
        judge(x, e, "out", kind, "all", "all", *BASE, prev if f == "whole" else None)
    x.outcome = f"{rc}"


OUTPUTS = ("filter", "filter.stash", "revset.bin", "filter.delta", "delta")


def outputs(x):
    """outputs of another run are in the way"""
    e = Env()
    prev = base(e, x)
    have = [o for o in OUTPUTS if x.pick(f"{o} exists", (False, True))]
    clobber, kind = x.pick("clobber", (True, False)), x.pick("kind", KINDS)
    other = {}
    for o in have:
        p = "out/" + o if o != "delta" else "out/delta/" + name(C)
        other[p] = b"old " + o.encode() if o != "delta" else b"0133\n"
        e.put(p, other[p])
    rc = e.run(x, kind, "all", "all", clobber=clobber)
    if clobber or not have:
        if rc != 0:
            x.fail("generation-fails", f"exit {rc} with {have} in the output directory: {e.err[-200:]}")
        else:
            judge(x, e, "out", kind, "all", "all", *BASE, prev)
    else:
        for p, data in other.items():
            if e.read(p) != data:
                x.fail("output-overwritten", f"{p} was replaced without --clobber")
        if rc == 0:
            x.fail("nothing-made-but-success", f"exit 0 although nothing was generated: {have} were in the way: {e.err[-200:]}")
    x.outcome = f"{rc} {clobber} {len(have)}"


def missing(x):
    """inputs that are not there, outputs that cannot be made"""
    e = Env()
    prev = base(e, x)
    what = x.pick("missing", ("nothing", "known", "revoked", "ct-logs.json", "known and revoked", "output directory is a file", "its parent is a file", "known is a file", "malformed known line", "malformed issuer name", "short revoked line"))
    kind, clobber = x.pick("kind", KINDS), x.pick("clobber", (True, False))
    ct, out, may = e.ct, "out", False
    for d in ("known", "revoked"):
        if d in what.split() and "malformed" not in what and "is a" not in what and "line" not in what:
            shutil.rmtree(e.path(d))
    if what == "ct-logs.json":
        os.unlink(e.path(what))
    elif what == "output directory is a file":
        e.put("out", "file")
    elif what == "its parent is a file":
        e.put("sub", "file")
        out = "sub/out"
    elif what == "known is a file":
        shutil.rmtree(e.path("known"))
        e.put("known", "x")
    elif what == "malformed known line":
        e.put("known/" + name(A), "@0000000000000010\nzz\n")
    elif what == "malformed issuer name":
        e.put("known/x", "@0000000000000010\n01\n")
    elif what == "short revoked line":
        e.put("revoked/" + name(A), "1\n")
    rc = e.run(x, kind, "all", "all", out=out, clobber=clobber)
    if what == "nothing" or (what == "ct-logs.json" and kind == "cascade"):
        if rc:
            x.fail("generation-fails", e.err[-200:])
        else:
            judge(x, e, "out", kind, "all", "all", *BASE, prev)
    elif rc == 0 and any(e.read(out + "/" + o) is None for o in OUTPUTS[:4]):
        x.fail("nothing-made-but-success", f"exit 0 although the filter was not generated: missing {what}: {e.err[-200:]}")
    x.outcome = f"{rc} {what}"


_ops = {}


def operations(x, e, kind):
    """the file operations the generator makes on these inputs"""
    key = kind
    if key not in _ops:
        f = tempfile.mktemp(dir=os.environ["VERIF_WORK"])
        e.run(x, kind, "all", "all", env={"VERIF_OPS": f})
        with open(f) as fh:
            _ops[key] = fh.read().split("\n")[:-1]
        os.unlink(f)
        shutil.rmtree(e.path("out"), True)
    return _ops[key]


ERRNOS = {"EIO": 5, "EACCES": 13, "ENOSPC": 28, "EMFILE": 24, "EINTR": 4}


def short(o):
    return o.replace(name(A), "A").replace(name(B), "B")


def faults(x, kinds=KINDS, errnos=("EIO", "EACCES", "ENOSPC", "EMFILE")):
    """one file operation fails: the run either fails or is right"""
    e = Env()
    prev = base(e, x)
    kind = x.pick("kind", kinds)
    leftovers = x.pick("an earlier output directory", (False, True))
    err = x.pick("error", errnos)
    if leftovers:
        e.put("out/filter", b"old")
        e.put("out/delta/" + name(C), b"0133\n")
    # the number of operations depends on what is there already
    key = (kind, leftovers)
    if key not in _ops:
        f = tempfile.mktemp(dir=os.environ["VERIF_WORK"])
        e.run(x, kind, "all", "all", env={"VERIF_OPS": f})
        with open(f) as fh:
            _ops[key] = fh.read().split("\n")[:-1]
        os.unlink(f)
        shutil.rmtree(e.path("out"))
        if leftovers:
            e.put("out/filter", b"old")
            e.put("out/delta/" + name(C), b"0133\n")
    ops = _ops[key]
    k = x.choose("operation", [("none", None)] + [(f"{err} at {i} {short(o)}", None) for i, o in enumerate(ops)])
    env = {} if k == 0 else {"VERIF_FAULT": str(k - 1), "VERIF_ERRNO": str(ERRNOS[err])}
    rc = e.run(x, kind, "all", "all", env=env)
    if rc == 0:
        made = [o for o in OUTPUTS[:4] if e.read("out/" + o) is not None]
        if len(made) < 4:
            x.fail("nothing-made-but-success", f"exit 0 with only {made} made ({err} at {short(ops[k-1]) if k else 'no operation'}): {e.err[-200:]}")
        else:
            judge(x, e, "out", kind, "all", "all", *BASE, prev, loose=k > 0 and ops[k - 1].endswith("/prev"))
    elif k == 0:
        x.fail("generation-fails", e.err[-200:])
    x.outcome = f"{rc} {kind}"


def kills(x, kinds=KINDS):
    """killed before one of its operations, then run again as the pipeline does (--clobber)"""
    e = Env()
    prev = base(e, x)
    kind = x.pick("kind", kinds)
    ops = operations(x, e, kind)
    k = x.choose("killed before", [("none", None)] + [(f"{i} {short(o)}", None) for i, o in enumerate(ops)])
    if k:
        rc = e.run(x, kind, "all", "all", env={"VERIF_KILL": str(k - 1)})
        if rc != -signal.SIGKILL:
            x.fail("harness-kill", f"not killed: {rc}")
    rc = e.run(x, kind, "all", "all")
    if rc != 0:
        x.fail("generation-fails", f"after having been killed: exit {rc}: {e.err[-200:]}")
    else:
        judge(x, e, "out", kind, "all", "all", *BASE, prev)
    x.outcome = f"{rc}"


SCENARIOS = [
    Scenario("one", one),
    Scenario("reasons", reasons),
    Scenario("serials", serials),
    Scenario("issuers", issuers),
    Scenario("three-issuers", lambda x: issuers(x, (A, B, C), (None, (S,), (S, T)), (None, (S,)), ("clubcard",))),
    Scenario("chain", chain),
    Scenario("sets-change", sets_change),
    Scenario("earlier-revset", prev_forms),
    Scenario("outputs", outputs),
    Scenario("missing", missing),
    Scenario("faults", faults),
    Scenario("kills", kills),
    Scenario("murmurhash", lambda x: one(x, ("--murmurhash3",)), thorough=True),
    Scenario("three-issuers-more", lambda x: issuers(x, (A, B, C), (None, (), (S,), (S, T)), (None, (), (S,), (U,))), thorough=True),
    Scenario("chain-of-three", lambda x: chain(x, ((A, S), (B, S)), 3, KINDS), thorough=True),
    Scenario("chain-cascade", lambda x: chain(x, kinds=("cascade",)), thorough=True),
]
RULE = ("every execution runs the real generator (rust-create-cascade/src, compiled against stand-ins for the filter libraries that keep their contract: an item decided on by neither "
        "the included nor the excluded side may be answered wrongly) as a process on one input; the filter, delta filter, stash and the next run's delta are compared with the definition of U and R")
ASSUME = ["clubcard, clubcard-crlite and rust_cascade are stand-ins that write down what they were given: their own correctness (ribbon solving, serialisation) is not explored",
          "clap, base64, rand, statsd, stderrlog and rayon are stand-ins; parallel tasks run one after the other in every order",
          "the inputs are as aggregate-known and aggregate-crls write them (lower-case hex)"]
