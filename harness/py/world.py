"""The world the repository's Python files run in: a clock, a storage bucket, a Kinto server and a web, all in memory,
every request to which may fail before or after taking effect, or be the point where the process dies."""
import copy, hashlib, importlib, importlib.util, io, json, os, shutil, sys, tempfile, types
import datetime as real_datetime, time as real_time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
W = None  # the current world


def clone(v):
    """a copy of a JSON-like value"""
    if isinstance(v, dict):
        return {k: clone(u) for k, u in v.items()}
    if isinstance(v, list):
        return [clone(u) for u in v]
    return v


class Crash(BaseException):
    """the process dies here"""


def world():
    return W


# ---- the clock -------------------------------------------------------------------------------------------------
class VDateTime(real_datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        t = W.now
        r = cls.fromtimestamp(t, tz) if tz else cls.utcfromtimestamp(t)
        return r

    @classmethod
    def utcnow(cls):
        return cls.utcfromtimestamp(W.now)

    @classmethod
    def today(cls):
        return cls.now()


class VDate(real_datetime.date):
    @classmethod
    def today(cls):
        return VDateTime.utcfromtimestamp(W.now).date()


def shim_modules():
    d = types.ModuleType("datetime")
    d.__dict__.update({k: v for k, v in real_datetime.__dict__.items() if not k.startswith("__")})
    d.datetime, d.date = VDateTime, VDate
    t = types.ModuleType("time")
    t.__dict__.update({k: v for k, v in real_time.__dict__.items() if not k.startswith("__")})
    t.sleep = lambda s: W.sleep(s)
    t.time = t.monotonic = t.perf_counter = lambda: W.now
    return {"datetime": d, "time": t}


def load_publisher():
    """imports moz_kinto_publisher/main.py and workflow with the stand-ins in place; returns main."""
    sys.path[:0] = [os.path.join(REPO, "moz_kinto_publisher"), os.path.join(HERE, "stubs"), REPO]
    for m in ("main", "settings", "workflow"):
        sys.modules.pop(m, None)
    saved = {k: sys.modules[k] for k in ("datetime", "time")}
    sys.modules.update(shim_modules())
    try:
        import main
    finally:
        sys.modules.update(saved)
    return main


# ---- failures --------------------------------------------------------------------------------------------------
class World:
    def __init__(self, x, start="2024-01-01T00:00:00"):
        global W
        W = self
        self.x = x
        self.now = real_datetime.datetime.fromisoformat(start).replace(tzinfo=real_datetime.timezone.utc).timestamp()
        self.gcs = {}
        self.kinto = {}
        self.attachments = {}
        self.ids = 0
        self.created = set()
        self.stamp = 0
        self.dead = False
        self.faults = lambda kind, name: ()  # (desc, class, action): which failures a request may meet
        self.monitor = None  # called after every effect
        self.on_sleep = None
        self.on_op = None
        self.web = {}
        self.requests = []
        self.base_url = "https://attachments.example/"
        self._dir = None

    # scratch directory of this execution
    @property
    def dir(self):
        if self._dir is None:
            root = os.environ.get("VERIF_WORK", "/tmp")
            if os.path.isdir("/dev/shm"):
                root = "/dev/shm"
            self._dir = tempfile.mkdtemp(prefix="verifpy.", dir=root)
        return self._dir

    def close(self):
        if self._dir:
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None

    def sleep(self, s):
        if self.dead:
            raise Crash()
        self.now += s
        if self.on_sleep:
            self.on_sleep(s)

    def op(self, kind, name, effect, mutating=False):
        """one request: meets a failure or takes effect."""
        if self.dead:
            raise Crash()
        if self.on_op:
            self.on_op(kind, name)
        alts = [("ok", None, None)] + list(self.faults(kind, name))
        if not mutating:
            alts = [a for a in alts if not a[0].endswith("after taking effect")]
        i = self.x.choose(f"{kind} {name}", [(a[0], a[1]) for a in alts])
        desc, _, action = alts[i]
        self.x.step(f"{kind} {name}" + (f" [{desc}]" if i else ""))
        if mutating:
            self.requests.append(f"{kind} {name}")
        if desc == "the process dies before it":
            self.dead = True
            raise Crash()
        if i == 0 or desc.endswith("after taking effect"):
            r = effect()
            if mutating and self.monitor:
                self.monitor()
            if i == 0:
                return r
        if desc == "the process dies after taking effect":
            self.dead = True
            raise Crash()
        raise action()

    def restart(self):
        self.dead = False

    # ---- Kinto
    def collection(self, name):
        return self.kinto.setdefault(name, {"records": {}, "status": "signed", "last_modified": 0})

    def touch(self, name, wip=True):
        c = self.collection(name)
        self.stamp += 1
        c["last_modified"] = self.stamp
        if wip:
            c["status"] = "work-in-progress"
        return self.stamp

    def new_id(self):
        self.ids += 1
        return f"id-{self.ids:04d}"

    def attach(self, coll, rid, name, content, mime):
        """what the attachment endpoint does"""
        if isinstance(content, str):
            content = content.encode()
        h = hashlib.sha256(content).hexdigest()
        loc = f"{coll}/{rid}-{self.touch(coll)}"
        self.attachments[loc] = content
        self.collection(coll)["records"][rid]["attachment"] = {"hash": h, "size": len(content), "filename": name, "location": loc, "mimetype": mime}

    def put_record(self, coll, data, rid=None):
        """places a record, for initial states"""
        rid = rid or self.new_id()
        self.collection(coll)["records"][rid] = dict(clone(data), id=rid)
        return rid


def std_faults(kinto=True, gcs=True, crash=True, only=None):
    """the failures a request may meet"""
    import google.api_core.exceptions as gexc, kinto_http.exceptions as kexc, requests
    def f(kind, name):
        if only and not only(kind, name):
            return ()
        r = []
        if kind == "kinto" and kinto:
            r += [("Kinto error before", "fault", lambda: kexc.answered(503, name + " failed")),
                  ("Kinto error after taking effect", "fault", lambda: kexc.answered(503, name + " failed")),
                  ("connection lost before", "fault", lambda: requests.exceptions.ConnectionError(name)),
                  ("connection lost after taking effect", "fault", lambda: requests.exceptions.ConnectionError(name))]
        elif kind == "web" and kinto:
            r += [("connection lost", "fault", lambda: requests.exceptions.ConnectionError(name))]
        elif kind == "gcs" and gcs:
            r += [("storage unavailable", "fault", lambda: gexc.ServiceUnavailable(name)),
                  ("storage refuses", "fault", lambda: gexc.Forbidden(name)),
                  ("storage unavailable after taking effect", "fault", lambda: gexc.ServiceUnavailable(name))]
        if crash:
            r += [("the process dies before it", "crash", None)]
        return r
    return f


def _extra():
    def objects(self, bucket):
        return self.gcs.setdefault(bucket, {})

    def put_object(self, bucket, name, data):
        self.gcs.setdefault(bucket, {})[name] = data

    def listing(self, coll):
        """records, most recently modified first, as Kinto lists them"""
        return sorted(self.collection(coll)["records"].values(), key=lambda r: -r.get("last_modified", 0)) if not getattr(self, "order", None) else self.order(coll)

    World.objects, World.put_object, World.listing = objects, put_object, listing


_extra()
