"""The world as seen from a process of the workflow scripts: every request goes to the exploring process."""
import datetime as _dt, json, os, socket, sys, time as _time

_real = _dt.datetime
_now = [float(os.environ["VERIF_NOW"])]


class VDateTime(_real):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(_now[0], tz) if tz else cls.utcfromtimestamp(_now[0])

    @classmethod
    def utcnow(cls):
        return cls.utcfromtimestamp(_now[0])


_dt.datetime = VDateTime
_time.sleep = lambda s: world().sleep(s)
_time.time = _time.monotonic = lambda: _now[0]


class Client:
    def __init__(self):
        self.s = socket.socket(socket.AF_UNIX)
        self.s.connect(os.environ["VERIF_SOCK"])
        self.f = self.s.makefile("rwb")

    now = property(lambda self: _now[0])

    def ask(self, *msg):
        self.f.write(json.dumps(msg).encode() + b"\n")
        self.f.flush()
        r = json.loads(self.f.readline() or b'["die"]')
        if r[0] == "die":
            os._exit(137)
        return r

    def sleep(self, s):
        _now[0] += s

    def objects(self, bucket):
        return Objects(self)

    def put_object(self, bucket, name, data):
        self.ask("put", name, data.decode("latin-1") if data is not None else None)

    def op(self, kind, name, effect, mutating=False):
        import google.api_core.exceptions as gexc
        r = self.ask("op", kind, name, mutating)
        if r[0] == "before":
            raise getattr(gexc, r[1])(name)
        v = effect()
        if r[0] == "after":
            raise getattr(gexc, r[1])(name)
        return v


class Objects(dict):
    def __init__(self, c):
        self.c = c

    def __iter__(self):
        return iter(self.c.ask("names")[1])

    def __contains__(self, n):
        return n in self.c.ask("names")[1]

    def get(self, n, default=None):
        v = self.c.ask("get", n)[1]
        return default if v is None else v.encode("latin-1")

    def pop(self, n, default=None):
        self.c.ask("pop", n)


_c = []


def world():
    if not _c:
        _c.append(Client())
    return _c[0]
