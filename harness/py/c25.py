"""C25: the query tool (rust-query-crlite), run as a process on every database, certificate and answer of the alphabets."""
import atexit, base64, hashlib, itertools, json, multiprocessing.util, os, re, shutil, signal, socket, struct, subprocess, tempfile, threading
from explore import Scenario

BIN, SHIM = os.environ["VERIF_BIN"], os.environ["VERIF_SHIM"]
RS = {"prod": ("https://firefox-settings-attachments.cdn.mozilla.net/", "https://firefox.settings.services.mozilla.com/v1/buckets/security-state-staging/collections/"),
      "stage": ("https://firefox-settings-attachments.cdn.allizom.org/", "https://firefox.settings.services.allizom.org/v1/buckets/security-state-staging/collections/"),
      "dev": ("https://firefox-settings-attachments.cdn.allizom.org/", "https://firefox.settings.services.allizom.org/v1/buckets/security-state-staging/collections/")}
ENROLLED = "https://storage.googleapis.com/crlite-filters-prod/%s/enrolled.json"


# --- certificates -------------------------------------------------------------------------------------------------------
def tlv(tag, *parts):
    b = b"".join(parts)
    n = len(b)
    l = bytes([n]) if n < 128 else (lambda m: bytes([0x80 | len(m)]) + m)(n.to_bytes((n.bit_length() + 7) // 8, "big"))
    return bytes([tag]) + l + b


def oid(s):
    a = [int(x) for x in s.split(".")]
    out = b""
    for v in [a[0] * 40 + a[1]] + a[2:]:
        c = [v & 0x7f]
        v >>= 7
        while v:
            c.insert(0, v & 0x7f | 0x80)
            v >>= 7
        out += bytes(c)
    return tlv(6, out)


def dn(cn):
    return tlv(0x30, tlv(0x31, tlv(0x30, oid("2.5.4.3"), tlv(0x0c, cn.encode()))))


def spki(key):
    return tlv(0x30, tlv(0x30, oid("1.2.840.113549.1.1.1"), tlv(5)), tlv(3, b"\0" + key.encode() * 8))


ALG = tlv(0x30, oid("1.2.840.113549.1.1.11"), tlv(5))
SCTS = "1.3.6.1.4.1.11129.2.4.2"


def sct_list(scts):
    body = b""
    for log, t in scts:
        s = b"\0" + log + struct.pack(">Q", t) + b"\0\0" + b"\4\3" + b"\0\2ok"
        body += struct.pack(">H", len(s)) + s
    return tlv(4, struct.pack(">H", len(body)) + body)


def cert(issuer, signer, subject, key, serial=b"\1", before="20000101000000Z", after="20990101000000Z", exts=()):
    t = tlv(0x30, tlv(0xa0, tlv(2, b"\2")), tlv(2, serial), ALG, dn(issuer), tlv(0x30, tlv(0x18, before.encode()), tlv(0x18, after.encode())), dn(subject), spki(key),
            *([tlv(0xa3, tlv(0x30, *[tlv(0x30, oid(o), tlv(4, v)) for o, v in exts]))] if exts else []))
    return tlv(0x30, t, ALG, tlv(3, b"\0" + hashlib.sha256(spki(signer) + t).digest()))


def pem(der):
    return b"-----BEGIN CERTIFICATE-----\n" + base64.encodebytes(der) + b"-----END CERTIFICATE-----\n"


def issuer_hash(key):
    return hashlib.sha256(spki(key)).digest()


L1, L2, L3 = b"\x11" * 32, b"\x22" * 32, b"\x33" * 32


class Filter:
    """what a published filter says"""

    def __init__(self, coverage, issuers):
        self.coverage, self.issuers = coverage, issuers  # [(log, from, to)], {key: {serial}}

    def bytes(self):
        o = ["CLUBCARD"] + [f"cov {l.hex()} {a} {b}" for l, a, b in self.coverage]
        for k, s in self.issuers.items():
            o.append(f"b {issuer_hash(k).hex()}")
            o += [f"i {issuer_hash(k).hex()} {v.hex()}" for v in sorted(s)]
        return ("\n".join(o) + "\nEND\n").encode()

    def status(self, key, serial, scts):
        if not any(l == log and a <= t <= b for log, t in scts for l, a, b in self.coverage):
            return "NotCovered"
        if key not in self.issuers:
            return "NotEnrolled"
        return "Revoked" if serial in self.issuers[key] else "Good"


def bincode(m):
    o = struct.pack("<Q", len(m))
    for k, v in m.items():
        o += struct.pack("<Q", len(k)) + k + struct.pack("<Q", len(v)) + b"".join(struct.pack("<Q", len(c)) + c for c in v)
    return o


def enrolled_json(cas):
    return json.dumps([{"uniqueID": c[0] + c[1], "pubKeyHash": "", "whitelist": False, "pem": pem(cert("Root", "R", c[0], c[1])).decode()} for c in cas]).encode()


def intermediates(cas):
    m = {}
    for n, k in cas:
        m.setdefault(dn(n), []).append(cert("Root", "R", n, k))
    return bincode(m)


class Leaf:
    """a certificate and what is true of it"""

    def __init__(self, name="CA", signer="k1", serial=b"\1", scts=((L1, 50),), valid="valid", ext="fine"):
        self.name, self.signer, self.serial, self.valid = name, signer, serial, valid
        self.scts = list(scts) if ext == "fine" else []
        e = {"fine": [(SCTS, sct_list(scts))], "none": [], "twice": [(SCTS, sct_list(scts))] * 2, "garbled": [(SCTS, b"\4\2\1\1")]}[ext]
        before, after = {"valid": ("20000101000000Z", "20990101000000Z"), "expired": ("20000101000000Z", "20010101000000Z"), "future": ("20980101000000Z", "20990101000000Z")}[valid]
        self.der = cert(name, signer, "leaf", "leafkey", serial, before, after, [("2.5.29.15", b"\3\2\5\xa0")] + e)

    def verdict(self, cas, filters):
        if (self.name, self.signer) not in cas:
            return "NotEnrolled"
        if self.valid != "valid":
            return "Expired"
        s = [f.status(self.signer, self.serial, self.scts) for f in filters]
        for v in ("Revoked", "Good", "NotEnrolled"):
            if v in s:
                return v
        return "NotCovered"


LEAVES = [Leaf()] + [Leaf(serial=s) for s in (b"\0\x80", b"\x80", b"\2", b"\0\1", b"\0")] + [Leaf(scts=s) for s in (
    ((L1, 9),), ((L1, 10),), ((L1, 100),), ((L1, 101),), ((L2, 50),), ((L3, 50),), (), ((L3, 50), (L1, 50)), ((L1, 150),), ((L1, 500), (L2, 50)))] + [
    Leaf(ext=e) for e in ("none", "twice", "garbled")] + [Leaf(valid=v) for v in ("expired", "future")] + [Leaf(valid="expired", signer="k3")] + [
    Leaf(name=n, signer=k, serial=s) for n in ("CA", "CA2", "CA3") for k in ("k1", "k2", "k3") for s in (b"\1", b"\2") if (n, k) != ("CA", "k1")]


class Env:
    _dir = None

    def __init__(self):
        pid = os.getpid()
        if Env._dir is None or Env._dir[0] != pid:
            base = "/dev/shm" if os.path.isdir("/dev/shm") else os.environ["VERIF_WORK"]
            Env._dir = (pid, tempfile.mkdtemp(prefix="verifq.", dir=base))
            multiprocessing.util.Finalize(None, shutil.rmtree, args=(Env._dir[1], True), exitpriority=10)
            atexit.register(shutil.rmtree, Env._dir[1], True)
        self.root = Env._dir[1]
        for f in os.listdir(self.root):
            shutil.rmtree(os.path.join(self.root, f))
        for d in ("r/db", "r/certs", "web"):
            os.makedirs(os.path.join(self.root, d))
        self.web, self.n = {}, 0

    def path(self, *p):
        return os.path.join(self.root, *p)

    def put(self, p, b):
        with open(self.path(p), "wb") as f:
            f.write(b)

    def read(self, p):
        try:
            with open(self.path(p), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def serve(self, url, body=None, **kw):
        r = dict(kw)
        if body is not None:
            self.n += 1
            r["body"] = f"b{self.n}"
            self.put("web/" + r["body"], body)
        self.web[url] = r

    def db(self):
        return sorted(os.listdir(self.path("r/db")))

    def run(self, x, args, env=None, update=None, channel=None):
        self.put("web/web.json", json.dumps(self.web).encode())
        a = [BIN, "--db", self.path("r/db")] + (["--update", update] if update else []) + (["--channel", channel] if channel else []) + list(args)
        e = {"PATH": os.environ["PATH"], "LD_PRELOAD": SHIM, "VERIF_ROOT": self.path("r"), "VERIF_WEB": self.path("web")}
        e.update(env or {})
        p = subprocess.run(a, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        self.out = (p.stdout + p.stderr).decode("utf-8", "replace")
        x.step(f"{' '.join(a[3:])} {sorted((env or {}).items())} -> {p.returncode} {self.out.strip()[-300:]}")
        return p.returncode

    def verdicts(self):
        """what was said of which certificate"""
        return {os.path.basename(m[1]): m[2] for m in re.finditer(r"^\s*INFO\b[^\n]*?(\S+) (Expired|Good|NotCovered|NotEnrolled|Revoked)\s*$", self.out, re.M)}


def certs(e, leaves, form=lambda d: d):
    for i, l in enumerate(leaves):
        e.put(f"r/certs/{i}.crt", form(l.der))
    return [e.path(f"r/certs/{i}.crt") for i in range(len(leaves))]


def compare(x, e, rc, leaves, cas, filters, what=""):
    """the answers for the certificates 0.crt.. given to an x509 query that ended with rc"""
    got = e.verdicts()
    want = {f"{i}.crt": l.verdict(cas, filters) for i, l in enumerate(leaves)}
    for k, v in want.items():
        if got.get(k) != v:
            l = leaves[int(k.split(".")[0])]
            x.fail("wrong-verdict", f"{what}{l.name}/{l.signer} serial {l.serial.hex()} {l.valid} SCTs {[(a[:1].hex(), t) for a, t in l.scts]}: {got.get(k)}, expected {v}: {e.out[-300:]}")
            return
    if rc != (1 if "Revoked" in want.values() else 0):
        x.fail("wrong-exit-code", f"{what}exit {rc} for {sorted(set(want.values()))}")


CAS = [[("CA", "k1")], [("CA", "k1"), ("CA", "k2")], [("CA", "k2"), ("CA", "k1")], [("CA", "k2")], [("CA", "k1"), ("CA2", "k1")], [("CA", "k1"), ("CA2", "k2"), ("CA3", "k3")], []]
F = [Filter([(L1, 10, 100)], {"k1": {b"\1", b"\0\x80"}}), Filter([(L1, 10, 100)], {"k1": set()}), Filter([(L1, 10, 100)], {"k2": {b"\1"}}),
     Filter([(L1, 101, 200), (L2, 0, 60)], {"k1": {b"\1", b"\2"}, "k2": set()}), Filter([(L1, 10, 100), (L2, 10, 100)], {"k1": {b"\x80"}, "k2": {b"\2"}, "k3": {b"\1"}}), Filter([], {})]


def verdicts(x, most=2):
    """every certificate against every enrolled list and set of filters"""
    e = Env()
    cas = x.pick("enrolled", CAS)
    n = x.pick("filters", range(most + 1))
    fs = [F[x.choose(f"filter {i}", [(str(j), None) for j in range(len(F))])] for i in range(n)]
    e.put("r/db/crlite.intermediates", intermediates(cas))
    for i, f in enumerate(fs):
        e.put(f"r/db/2024010{i}-0-default.filter" + (".delta" if i else ""), f.bytes())
    e.put("r/db/notes.txt", b"not a filter")
    args = certs(e, LEAVES)
    rc = e.run(x, ["x509"] + args, {"VERIF_ORDER": str(x.pick("directory order", range((1, 1, 2, 6)[n])))})
    compare(x, e, rc, LEAVES, cas, fs)
    x.outcome = f"{rc} {sorted(set(e.verdicts().values()))}"


def single(x):
    """one certificate per run, in both encodings, by each way of asking; and things that are no certificates"""
    e = Env()
    i = x.pick("certificate", range(len(LEAVES)))
    form = x.pick("form", ("der", "pem", "pem after text", "garbled", "truncated", "empty", "absent", "directory"))
    how = x.pick("asked by", ("x509", "x509 beside a good one", "crtsh"))
    if how == "crtsh" and form == "directory":
        return
    cas, fs = [("CA", "k1"), ("CA2", "k2")], [F[0], F[3]]
    e.put("r/db/crlite.intermediates", intermediates(cas))
    for k, f in enumerate(fs):
        e.put(f"r/db/2024010{k}-0-default.filter", f.bytes())
    l = LEAVES[i]
    body = {"der": l.der, "pem": pem(l.der), "pem after text": b"subject: leaf\n" + pem(l.der), "garbled": l.der[:1] + b"\xff" + l.der[2:], "truncated": l.der[:-20], "empty": b""}.get(form)
    good = Leaf(serial=b"\3")
    v = l.verdict(cas, fs)
    if how == "crtsh":
        url = "https://crt.sh/?d=77"
        if body is not None:
            e.serve(url, body)
        rc = e.run(x, ["crtsh", "77"])
        bad = form not in ("der", "pem", "pem after text")
        if rc == 0 and (bad or v == "Revoked"):
            x.fail("wrong-exit-code", f"exit 0 for a {v} certificate in form {form}")
        elif rc != 0 and not bad and v != "Revoked":
            x.fail("wrong-exit-code", f"exit {rc} for a {v} certificate: {e.out[-300:]}")
        elif not bad and e.verdicts().get("77") != v:
            x.fail("wrong-verdict", f"{e.verdicts()}, expected {v}")
    else:
        if form == "directory":
            os.makedirs(e.path("r/certs/x.crt"))
        elif body is not None:
            e.put("r/certs/x.crt", body)
        args = [e.path("r/certs/x.crt")]
        if how != "x509":
            e.put("r/certs/good.crt", good.der)
            args = args + [e.path("r/certs/good.crt")]
        rc = e.run(x, ["x509"] + args)
        bad = form not in ("der", "pem", "pem after text")
        got = e.verdicts()
        if got.get("x.crt") != (None if bad else v):
            x.fail("wrong-verdict", f"{got}, expected {v} in form {form}: {e.out[-300:]}")
        elif how != "x509" and got.get("good.crt") != "Good":
            x.fail("wrong-verdict", f"{got} for the certificate beside it: {e.out[-300:]}")
        elif not bad and rc != (1 if v == "Revoked" else 0):
            x.fail("wrong-exit-code", f"exit {rc} for a {v} certificate")
    x.outcome = f"{rc} {v} {form}"


def unusable(x):
    """a database with a file that cannot be used gives no answers"""
    e = Env()
    cas = [("CA", "k1")]
    what = x.pick("filter", ("fine", "empty", "truncated", "garbled", "a directory"))
    inter = x.pick("intermediates", ("fine", "empty", "truncated", "absent", "absent and not offered", "absent and offered garbled"))
    rec = x.pick("files", ("filter and delta", "filter", "delta", "none"))
    fs = []
    if rec in ("filter and delta", "filter"):
        e.put("r/db/20240101-2-default.filter", F[1].bytes())
        fs.append(F[1])
    bad = False
    if rec in ("filter and delta", "delta"):
        b = F[0].bytes()
        p = "r/db/20240101-10-default.filter.delta"
        if what == "a directory":
            os.makedirs(e.path(p))
        else:
            e.put(p, {"fine": b, "empty": b"", "truncated": b[:-5], "garbled": b"\0" + b}[what])
        bad = what != "fine"
        fs.append(F[0])
    i = intermediates(cas)
    if not inter.startswith("absent"):
        e.put("r/db/crlite.intermediates", {"fine": i, "empty": b"", "truncated": i[:-1]}[inter])
    elif inter == "absent":
        run = {"filter and delta": "20240101-10", "filter": "20240101-2", "delta": "20240101-10", "none": None}[rec]
        for r in ("20240101-2", "20240101-10"):
            e.serve(ENROLLED % r, enrolled_json(cas if r == run else [("CA", "k2")]))
    elif inter.endswith("garbled"):
        for r in ("20240101-2", "20240101-10"):
            e.serve(ENROLLED % r, enrolled_json(cas)[:-3])
    bad = bad or inter not in ("fine", "absent") or (inter == "absent" and rec == "none")
    leaves = [Leaf(), Leaf(serial=b"\3"), Leaf(signer="k2")]
    rc = e.run(x, ["x509"] + certs(e, leaves))
    if bad:
        if rc == 0 or e.verdicts():
            x.fail("answer-from-unusable-database", f"exit {rc} {e.verdicts()} with a filter that is {what} and intermediates {inter}")
    else:
        compare(x, e, rc, leaves, cas, fs)
    x.outcome = f"{rc} {bad}"


# --- updating -----------------------------------------------------------------------------------------------------------
class Published:
    """the collection as the publisher leaves it: base and deltas per channel"""

    def __init__(self):
        self.records = []

    def add(self, run, channel, f, full, record=True):
        name = f"{run}-{channel}.filter" + ("" if full else ".delta")
        self.records.append({"name": name, "channel": channel, "full": full, "f": f, "bytes": f.bytes(), "loc": f"security-state-staging/cert-revocations/{channel}-{run}" + ("f" if full else "d"), "say": record})

    def of(self, channel):
        return [r for r in self.records if r["channel"] == channel]

    def serve(self, e, instance, cas, newest, bad=None):
        att, base = RS[instance]
        data = []
        for r in self.records:
            d = {"id": r["name"], "incremental": not r["full"], "attachment": {"hash": hashlib.sha256(r["bytes"]).hexdigest(), "size": len(r["bytes"]), "filename": r["name"], "location": r["loc"], "mimetype": "x"},
                 "details": {"name": r["name"]}, "coverage": [], "effectiveTimestamp": 1}
            if r["say"]:
                d["channel"] = r["channel"]
            data.append(d)
            e.serve(att + r["loc"], r["bytes"])
        e.serve(base + "cert-revocations/records", json.dumps({"data": data}).encode())
        e.serve(ENROLLED % newest, enrolled_json(cas))


# what is revoked in run i, for the default channel; the compat channel says less
RUNS = ["20240101-2", "20240101-10", "20240102-0", "20240102-1"]
DEF = [Filter([(L1, 10, 100)], {"k1": {b"\1"}, "k2": set()}), Filter([(L1, 10, 100)], {"k1": {b"\2"}, "k2": {b"\1"}}), Filter([(L1, 10, 200)], {"k1": {b"\3"}, "k2": set()}), Filter([(L1, 10, 200)], {"k1": {b"\0\x80"}, "k2": set()})]
COM = [Filter([(L1, 10, 100)], {"k1": {b"\5"}}), Filter([(L1, 10, 100)], {"k1": {b"\2"}}), Filter([(L1, 10, 100)], {"k1": set()}), Filter([(L1, 10, 100)], {"k1": {b"\6"}})]
ASKED = [Leaf(serial=s, signer=k, scts=((L1, t),)) for s in (b"\1", b"\2", b"\3", b"\5", b"\6", b"\0\x80", b"\7") for k in ("k1", "k2") for t in (50, 150)]


def publish(first, last, both=True, say=True):
    p = Published()
    for i in range(first, last + 1):
        p.add(RUNS[i], "default", DEF[i], i == first, say)
        if both:
            p.add(RUNS[i], "compat", COM[i], i == first)
    return p


def cas_of(last):
    return [[("CA", "k1")], [("CA", "k1"), ("CA", "k2")], [("CA", "k2")], [("CA", "k1"), ("CA3", "k2")]][last]


def check_db(x, e, p, channel, cas, what=""):
    """after a successful update: the database and what it answers"""
    have = {f: e.read("r/db/" + f) for f in e.db() if f.endswith((".filter", ".delta"))}
    want = {r["name"]: r["bytes"] for r in p.of(channel)}
    if have != want:
        x.fail("wrong-database", f"{what}files {sorted(have)}, published {sorted(want)}" + ("" if sorted(have) != sorted(want) else ", with other contents"))
        return
    rc = e.run(x, ["x509"] + certs(e, ASKED))
    compare(x, e, rc, ASKED, cas, [r["f"] for r in p.of(channel)], what)


def updates(x):
    """update an empty, older or foreign database to what is published, by every channel"""
    e = Env()
    first, last = x.pick("published", [(0, 0), (0, 1), (1, 1), (0, 2), (1, 3), (2, 3), (3, 3)])
    was = x.pick("before", (None, (0, 0), (0, 1), (0, 2), (1, 2), (3, 3)))
    was_channel = x.pick("of", ("default", "compat")) if was else None
    channel = x.pick("channel", (None, "default", "compat"))
    instance = x.pick("instance", ("prod", "stage", "dev"))
    say = x.pick("channel of default records", ("said", "not said")) == "said"
    damage = x.pick("damage", ("none", "other content", "truncated", "unrelated files")) if was else "none"
    if was:
        for r in publish(*was).of(was_channel):
            b = r["bytes"]
            e.put("r/db/" + r["name"], {"other content": DEF[3].bytes() if b != DEF[3].bytes() else DEF[0].bytes(), "truncated": b[:-7]}.get(damage, b))
        e.put("r/db/crlite.intermediates", intermediates([("CA", "k3")]))
        if damage == "unrelated files":
            e.put("r/db/notes.txt", b"keep")
            e.put("r/db/filters", b"keep")
    p = publish(first, last, True, say)
    p.serve(e, instance, cas_of(last), RUNS[last])
    rc = e.run(x, ["x509"] + certs(e, ASKED), update=instance, channel=channel, env={"VERIF_ORDER": str(x.pick("directory order", (0, 1)))})
    cas = cas_of(last)
    fs = [r["f"] for r in p.of(channel or "default")]
    compare(x, e, rc, ASKED, cas, fs, "with the update: ")
    check_db(x, e, p, channel or "default", cas)
    if damage == "unrelated files" and (e.read("r/db/notes.txt"), e.read("r/db/filters")) != (b"keep", b"keep"):
        x.fail("unrelated-file", "files that are not filters were changed")
    x.outcome = f"{rc} {first}-{last}"


def refused(x):
    """collections and answers that cannot be used: the update fails, and no later query answers from damaged files"""
    e = Env()
    was = x.pick("before", (None, (0, 0), (0, 1)))
    channel = x.pick("channel", ("default", "compat"))
    p = publish(0, 2)
    instance = "prod"
    att, base = RS[instance]
    if was:
        for r in publish(*was).of(channel):
            e.put("r/db/" + r["name"], r["bytes"])
        e.put("r/db/crlite.intermediates", intermediates(cas_of(was[1])))
    kind = x.pick("defect", ("no full filter", "two full filters", "no records", "collection", "filter", "delta", "last delta", "enrolled", "hash"))
    mine = p.of(channel)
    how = "gone"
    targets = {"collection": base + "cert-revocations/records", "filter": att + mine[0]["loc"], "delta": att + mine[1]["loc"], "last delta": att + mine[2]["loc"], "enrolled": ENROLLED % RUNS[2]}
    if kind in targets:
        how = x.pick("answer", ("gone", "connect", "read", "empty", "truncated", "other", "500"))
    if kind == "no full filter":
        p.records = [r for r in p.records if not (r["full"] and r["channel"] == channel)]
    elif kind == "two full filters":
        p.add("20240102-1", channel, DEF[3], True)
    elif kind == "no records":
        p.records = [r for r in p.records if r["channel"] != channel]
    p.serve(e, instance, cas_of(2), RUNS[2])
    if kind == "hash":
        d = json.loads(e.read("web/" + e.web[base + "cert-revocations/records"]["body"]))
        h = x.pick("hash", ("not hex", "empty", "upper case", "short"))
        for r in d["data"]:
            if r["attachment"]["filename"] == mine[1]["name"]:
                r["attachment"]["hash"] = {"not hex": "zz" * 32, "empty": "", "upper case": r["attachment"]["hash"].upper(), "short": r["attachment"]["hash"][:-2]}[h]
        e.serve(base + "cert-revocations/records", json.dumps(d).encode())
        how = h
    elif kind in targets:
        u = targets[kind]
        body = e.read("web/" + e.web[u]["body"])
        if how == "gone":
            del e.web[u]
        elif how in ("connect", "read"):
            e.web[u]["fault"] = how
        elif how == "500":
            e.serve(u, b"", status=500)
        else:
            e.serve(u, {"empty": b"", "truncated": body[:-4], "other": DEF[3].bytes() if kind != "enrolled" else b'{"data": []}'}[how])
    # what is there already with the announced digest need not be fetched
    there = {"filter": 0, "delta": 1, "last delta": 2}
    fine = (kind == "hash" and how == "upper case") or (kind in there and mine[there[kind]]["name"] in e.db())
    rc = e.run(x, ["x509"] + certs(e, ASKED), update=instance, channel=channel)
    if not fine:
        if rc == 0 or e.verdicts():
            x.fail("failed-update-not-reported", f"{kind} {how}: exit {rc}, {len(e.verdicts())} answers: {e.out[-300:]}")
            return
        if kind in ("no full filter", "two full filters", "no records", "collection"):
            have = {f: e.read("r/db/" + f) for f in e.db() if f.endswith((".filter", ".delta"))}
            want = {r["name"]: r["bytes"] for r in publish(*was).of(channel)} if was else {}
            if have != want:
                x.fail("unusable-collection-changed-database", f"{kind} {how}: {sorted(have)}, before {sorted(want)}")
                return
        intact(x, e, f"{kind} {how}: ")
    e.web.clear()
    q = publish(0, 2)
    q.serve(e, instance, cas_of(2), RUNS[2])
    rc2 = e.run(x, ["x509"] + certs(e, ASKED), update=instance, channel=channel)
    compare(x, e, rc2, ASKED, cas_of(2), [r["f"] for r in q.of(channel)], "with the next update: ")
    check_db(x, e, q, channel, cas_of(2), "after the next update: ")
    x.outcome = f"{rc} {kind} {how}"


def intact(x, e, what):
    """a query never answers from a file that is not what was published under its name"""
    known = {}
    for pub in (publish(0, 3), publish(1, 3), publish(2, 3), publish(3, 3)):
        for r in pub.records:
            known.setdefault(r["name"], set()).add(r["bytes"])
    e2 = dict(e.web)
    e.web.clear()
    rc = e.run(x, ["x509"] + certs(e, ASKED))
    e.web.update(e2)
    answers = e.verdicts()
    for f in e.db():
        if f.endswith((".filter", ".delta")) and e.read("r/db/" + f) not in known.get(f, ()) and (answers or rc == 0):
            x.fail("answer-from-damaged-file", f"{what}{f} is damaged, and a query answers {len(answers)} certificates with exit {rc}")
            return


_ops = {}
UPDATE = [(None, (0, 1)), ((0, 0), (0, 1)), ((0, 1), (2, 3)), ((0, 1), (0, 1))]


def prepare(x, e):
    was, now = x.pick("update", UPDATE)
    if was:
        for r in publish(*was).of("default"):
            e.put("r/db/" + r["name"], r["bytes"])
        e.put("r/db/crlite.intermediates", intermediates(cas_of(was[1])))
    p = publish(*now)
    p.serve(e, "prod", cas_of(now[1]), RUNS[now[1]])
    return was, now, p


def operations(key, e, x, args, **kw):
    """the file operations of that run, made in a copy that is put back"""
    if key not in _ops:
        shutil.copytree(e.path("r"), e.path("keep"))
        f = e.path("web/ops")
        e.run(x, args, env={"VERIF_OPS": f}, **kw)
        with open(f) as fh:
            _ops[key] = fh.read().split("\n")[:-1]
        shutil.rmtree(e.path("r"))
        os.rename(e.path("keep"), e.path("r"))
    return _ops[key]


def faults(x, errnos=("EIO", "EACCES", "ENOSPC", "EMFILE")):
    """one file operation of an update and query fails: the answers are right or there are none"""
    e = Env()
    was, now, p = prepare(x, e)
    args = ["x509"] + certs(e, ASKED[:4])
    ops = operations(("u", was, now), e, x, args, update="prod")
    err = x.pick("error", errnos)
    k = x.choose("operation", [("none", None)] + [(f"{err} at {i} {o}", None) for i, o in enumerate(ops)])
    rc = e.run(x, args, update="prod", env={} if k == 0 else {"VERIF_FAULT": str(k - 1), "VERIF_ERRNO": str({"EIO": 5, "EACCES": 13, "ENOSPC": 28, "EMFILE": 24}[err])})
    at = "" if k == 0 else f"{err} at {ops[k - 1]}: "
    judge(x, e, rc, p, now, at, k > 0 and "/certs" in ops[k - 1])
    x.outcome = f"{rc} {was} {now}"


def judge(x, e, rc, p, now, at, unread):
    """an update and query that ended with rc, then an undisturbed one"""
    fs = [r["f"] for r in p.of("default")]
    want = {f"{i}.crt": l.verdict(cas_of(now[1]), fs) for i, l in enumerate(ASKED[:4])}
    got = e.verdicts()
    for c, v in got.items():
        if want[c] != v:
            x.fail("wrong-verdict", f"{at}{c}: {v}, expected {want[c]}: {e.out[-300:]}")
            return
    if rc == 0 and not unread and "Revoked" in want.values():
        x.fail("revoked-not-reported", f"{at}exit 0 although revoked certificates were asked for: {e.out[-300:]}")
        return
    if not at:
        compare(x, e, rc, ASKED[:4], cas_of(now[1]), fs)
    if x.violations:
        return
    intact(x, e, at)
    if x.violations:
        return
    rc = e.run(x, ["x509"] + certs(e, ASKED), update="prod")
    compare(x, e, rc, ASKED, cas_of(now[1]), fs, at + "with the next update: ")
    if not x.violations:
        check_db(x, e, p, "default", cas_of(now[1]), at + "after the next update: ")


def kills(x):
    """killed before, or in the middle of, one of its operations; queried; then updated again"""
    e = Env()
    was, now, p = prepare(x, e)
    args = ["x509"] + certs(e, ASKED[:4])
    ops = operations(("u", was, now), e, x, args, update="prod")
    alts = [{}] + [{"VERIF_KILL": str(i)} for i in range(len(ops))] + [{"VERIF_TORN": str(i)} for i, o in enumerate(ops) if o.startswith("write")]
    k = x.choose("killed", [(str(sorted(a.items())), None) for a in alts])
    rc = e.run(x, args, update="prod", env=alts[k])
    if k and rc != -signal.SIGKILL:
        x.fail("harness-kill", f"not killed: {rc}")
        return
    judge(x, e, 1 if k else rc, p, now, f"killed {alts[k]}: " if k else "", False)
    x.outcome = f"{rc} {was} {now}"


def query_faults(x, errnos=("EIO", "EACCES", "EMFILE")):
    """one file operation of a query fails"""
    e = Env()
    n = x.pick("published", ((0, 0), (0, 1), (1, 3)))
    p = publish(*n)
    for r in p.of("default"):
        e.put("r/db/" + r["name"], r["bytes"])
    i = x.pick("intermediates", ("there", "to be fetched"))
    if i == "there":
        e.put("r/db/crlite.intermediates", intermediates(cas_of(n[1])))
    p.serve(e, "prod", cas_of(n[1]), RUNS[n[1]])
    leaves = ASKED[::3]
    args = ["x509"] + certs(e, leaves)
    order = x.pick("directory order", (0, 1, 5))
    ops = operations(("q", n, i, order), e, x, args)
    err = x.pick("error", errnos)
    k = x.choose("operation", [("none", None)] + [(f"{err} at {j} {o}", None) for j, o in enumerate(ops)])
    env = {"VERIF_ORDER": str(order)}
    if k:
        env.update({"VERIF_FAULT": str(k - 1), "VERIF_ERRNO": str({"EIO": 5, "EACCES": 13, "EMFILE": 24}[err])})
    rc = e.run(x, args, env)
    fs = [r["f"] for r in p.of("default")]
    want = {f"{j}.crt": l.verdict(cas_of(n[1]), fs) for j, l in enumerate(leaves)}
    got = e.verdicts()
    at = "" if k == 0 else f"{err} at {ops[k - 1]}: "
    for c, v in got.items():
        if want[c] != v:
            x.fail("wrong-verdict", f"{at}{c}: {v}, expected {want[c]}: {e.out[-300:]}")
            return
    if k == 0:
        compare(x, e, rc, leaves, cas_of(n[1]), fs)
    elif rc == 0 and (set(want) - set(got)) - {os.path.basename(ops[k - 1].split(" ")[1])}:
        x.fail("missing-answer", f"{at}exit 0 without an answer for {sorted(set(want) - set(got))}")
    elif rc == 0 and "Revoked" in got.values():
        x.fail("wrong-exit-code", f"{at}exit 0 although a certificate is revoked")
    x.outcome = f"{rc} {n}"


# --- hosts --------------------------------------------------------------------------------------------------------------
class Host:
    """a server on the loopback interface: behaviours of its successive connections, the last one repeating"""

    def __init__(self, behaviours):
        self.s = socket.socket()
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(8)
        self.port = self.s.getsockname()[1]
        self.b, self.n, self.names = behaviours, 0, []
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()

    def loop(self):
        while True:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            b = self.b[min(self.n, len(self.b) - 1)]
            self.n += 1
            try:
                c.settimeout(10)
                name = b""
                while not name.endswith(b"\n"):
                    d = c.recv(1)
                    if not d:
                        break
                    name += d
                self.names.append(name.decode().strip())
                if b == "reset":
                    c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                elif b == "garbled":
                    c.sendall(struct.pack(">I", 4) + b"\x30\x82\xff\xff")
                elif b == "cut":
                    c.sendall(struct.pack(">I", 900) + b"\x30\x82")
                else:
                    for d in b:
                        c.sendall(struct.pack(">I", len(d)) + d)
                    c.shutdown(socket.SHUT_WR)
            except OSError:
                pass
            c.close()

    def close(self):
        try:
            self.s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        self.s.close()


def hosts(x, count=2):
    """queries of hosts, given directly or as a list: exit 0 only if every host's certificate was obtained and none is revoked"""
    e = Env()
    cas, fs = [("CA", "k1")], [F[0]]
    e.put("r/db/crlite.intermediates", intermediates(cas))
    e.put("r/db/20240101-0-default.filter", F[0].bytes())
    good, rev, other = Leaf(serial=b"\3"), Leaf(serial=b"\1"), Leaf(signer="k9")
    ca = cert("Root", "R", "CA", "k1")
    how = x.pick("asked by", ("https", "signoff"))
    n = x.pick("hosts", range(0 if how == "signoff" else 1, count + 1))
    text = x.pick("list", ("plain", "comments and blanks", "CRLF", "no end of line", "503 and empty", "503 with hosts", "connect", "read", "gone")) if how == "signoff" else "plain"
    kinds = {"good": [[good.der, ca]], "revoked": [[rev.der, ca]], "another issuer": [[other.der]], "good at the second attempt": ["reset", [good.der, ca]], "revoked at the second attempt": ["cut", [rev.der, ca]],
             "down": ["reset"], "garbled": ["garbled"], "chain the other way round": [[good.der, rev.der]], "bad port": None, "unknown name": None}
    servers, names, chosen = [], [], []
    try:
        for i in range(n):
            k = x.pick(f"host {i}", list(kinds))
            chosen.append(k)
            if k == "bad port":
                names.append("127.0.0.1:https")
            elif k == "unknown name":
                names.append("no such name")
            else:
                servers.append(Host(kinds[k]))
                names.append(f"127.0.0.1:{servers[-1].port}")
        if how == "https":
            rc = e.run(x, ["https"] + names)
        else:
            url = "https://hosts.example/list"
            body = {"comments and blanks": "# top hosts\n\n" + "\n  # more\n".join("  " + m + "  " for m in names) + "\n\n", "CRLF": "".join(m + "\r\n" for m in names), "no end of line": "\n".join(names)}.get(text, "".join(m + "\n" for m in names)).encode()
            if text == "503 and empty":
                e.serve(url, b"", status=503)
            elif text == "503 with hosts":
                e.serve(url, body, status=503)
            elif text in ("connect", "read"):
                e.serve(url, body, fault=text)
            elif text != "gone":
                e.serve(url, body)
            rc = e.run(x, ["signoff", url])
        x.log[-1] = x.log[-1].split(" ->")[1] if " ->" in x.log[-1] else x.log[-1]
    finally:
        for s in servers:
            s.close()
    want = {"good": "Good", "good at the second attempt": "Good", "revoked": "Revoked", "revoked at the second attempt": "Revoked", "another issuer": "NotEnrolled", "chain the other way round": "Good"}
    fetched = text not in ("503 and empty", "503 with hosts", "connect", "read", "gone")
    ok = fetched and all(want.get(k) not in (None, "Revoked") for k in chosen)
    if rc == 0 and not ok:
        x.fail("hosts-pass-unchecked", f"exit 0 for {chosen} ({how}, list {text}): {e.out[-300:]}")
    elif rc != 0 and ok:
        x.fail("hosts-refused", f"exit {rc} for {chosen} ({how}, list {text}): {e.out[-300:]}")
    elif ok and len(re.findall(r"INFO\b.* (Good|NotEnrolled)\s*$", e.out, re.M)) != n:
        x.fail("wrong-verdict", f"{chosen}: {e.out[-300:]}")
    x.outcome = f"{rc} {how} {text} {n}"


SCENARIOS = [
    Scenario("verdicts", verdicts),
    Scenario("single", single),
    Scenario("unusable", unusable),
    Scenario("updates", updates),
    Scenario("refused", refused),
    Scenario("faults", faults),
    Scenario("kills", kills),
    Scenario("query-faults", query_faults),
    Scenario("hosts", hosts),
    Scenario("verdicts-three-filters", lambda x: verdicts(x, 3), thorough=True, quick=False),
    Scenario("hosts-three", lambda x: hosts(x, 3), thorough=True, quick=False),
]
RULE = ("every execution runs the real query tool (rust-query-crlite/src, compiled against stand-ins for the network, TLS, certificate and filter libraries) as one or more processes on an enumerated database, enrolled list, "
        "certificate, collection and web, with enumerated failing file operations, failing answers and kill points; its verdicts and exit code are compared with an own evaluation of what is published")
ASSUME = ["clubcard-crlite is a stand-in for its contract (coverage, enrolled issuers, revoked serials; a damaged filter does not load)",
          "x509-parser, reqwest, rustls, pem, base64, der-parser and stderrlog are stand-ins; a signature verifies under exactly one key",
          "nobody else changes the database directory while the tool runs"]
