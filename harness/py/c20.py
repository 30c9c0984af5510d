"""C20: the published intermediates match the enrolled list."""
import base64
from publisher import *
from explore import Scenario

RULE = ("Each execution runs the real publisher's main() against an in-memory Kinto server, bucket and web with an enumerated enrolled list and an enumerated state of the intermediates collection, with enumerated failures and crashes; "
        "an independent reader compares the collection with the list whenever review is asked for and after a run without failures.")
ASSUME = ["one publisher runs at a time; Kinto requests are atomic and a collection's status returns to work-in-progress with every change",
          "certificates are opaque to the publisher apart from subject, public key, DER bytes and end of validity, which a stand-in of the cryptography package reads from a simple encoding",
          "attachments of records that exist are served by the attachment server"]

CERTS = {  # name: subject, key, end of validity
    "A": ("CN=A", "key-a", "2030-01-01T00:00:00"),
    "A2": ("CN=A", "key-a", "2031-01-01T00:00:00"),   # same name and key, another certificate
    "B": ("CN=B", "key-b", "2030-01-01T00:00:00"),
    "Bx": ("CN=Bx", "key-b", "2030-01-01T00:00:00"),  # same key, another name
    "E": ("CN=E", "key-e", "2020-01-01T00:00:00"),    # expired
}


def der(name):
    s, k, na = CERTS[name]
    return json.dumps({"subject": s, "key": k, "na": na, "name": name}).encode()


def pem(name):
    b = base64.b64encode(der(name)).decode()
    return "-----BEGIN CERTIFICATE-----\n" + "\n".join(b[i:i + 64] for i in range(0, len(b), 64)) + "\n-----END CERTIFICATE-----\n"


def sha(b):
    return hashlib.sha256(b).digest()


def entry(name, **k):
    s, key, _ = CERTS[name]
    e = {"uniqueID": base64.urlsafe_b64encode(sha(der(name))).decode(), "pubKeyHash": base64.urlsafe_b64encode(sha(key.encode())).decode(), "subject": s, "pem": pem(name), "enrolled": True}
    e.update(k)
    return e


ODD_LOCAL = {
    "no pem": lambda n: {k: v for k, v in entry(n).items() if k != "pem"},
    "no subject": lambda n: {k: v for k, v in entry(n).items() if k != "subject"},
    "wrong key hash": lambda n: entry(n, pubKeyHash=base64.urlsafe_b64encode(sha(b"other")).decode()),
    "short key hash": lambda n: entry(n, pubKeyHash="AAAA"),
    "garbled key hash": lambda n: entry(n, pubKeyHash="!!"),
    "garbled pem": lambda n: entry(n, pem="-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n"),
}


def put_remote(w, name, form="ok"):
    """a record of the collection for a certificate, in some form"""
    dh = base64.standard_b64encode(sha(der(name))).decode()
    rec = {"derHash": dh}
    if form == "with older fields":
        rec.update(subject=CERTS[name][0], pubKeyHash=base64.standard_b64encode(sha(CERTS[name][1].encode())).decode(), whitelist=False, crlite_enrolled=True)
    if form == "no derHash":
        rec = {"x": 1}
    if form == "derHash of another":
        rec["derHash"] = base64.standard_b64encode(sha(b"another")).decode()
    if form == "short derHash":
        rec["derHash"] = "AAAA"
    if form == "garbled derHash":
        rec["derHash"] = "!"
    rid = w.put_record(INTS, rec)
    if form == "no attachment":
        return rid
    if form == "attachment null":
        w.collection(INTS)["records"][rid]["attachment"] = None
        return rid
    body = pem(name)
    if form == "attachment of another":
        body = pem("B" if name != "B" else "A")
    if form == "garbled attachment":
        body = "not a certificate"
    if form == "garbled base64":
        body = "-----BEGIN CERTIFICATE-----\n%%%\n-----END CERTIFICATE-----\n"
    w.attach(INTS, rid, name + ".pem", body, "text/plain")
    a = w.collection(INTS)["records"][rid]["attachment"]
    if form == "attachment without hash":
        del a["hash"]
    if form == "short hash":
        a["hash"] = "00"
    if form == "attachment without size":
        del a["size"]
    return rid


GOOD = ("ok", "with older fields", "twice")
FORMS = ["absent", "ok", "twice", "with older fields", "no attachment", "no derHash", "derHash of another", "short derHash", "garbled derHash", "attachment of another", "garbled attachment", "garbled base64", "attachment null",
         "attachment without hash", "attachment without size", "short hash", "ok and broken"]


def read(w):
    """the collection as a client sees it: list of (id, DER or complaint)"""
    out = []
    for i, r in w.collection(INTS)["records"].items():
        a = r.get("attachment")
        if not a:
            out.append((i, "no attachment"))
            continue
        if any(k not in a for k in ("hash", "size", "filename", "location", "mimetype")):
            out.append((i, "attachment fields"))
            continue
        body = w.attachments[a["location"]].decode()
        try:
            d = base64.b64decode(body.split("-----BEGIN CERTIFICATE-----")[1].split("-----END")[0])
            json.loads(d)
        except Exception:
            out.append((i, "garbled attachment"))
            continue
        if base64.standard_b64encode(sha(d)).decode() != r.get("derHash"):
            out.append((i, "derHash is not that of the attachment"))
            continue
        if a.get("hash") != hashlib.sha256(body.encode()).hexdigest():
            out.append((i, "attachment hash"))
            continue
        out.append((i, json.loads(d)["name"]))
    return out


def compare(w, want):
    got = [n for _, n in read(w)]
    if sorted(got) != sorted(want):
        return f"the collection holds {sorted(got)}, the enrolled list {sorted(want)}"


class IWorld(PWorld):
    def __init__(self, x, want, entries, run="20240101-0"):
        super().__init__(x, start="2024-01-02T00:00:00")
        self.want = want
        self.gen(run, "2024-01-01T00:00:00", enrolled=json.dumps(entries).encode())
        for s in CHANNELS:
            place_chain(self, s, [run], {run: "2024-01-01T00:00:00"})
        self.check_review = self.on_review
        self.monitor = self.on_change

    def on_review(self, coll):
        if coll == INTS:
            bad = compare(self, self.want)
            if bad:
                self.x.fail("reviewed-mismatch", f"review is asked for while {bad}")

    def protect(self):
        """good records of listed certificates: at least one of each must stay"""
        self.collection(INTS)["status"] = "signed"
        self.kept = {}
        for i, n in read(self):
            if n in self.want:
                self.kept.setdefault(n, []).append(i)

    def on_change(self):
        have = self.collection(INTS)["records"]
        for n, ids in self.kept.items():
            if not any(i in have and have[i].get("attachment") for i in ids):
                self.x.fail("listed-intermediate-removed", f"the record of {n}, which is in the enrolled list, was removed")


def clean(w, x, idem=True):
    w.faults = lambda k, n: ()
    n = len(w.requests)
    e = w.run_main()
    if e is not None:
        x.fail("clean-run-fails", f"the publisher fails although nothing failed around it: {type(e).__name__}: {e}")
        return
    bad = compare(w, w.want)
    if bad:
        x.fail("mismatch-after-clean-run", "after a clean run " + bad)
        return
    if w.collection(INTS)["status"] == "work-in-progress":
        x.fail("no-review", "the collection was changed, but review was not asked for")
    if idem:
        n = len(w.requests)
        w.run_main()
        if [r for r in w.requests[n:] if INTS in r]:
            x.fail("not-idempotent", f"a second run made changes: {w.requests[n:][:3]}")


def place(w, name, form):
    if form == "absent":
        return
    if form == "twice":
        put_remote(w, name); put_remote(w, name)
    elif form == "ok and broken":
        put_remote(w, name, "no attachment"); put_remote(w, name)
    else:
        put_remote(w, name, form)


def pairs(names, forms):
    """every combination of list membership and remote form of the certificates"""
    def run(x):
        want = [n for n in names if x.pick(f"{n} enrolled", [True, False])]
        w = IWorld(x, want, [entry(n) for n in want])
        try:
            fs = []
            for n in names:
                f = x.pick(f"record of {n}", forms)
                fs.append(f)
                place(w, n, f)
            w.protect()
            clean(w, x)
            x.outcome = f"{len(want)} enrolled, " + ", ".join(sorted(fs))
        finally:
            w.close()
    return run


def lists(x):
    """odd entries of the enrolled list"""
    good = x.pick("good entries", [[], ["A"], ["A", "A2"], ["A", "B", "Bx"], ["E"]])
    odd = x.pick("odd entry", ["none", "twice"] + list(ODD_LOCAL))
    name = x.pick("of", ["A", "B", "E"])
    first = x.pick("place", ["first", "last"])
    entries, want = [entry(n) for n in good], list(good)
    if odd == "twice":
        extra = entry(name)
        if name not in want:
            want.append(name); entries.append(entry(name))
    elif odd != "none":
        extra = ODD_LOCAL[odd](name)
    if odd != "none":
        entries.insert(0 if first == "first" else len(entries), extra)
    w = IWorld(x, want, entries)
    try:
        for n in x.pick("published", [[], ["A"], ["A", "B"], ["A", "A2", "B", "Bx", "E"]]):
            put_remote(w, n)
        w.protect()
        clean(w, x)
        x.outcome = f"{odd}: {sorted(n for _, n in read(w))}"
    finally:
        w.close()


STARTS = {
    "first publication": (["A", "B"], []),
    "one added": (["A", "B"], [("A", "ok")]),
    "one removed": (["A"], [("A", "ok"), ("B", "ok")]),
    "replaced by one with the same name and key": (["A2"], [("A", "ok")]),
    "one added, one removed": (["A", "B"], [("A", "ok"), ("E", "ok")]),
    "a broken record": (["A", "B"], [("A", "no attachment"), ("B", "ok")]),
    "a duplicate": (["A", "B"], [("A", "twice"), ("B", "derHash of another")]),
    "nothing to do": (["A", "B"], [("A", "ok"), ("B", "ok")]),
    "three of each": (["A", "A2", "B"], [("A", "ok"), ("Bx", "ok"), ("E", "ok")]),
}


def only_ints(kind, name):
    return INTS in name or kind == "web" and "log_list" not in name or kind == "gcs" and "enrolled" in name or "server_info" in name


def faults(depth):
    def run(x):
        name = x.pick("start", list(STARTS))
        want, remote = STARTS[name]
        w = IWorld(x, want, [entry(n) for n in want])
        try:
            for n, f in remote:
                place(w, n, f)
            w.protect()
            w.faults = std_faults(only=only_ints)
            for i in range(depth):
                e = w.run_main()
                bad = e is None and compare(w, w.want)
                if bad:
                    x.fail("success-with-mismatch", "a run that reported success left a mismatch: " + bad)
            if x.violations:
                return
            clean(w, x, idem=False)
            x.outcome = name
        finally:
            w.close()
    return run


def runs(x):
    """which run's list is used"""
    w = IWorld(x, ["A"], [entry("A")])
    try:
        ids = x.pick("runs", [["20240101-1"], ["20240101-9", "20240101-10"], ["20240102-0"], ["20240101-10", "20240102-0"], ["20240101-2", "20240101-11"]])
        for i, r in enumerate(ids):
            w.want = ["B"] if i == len(ids) - 1 else ["A", "E"]
            w.gen(r, f"2024-01-02T0{i}:00:00", enrolled=json.dumps([entry(n) for n in w.want]).encode())
        put_remote(w, "A")
        w.protect()
        clean(w, x)
        x.outcome = ids[-1]
    finally:
        w.close()


def noop(x):
    name = x.pick("start", list(STARTS))
    want, remote = STARTS[name]
    w = IWorld(x, want, [entry(n) for n in want])
    try:
        for n, f in remote:
            place(w, n, f)
        w.protect()
        e = w.run_main("--noop")
        if w.requests or e is not None:
            x.fail("noop-changes", f"{name}: --noop: {e} {w.requests[:3]}")
        x.outcome = name
    finally:
        w.close()


SHORT = ["absent", "ok", "twice", "no attachment", "derHash of another", "attachment of another"]
SCENARIOS = [
    Scenario("one", pairs(["A"], FORMS)),
    Scenario("two", pairs(["A", "B"], FORMS)),
    Scenario("same-name-and-key", pairs(["A", "A2"], FORMS)),
    Scenario("same-key", pairs(["B", "Bx"], FORMS)),
    Scenario("three", pairs(["A", "A2", "E"], SHORT)),
    Scenario("four", pairs(["A", "A2", "B", "E"], SHORT), thorough=True),
    Scenario("three-all-forms", pairs(["A", "B", "E"], FORMS), thorough=True),
    Scenario("lists", lists),
    Scenario("runs", runs),
    Scenario("noop", noop),
    Scenario("faults", faults(1), {"fault": 1, "crash": 1}, 1),
    Scenario("fault-pairs", faults(1), {"fault": 2, "crash": 1}, 2),
    Scenario("faults-twice", faults(2), {"fault": 1, "crash": 1}, 2),
    Scenario("fault-triples", faults(2), {"fault": 3, "crash": 1}, 3, thorough=True),
]
