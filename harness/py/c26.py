"""C26: the whole system: certificates go into logs and on CRLs, and a client asks about them."""
import atexit, base64, datetime, hashlib, json, multiprocessing.util, os, shutil, subprocess
from publisher import *
from explore import Scenario
import c22, c25
from c23 import accepted

RULE = ("Each execution is one history of the whole system: the real ct-fetch, aggregate-crls and aggregate-known (in one simulated world of logs, CRL servers and Redis), the real workflow scripts, the real rust-create-cascade, the real publisher "
        "against an in-memory bucket and Kinto server, and the real rust-query-crlite updating from that server, which is then asked about every certificate of the population. Every answer is compared with what the CAs' CRLs say.")
ASSUME = ["the logs grow by less than a batch between runs", "the steps of a run follow one another without failures (failures of each part are explored by C01-C25)",
          "clubcards answer for the items put into them; an undecided item of an issuer with revoked certificates may be answered either way and is taken as Revoked"]

HOUR = 3600 * 1000
DAY = 24 * HOUR
KILLED = 137
SERIALS = ["01", "0080aa", "00ff" + "5a" * 18, "7f" * 20, "00", "0a0b0c0d0e0f1011"]


class Pipeline:
    """the Go programs; one process per exploring process"""
    _p = None

    @classmethod
    def ask(cls, q):
        if cls._p is None or cls._p[0] != os.getpid():
            p = subprocess.Popen([os.environ["VERIF_PIPELINE"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL if not os.environ.get("VERIF_DEBUG") else None, text=True, env=dict(os.environ, GOMAXPROCS="1", GOGC="400"))
            cls._p = (os.getpid(), p)
            multiprocessing.util.Finalize(None, p.kill, exitpriority=10)
            atexit.register(p.kill)
        p = cls._p[1]
        p.stdin.write(json.dumps(q) + "\n")
        p.stdin.flush()
        r = p.stdout.readline()
        if not r:
            raise RuntimeError("the pipeline died")
        r = json.loads(r)
        if r["Problem"]:
            # that was the end of it
            p.wait()
            cls._p = None
        return r


STUB = """#!/bin/bash
# hands the command over to the explorer, and does what it answers
mkfifo "$RELAY/$$"
{ printf '%s\\037' "$$" "${0##*/}" "$@"; echo; } >&"$RELAY_FD"
read -r rc < "$RELAY/$$"
cat "$RELAY/$$.out"
exit "$rc"
"""


class Quiet:
    """what child processes say goes nowhere"""

    def __init__(self):
        self.fds = [] if os.environ.get("VERIF_DEBUG") else [(n, os.dup(n)) for n in (1, 2)]
        null = os.open(os.devnull, os.O_WRONLY)
        for n, _ in self.fds:
            os.dup2(null, n)
        os.close(null)

    def end(self):
        for n, saved in self.fds:
            os.dup2(saved, n)
            os.close(saved)


class Cert:
    """one certificate: who issued it, where and when it was logged, since when it is on the CRL and why"""

    def __init__(self, ca, serial, log, kind, logged, listed, na="2099-06-01T07:30:00Z", at=0):
        self.ca, self.serial, self.log, self.kind, self.logged, self.listed, self.na, self.at = ca, serial, log, kind, logged, listed, na, at
        # listed: {step: reason or None}; on the CRL of exactly these steps

    def on(self, step, reasons):
        return step in self.listed and accepted(-1 if self.listed[step] is None else self.listed[step], reasons) if reasons != "all" else step in self.listed

    def say(self):
        return f"{self.ca} {self.serial} in {self.log} at step {self.logged}, on the CRL {self.listed}"


STEPS = 3
REV = [{}, {0: None, 1: None, 2: None}, {0: 1, 1: 1, 2: 1}, {1: 4, 2: 4}, {1: 1, 2: 1}, {2: 9}, {2: None}, {0: 1}, {0: 5, 2: 5}, {1: 1}]


def population(cas=("A", "B"), logs=("rfc", "tiled"), steps=(0, 1)):
    """every combination of authority, log, step of logging and time on the CRL, and every form of serial for each authority; the authorities use the same numbers for different fates"""
    out = []
    fates = [(log, s, r) for log in logs for s in steps for r in REV]
    for j, ca in enumerate(cas):
        for n, (log, s, r) in enumerate(fates):
            out.append(Cert(ca, "%04x" % (0x1000 + (n + 7 * j) % len(fates)), log, ("precert", "cert")[n % 2], s, r))
        for i, ser in enumerate(SERIALS):
            out.append(Cert(ca, ser, logs[i % len(logs)], "precert", 0, REV[1 + i % 3 if ca == "A" else 0 if i % 2 else 1]))
    # expires before the second step, and at other hours of the day
    out += [Cert(ca, "33%02x" % i, "rfc", "precert", 0, REV[1], na) for ca in cas for i, na in enumerate(["2000-01-03T06:00:00Z", "2099-06-01T07:59:59Z", "2099-06-01T08:00:00Z", "2099-06-02T00:00:00Z"])]
    return out


class System:
    """kills: (program, step, before which of its operations), or ("command", step, (n, before or after it))
    events: 'WHAT at STEP' holds from that step on, 'WHAT only at STEP' in that step, '50 days before STEP' between two"""

    def __init__(self, x, certs, events=(), kills=()):
        self.x, self.certs, self.events = x, certs, set(events)
        for i, c in enumerate(certs):
            c.i = i
        self.w = PWorld(x, start="2000-01-01T00:00:00")
        self.w.gcs[BUCKET] = {}
        self.w.monitor = None
        self.cas = [{"Name": n, "Subject": "A" if n == "E" else n, "Key": 50 + i} for i, n in enumerate("ABCDE")]
        self.logs = [{"Name": n, "Tiled": n == "tiled", "MMD": 3600} for n in ("rfc", "tiled", "late")]
        info = Pipeline.ask({"Info": True, "CAs": self.cas, "Logs": self.logs})
        if info["Problem"]:
            raise RuntimeError(info["Problem"])
        self.info = info
        self.at = [24 * (k + 1) for k in range(STEPS)]
        for j in range(STEPS):
            if f"50 days before {j}" in self.events:
                for k in range(j, STEPS):
                    self.at[k] += 50 * 24
        for c in certs:
            c.ts = self.at[c.logged] * HOUR - 20 * HOUR + c.i * 1000
        self.stage, self.ops, self.kills = {}, {}, kills
        self.open = False
        self.generated = [k for k in range(STEPS) if not self.now("no run", k)]

    def now(self, what, k):
        return f"{what} only at {k}" in self.events or any(f"{what} at {j}" in self.events for j in range(k + 1))

    def ask(self, q):
        r = Pipeline.ask(q)
        self.open = not r["Problem"]
        return r

    def close(self):
        if self.open:
            Pipeline.ask({})
        subprocess.run(["chmod", "-R", "u+w", self.w.dir], check=False, stderr=subprocess.DEVNULL)
        self.w.close()

    # ---- what is true of a step ----
    def logs_known(self, k):
        return ["rfc", "tiled"] + ["late"] * self.now("a log appears", k)

    def logs_at(self, k):
        """logs read in this step"""
        return [n for n in self.logs_known(k) if not (n == "tiled" and self.now("a log is turned off", k))]

    def ingested(self, c, k):
        return any(c.log in self.logs_at(j) for j in range(c.logged, k + 1))

    def enrolled(self, ca, k):
        if ca == "C":
            return self.now("an issuer appears", k)
        if ca == "E":
            return self.now("an issuer's namesake appears", k)
        if ca == "B":
            return not self.now("an issuer is revoked", k)
        return ca == "A"

    def broken(self, k):
        return next((e for e in BROKEN if self.now(f"CRL {e}", k)), None)

    def listed(self, c, k, reasons):
        if c.ca == "B" and (c.i % 2 or self.now("lists are joined", k)) and self.broken(k):
            # the list fetched before is used in place of one that cannot be had
            before = [j for j in self.generated if j < k]
            return bool(before) and (c.i % 2 or self.now("lists are joined", before[-1])) and self.listed(c, before[-1], reasons)
        return c.on(k, reasons)

    def alive(self, c, k):
        end = datetime.datetime.fromisoformat(c.na[:-1]).replace(minute=0, second=0, tzinfo=UTC)
        return end > datetime.datetime(2000, 1, 1, tzinfo=UTC) + datetime.timedelta(hours=self.at[k])

    def known(self, c, k):
        return self.ingested(c, k) and self.enrolled(c.ca, k) and self.alive(c, k)

    def revset(self, k, reasons):
        return {i for i, c in enumerate(self.certs) if self.known(c, k) and self.listed(c, k, reasons)}

    # ---- the parts ----
    def settings(self):
        """the ct-logs collection of every step, as the publisher keeps it"""
        out, self.web_at = [], {}
        for k in range(STEPS):
            ops = {"name": "O", "email": [], "logs": [], "tiled_logs": []}
            for n in self.logs_known(k):
                i = self.info["Logs"][n]
                u = {"description": n, "log_id": base64.b64encode(bytes.fromhex(i["id"])).decode(), "key": i["key"], "mmd": 3600, "state": {"usable": {}}}
                if n == "tiled":
                    u.update(submission_url=i["url"], monitoring_url=i["url"])
                else:
                    u["url"] = i["url"]
                ops["tiled_logs" if n == "tiled" else "logs"].append(u)
            self.web_at[k] = self.w.web[CTLOGS] = json.dumps({"operators": [ops]}).encode()
            self.w.run_main()
            for r in self.w.collection(LOGS)["records"].values():
                r["crlite_enrolled"] = r["description"] in self.logs_at(k)
            out.append([clone(r) for r in self.w.collection(LOGS)["records"].values()])
        return out

    def lists(self, k):
        """(rows of the report, url -> (authority, which of its certificates)) of a step"""
        urls = {"A": {"http://crl.a/full": None}, "B": {"http://crl.b/2": 1, "http://crl.b/1": 0}}
        if self.now("lists are split", k):
            urls["A"] = {"http://crl.a/1": 1, "http://crl.a/2": 0}
        if self.now("lists are joined", k):
            urls["B"] = {"http://crl.b/2": None}
        for ca in "CE":
            if self.enrolled(ca, k):
                urls[ca] = {f"http://crl.{ca.lower()}/full": None}
        rows = []
        for ca, us in urls.items():
            full = None in us.values()
            rows.append({"CA": ca, "Full": list(us)[0] if full else "", "Parts": [] if full else list(us), "Revoked": "" if self.enrolled(ca, k) else "Revoked", "Copies": int(self.now("certificates are renewed", k))})
        return rows, {u: (ca, part) for ca, us in urls.items() for u, part in us.items()}

    def begin(self):
        w = self.w
        self.proc, self.home, self.ct, self.app, self.relay = [os.path.join(w.dir, d) for d in ("processing", "home", "ct", "app", "relay")]
        for d in (self.proc, self.home, self.ct, self.app, self.relay):
            os.makedirs(d)
        os.symlink(os.environ["VERIF_CASCADE"], os.path.join(self.home, "rust-create-cascade"))
        # every program the script calls by a path is a stand-in that hands the call over
        self.wf = os.path.join(world.REPO, "workflow")
        for d, names in (("workflow", [n for n in os.listdir(self.wf) if n[0].isdigit() and not n.endswith(".inc")]), ("bin", ["aggregate-crls", "aggregate-known"])):
            os.makedirs(os.path.join(w.dir, d))
            for n in names:
                p = os.path.join(w.dir, d, n)
                with open(p, "w") as f:
                    f.write(STUB)
                os.chmod(p, 0o755)
        # the publishing job runs the publisher in its working directory, and makes a directory outside of it
        for d, n, text in (("moz_kinto_publisher", "main.py", STUB), ("pbin", "mkdir", '#!/bin/bash\nwhile [ $# -gt 0 ]; do echo "$1" >> "$RELAY/made"; shift; done\n')):
            os.makedirs(os.path.join(self.app, d))
            p = os.path.join(self.app, d, n)
            with open(p, "w") as f:
                f.write(text)
            os.chmod(p, 0o755)
        for n in os.listdir(self.wf):
            if n.endswith(".inc"):
                os.symlink(os.path.join(self.wf, n), os.path.join(w.dir, "workflow", n))
        self.sett = self.settings()
        r = self.ask({"CAs": self.cas, "Logs": self.logs, "Root": w.dir})
        if r["Problem"]:
            raise RuntimeError(r["Problem"])

    def went_wrong(self, what, r, killed=False):
        if r["Problem"] or r["Exit"] and not (killed and r["Exit"] == KILLED):
            self.x.fail("pipeline-fails", f"{what}: {r['Problem'] or r['Exit']}")
            return True

    def ingest(self, k):
        """the world of step k, and a run of ct-fetch"""
        grow = {}
        for n in ("rfc", "tiled", "late"):
            es = []
            for i, c in enumerate(self.certs):
                if c.log == n and c.logged == k:
                    es.append({"CA": c.ca, "Serial": c.serial, "Kind": c.kind, "TS": c.ts, "NotAfter": c.na})
            # the newest entry of a step is another authority's
            es.append({"CA": "D", "Serial": "%02x" % (k + 1), "Kind": "cert", "TS": self.at[k] * HOUR - 2 * HOUR, "NotAfter": "2099-01-01T00:00:00Z"})
            grow[n] = es
        rows, urls = self.lists(k)
        crls = []
        for url, (ca, part) in urls.items():
            crls.append({"URL": url, "CA": ca, "Bad": (self.broken(k) or self.now("CRL expired", k) and "expired" or "") if url == "http://crl.b/2" else "",
                         "Entries": [{"Serial": c.serial, "Reason": -1 if c.listed[k] is None else c.listed[k]} for i, c in enumerate(self.certs) if c.ca == ca and k in c.listed and part in (None, i % 2)] +
                         [{"Serial": "66" + s, "Reason": 1} for s in ("01", "0203")]})  # certificates nobody logged
        if self.now("the cache is lost", k):
            self.ask({"Lose": True})
        r = self.ask({"Step": {"At": self.at[k], "Grow": grow, "Settings": self.sett[k], "Report": rows, "CCADB": os.path.join(self.ct, "ccadb-intermediates.csv"), "CRLs": crls}})
        for kill in [n for what, at, n in self.kills if what == "ct-fetch" and at == k] + [0]:
            r = self.ask({"Run": ["ct-fetch"], "Kill": kill})
            self.x.step(f"ct-fetch {r['Problem']} {r['Exit']} {r['Ops']}")
            self.ops[k, "ct-fetch"] = r["Ops"]
            if self.went_wrong("ct-fetch", r, bool(kill)):
                return False
        if self.now("a commit job", k) and self.went_wrong("commit", self.ask({"Run": ["commit"]})):
            return False
        if self.now("the cache is lost before the run", k):
            self.ask({"Lose": True})
        return True

    def command(self, name, args):
        """one command of crlite-generate.sh: (exit code, standard output)"""
        if name.startswith("aggregate-"):
            mine = [n for what, at, n in self.kills if what == name and at == self.step]
            kill = mine[0] if mine and self.attempt == 0 else 0
            r = self.ask({"Run": [name] + args, "Kill": kill})
            if self.attempt == 0:
                self.ops[self.step, name] = r["Ops"]
            self.said.append(f"{name}: {r['Problem']} {r['Exit']}")
            # a commit cut short between its two numbers leaves them apart, and the next one asks for a restart of ct-fetch
            if not (name == "aggregate-known" and r["Exit"] == 2 and (self.attempt == 1 and mine or self.attempt == 0 and self.now("the cache is lost before the run", self.step))):
                self.went_wrong(name, r, bool(kill))
            return 1 if r["Problem"] else r["Exit"], ""
        if name.startswith("1-"):
            # nobody reads the archive of the lists, and its bytes differ from run to run
            a = os.path.join(args[0], "crls.tar.gz") if args else ""
            if os.path.exists(a):
                os.truncate(a, 0)
        saved = dict(os.environ)
        os.environ.update(HOME=self.home, GOOGLE_APPLICATION_CREDENTIALS=os.path.join(self.home, "credentials.json"), TMPDIR=self.w.dir)
        try:
            rc, out = c22.run_script(self.w, os.path.join(self.wf, name), *args)
        finally:
            os.environ.clear()
            os.environ.update(saved)
        self.said.append(f"{name}: {rc}")
        return (rc if isinstance(rc, int) else 1), out

    def build(self, k):
        """the job of a step: crlite-generate.sh, again if it was cut short"""
        self.step, cut = k, 2 * any(at == k and what != "ct-fetch" for what, at, _ in self.kills)
        lost = self.now("the cache is lost before the run", k)
        for self.attempt in range(1 + max(cut, lost)):
            if self.attempt == 1 and cut:
                self.ask({"Wait": 5})  # what held the commit lock may have died with it
            if self.attempt == 2 or self.attempt == 1 and lost:
                if self.said[-1] != "aggregate-known:  2":
                    break
                if self.went_wrong("ct-fetch", self.ask({"Run": ["ct-fetch"]})):
                    return False
            had = set(os.listdir(self.proc))
            rc = self.script(k)
            runs = set(os.listdir(self.proc)) - had
            self.x.step(f"run {sorted(runs)} {rc} {self.said}")
            if rc == 0 and len(runs) == 1:
                self.stage[runs.pop()] = k
                return True
            if rc == 0:
                break
        self.x.fail("run-fails", f"the run of step {k} ends with {rc}, having begun {sorted(runs)}: {self.said}")
        return False

    def script(self, k):
        w = self.w
        w.now = t("2000-01-01T00:00:00").timestamp() + (self.at[k] + 5 * self.attempt) * 3600
        self.said = []
        die = next((n for what, at, n in self.kills if what == "command" and at == k), None) if self.attempt == 0 else None
        script = os.path.join(world.REPO, "containers/scripts/crlite-generate.sh")
        rd, wr = os.pipe()
        quiet = Quiet()
        try:
            env = {"PATH": os.environ["PATH"], "HOME": self.home, "TMPDIR": w.dir, "RELAY": self.relay, "RELAY_FD": str(wr), "GOOGLE_APPLICATION_CREDENTIALS": os.path.join(self.home, "credentials.json"),
                   "crlite_workflow": os.path.join(w.dir, "workflow"), "crlite_bin": os.path.join(w.dir, "bin"), "crlite_processing": self.proc + "/", "crlite_persistent": self.ct, "crlite_filter_bucket": BUCKET,
                   "statsdHost": "127.0.0.1:1", "WORKDIR": self.app}
            p = subprocess.Popen([script] if os.access(script, os.X_OK) else ["/bin/bash", "-e", script], env=env, cwd=self.app, pass_fds=(wr,), stdin=subprocess.DEVNULL, start_new_session=True)
            os.close(wr)
            with os.fdopen(rd) as f:
                n = 0
                for line in f:
                    pid, name, *args = line.rstrip("\n").split("\x1f")[:-1]
                    n += 1
                    if die != (n, "before"):
                        rc, out = self.command(name, args)
                    if die and die[0] == n:
                        os.killpg(p.pid, 9)
                        break
                    with open(os.path.join(self.relay, pid + ".out"), "w") as o:
                        o.write(out)
                    with open(os.path.join(self.relay, pid), "w") as o:
                        o.write(f"{rc}\n")
            rc = p.wait()
            self.ops[k, "command"] = n
        finally:
            quiet.end()
        for n in os.listdir(self.relay):
            os.unlink(os.path.join(self.relay, n))
        return rc

    def publish(self, env):
        """crlite-publish.sh: (its exit code, what the publisher was told, how that ended)"""
        w, told, ends = self.w, [], []
        script = os.path.join(world.REPO, "containers/scripts/crlite-publish.sh")
        rd, wr = os.pipe()
        quiet = Quiet()
        try:
            full = {"PATH": os.path.join(self.app, "pbin") + ":" + os.environ["PATH"], "HOME": self.home, "TMPDIR": w.dir, "RELAY": self.relay, "RELAY_FD": str(wr), "GOOGLE_APPLICATION_CREDENTIALS": os.path.join(self.home, "credentials.json"),
                    "crlite_workflow": self.wf, "crlite_filter_bucket": BUCKET}
            p = subprocess.Popen([script] if os.access(script, os.X_OK) else ["/bin/bash", "-e", script], env=dict(full, **env), cwd=self.app, pass_fds=(wr,), stdin=subprocess.DEVNULL, start_new_session=True)
            os.close(wr)
            with os.fdopen(rd) as f:
                for line in f:
                    pid, name, *args = line.rstrip("\n").split("\x1f")[:-1]
                    told.append(args)
                    made = open(os.path.join(self.relay, "made")).read().split("\n") if os.path.exists(os.path.join(self.relay, "made")) else []
                    # the directory it made is this one
                    e = w.run_main(args=[w.dir if a in made and a else a for a in args])
                    ends.append(e)
                    with open(os.path.join(self.relay, pid + ".out"), "w") as o:
                        o.write("")
                    with open(os.path.join(self.relay, pid), "w") as o:
                        o.write("0\n" if e is None else "1\n")
            rc = p.wait()
        finally:
            quiet.end()
        for n in os.listdir(self.relay):
            os.unlink(os.path.join(self.relay, n))
        return rc, told, ends

    def publisher(self, k):
        w = self.w
        w.web[CTLOGS] = self.web_at[k]
        rc, told, ends = self.publish({})
        if rc or not ends or any(e is not None for e in ends):
            self.x.fail("publisher-fails", f"after step {k}: {rc} {told} {[(type(e).__name__, str(e)) for e in ends]}")
            return False
        for c in (REVS, INTS, LOGS):
            w.collection(c)["status"] = "signed"
        return True

    def chain(self, channel):
        """the steps of the published filter and its updates"""
        recs = sorted(self.w.channel(channel), key=lambda r: r["effectiveTimestamp"])
        return [self.stage[r["attachment"]["filename"].split("-" + channel)[0]] for r in recs]

    def expected(self, k, channel):
        """certificate -> verdict, by what the CRLs said at the steps that are published"""
        reasons = {"default": "all", "compat": "priority"}[channel]
        steps = self.chain(channel)
        tip, out = steps[-1], []
        if tip != max(g for g in self.generated if g <= k):
            self.x.fail("newest-not-published", f"after step {k}, {sorted(self.events)}: published are steps {steps}")
        for i, c in enumerate(self.certs):
            if not self.enrolled(c.ca, tip):
                out.append("NotEnrolled")
                continue
            if c.na < "2020":
                out.append("Expired")
                continue
            seen = []
            for n, f in enumerate(steps):
                if not self.ingested(c, f):
                    seen.append("NotCovered")
                elif not self.enrolled(c.ca, f):
                    seen.append("NotEnrolled")
                else:
                    new = i in self.revset(f, reasons)
                    if n > 0:
                        before = [g for g in self.generated if g < f]
                        new = new and i not in self.revset(before[-1], reasons)
                    seen.append("Revoked" if new else "Good")
            v = next(v for v in ("Revoked", "Good", "NotEnrolled", "NotCovered") if v in seen)
            # what a client is owed, however the filters are cut
            now = self.known(c, tip) and self.listed(c, tip, reasons)
            ever = any(i in self.revset(f, reasons) for f in steps)
            if now and v != "Revoked" or not ever and v == "Revoked":
                raise AssertionError((c.say(), seen))
            out.append(v)
        return out

    def client(self, k, channel, e, order="0"):
        """the query tool updates and is asked about everything"""
        w = self.w
        att, coll = c25.RS["prod"]
        e.web.clear()
        e.serve(coll + "cert-revocations/records", json.dumps({"data": list(w.collection(REVS)["records"].values())}).encode())
        for r in w.collection(REVS)["records"].values():
            e.serve(att + r["attachment"]["location"], w.attachments[r["attachment"]["location"]])
        for n, b in w.gcs[BUCKET].items():
            if n.endswith("/enrolled.json"):
                e.serve(c25.ENROLLED % n.split("/")[0], b)
        args = []
        for i, c in enumerate(self.certs):
            p = f"r/certs/{i}.crt"
            if not os.path.exists(e.path(p)):
                e.put(p, leaf(self.info, c))
            args.append(e.path(p))
        rc = e.run(self.x, ["x509"] + args, update="prod", channel=channel, env={"VERIF_ORDER": order})
        got, want = e.verdicts(), self.expected(k, channel)
        for i, v in enumerate(want):
            if got.get(f"{i}.crt") != v:
                self.x.fail("wrong-verdict", f"after step {k}, channel {channel} with steps {self.chain(channel)}, {sorted(self.events)}: {self.certs[i].say()}: {got.get(f'{i}.crt')}, expected {v}: {e.out[-200:] if not got else ''}")
                return None
        if rc != (1 if "Revoked" in want else 0):
            self.x.fail("wrong-exit-code", f"exit {rc}")
        return want


def leaf(info, c):
    """the final certificate, with the timestamp of its log; signed as the query tool's stand-in verifies"""
    spki = bytes.fromhex(info["CAs"][c.ca]["spki"])
    tlv, oid = c25.tlv, c25.oid
    na = c.na.replace("-", "").replace(":", "").replace("T", "").encode()
    scts = c25.sct_list([(bytes.fromhex(info["Logs"][c.log]["id"]), 946684800000 + c.ts)])
    tbs = tlv(0x30, tlv(0xa0, tlv(2, b"\2")), tlv(2, bytes.fromhex(c.serial)), c25.ALG, c25.dn("A" if c.ca == "E" else c.ca), tlv(0x30, tlv(0x18, b"19950101000000Z"), tlv(0x18, na)), c25.dn("ee.example"), c25.spki("leafkey"),
              tlv(0xa3, tlv(0x30, tlv(0x30, oid(c25.SCTS), tlv(4, scts)))))
    return tlv(0x30, tbs, c25.ALG, tlv(3, b"\0" + hashlib.sha256(spki + tbs).digest()))


def clone(v):
    return json.loads(json.dumps(v))


BROKEN = ["signature", "absent", "garbage"]
EVENTS = ["nothing", "a log appears at 1", "a log is turned off at 1", "a log is turned off only at 1", "an issuer appears at 1", "an issuer's namesake appears at 1", "an issuer is revoked at 1", "an issuer is revoked only at 1", "lists are split at 1", "lists are joined at 1",
          "certificates are renewed at 1", "CRL signature only at 1", "CRL expired only at 1", "CRL absent only at 1", "CRL garbage only at 1", "CRL absent at 1", "no run only at 1", "a commit job at 0", "the cache is lost at 1", "the cache is lost before the run only at 1", "50 days before 1", "50 days before 2"]
PUBLISH = [(0, 1, 2), (0, 2), (0, 1), (1, 2), (2,), (0,)]


def play(x, certs, ev, pub, channels, every, kills=()):
    s = System(x, certs, ev, kills)
    try:
        e, want, say = None, None, []
        s.begin()
        for k in range(STEPS):
            if not s.ingest(k):
                return
            if k in s.generated and not s.build(k):
                return
            if k not in pub or not any(g <= k for g in s.generated):
                continue
            if not s.publisher(k):
                return
            if not every and k != max(pub):
                continue
            for ch in channels:
                if e is None or len(channels) > 1:
                    e = c25.Env()
                want = s.client(k, ch, e)
                if want is None:
                    return
                say.append(f"{ch} {s.chain(ch)} " + " ".join(f"{v}:{want.count(v)}" for v in sorted(set(want))))
        x.outcome = f"{ev} {say}"
        return s.ops
    finally:
        s.close()


def people(ev):
    cas = ("A", "B") + ("C",) * any("an issuer appears" in e for e in ev) + ("E",) * any("namesake" in e for e in ev)
    return population(cas, ("rfc", "tiled") + ("late",) * any("a log appears" in e for e in ev))


def histories(x):
    ev = [x.pick("event", EVENTS)]
    pub = x.pick("published after steps", PUBLISH)
    every = x.pick("the client updates", [False, True])
    # a client that keeps its files has one channel
    play(x, people(ev), ev, pub, [x.pick("channel", ["default", "compat"])] if every else ["default", "compat"], every)


def single(x):
    """one certificate alone: steps in which nothing is new"""
    c = Cert(x.pick("issuer", "AB"), x.pick("serial", ["01", "00ff" + "5a" * 18]), x.pick("log", ["rfc", "tiled"]), "precert", x.pick("logged in step", [0, 1, 2]), x.pick("on the CRL", REV))
    # known from the start, so that both issuers have certificates
    play(x, [c, Cert("A", "77", "rfc", "cert", 0, {}), Cert("B", "77", "rfc", "cert", 0, {0: 1, 1: 1, 2: 1})], [], x.pick("published after steps", PUBLISH[:2]), ["default", "compat"], False)


def later(e):
    """the same event one step later"""
    return e[:-1] + "2" if e[-1] == "1" else e


def pairs(deep):
    def run(x):
        i = x.pick("event", range(1, len(EVENTS) - (not deep)))
        j = x.pick("other event", range(i + (not deep), len(EVENTS)))
        a, b = EVENTS[i], EVENTS[j]
        if deep:
            a = x.pick("the event is", [a, later(a)] if later(a) != a else [a])
            b = x.pick("the other event is", [b, later(b)] if later(b) != b else [b])
        play(x, people([a, b]), [a, b], x.pick("published after steps", PUBLISH if deep else PUBLISH[:1]), ["default", "compat"], False)
    return run


def few():
    """one certificate for every fate, and an authority each"""
    return [Cert("AB"[(i + s) % 2], "%02x" % (1 + i + 16 * s), ("rfc", "tiled")[(i // 2 + s) % 2], ("precert", "cert")[i % 2], s, r) for s in (0, 1) for i, r in enumerate(REV[:8])]


OPS = {}


def interrupted(x):
    """one program is killed before one of its operations, and started again"""
    what = x.pick("killed", ["ct-fetch", "aggregate-crls", "aggregate-known", "command"])
    k = x.pick("in step", [0, 1])
    if not OPS:
        class Mute:
            step, choose, spent, violations, total = lambda *a: None, lambda *a: 0, {}, [], 0
            fail = lambda self, *a: setattr(self, "failed", a)
            outcome, failed = None, None
        m = Mute()
        OPS.update(play(m, few(), [], [2], ["default"], False) or {})
        if m.failed:
            x.fail(*m.failed)
    if not OPS:
        return
    n = x.pick("before operation", range(1, OPS[k, what] + 1))
    if what == "command":
        n = (n, x.pick("the command", ["before", "after"]))
    play(x, few(), [], [2], ["default", "compat"], False, [(what, k, n)])


def publishing(x):
    """the publishing job: told not to publish anything, or with a publisher that fails"""
    env = x.pick("environment", [{}, {"DoNotUpload": "1"}, {"KINTO_NOOP": "1"}, {"DoNotUpload": "1", "KINTO_NOOP": "1"}, {"DoNotUpload": ""}])
    before = x.pick("published before", [False, True])
    bad = x.pick("what cannot be had", ["", "the list of logs", "the filter", "Kinto"])
    noop = any(env.values())
    s = System(x, few())
    w = s.w
    try:
        s.begin()
        for k in (0, 1):
            if not s.ingest(k) or not s.build(k) or k == 0 and before and not s.publisher(k):
                return
        w.web[CTLOGS] = s.web_at[2] if not bad == "the list of logs" else None
        if w.web[CTLOGS] is None:
            del w.web[CTLOGS]
        if bad == "the filter":
            for n in [n for n in w.gcs[BUCKET] if n.endswith("/filter")]:
                del w.gcs[BUCKET][n]
        if bad == "Kinto":
            w.faults = lambda op: ["500"]
        had = clone({n: w.collection(n) for n in (REVS, INTS, LOGS)})
        s.stage.update({})
        rc, told, ends = s.publish(env)
        now = clone({n: w.collection(n) for n in (REVS, INTS, LOGS)})
        x.step(f"{rc} {told} {[str(e) for e in ends]}")
        if noop and now != had:
            x.fail("published-nonetheless", f"{env}: the collections were changed: {told}")
        if rc == 0 and (not ends or any(e is not None for e in ends)):
            x.fail("publishing-failure-hidden", f"{env}, without {bad}: the job ends with 0, the publisher {[str(e) for e in ends]}")
        if rc != 0 and not bad:
            x.fail("publisher-fails", f"{env}: {rc} {told} {[str(e) for e in ends]}")
        if not bad and not noop and {s.stage[r["attachment"]["filename"].split("-default")[0]] for r in w.channel("default")} != ({0, 1} if before else {1}):
            x.fail("newest-not-published", f"{env}: {[r['attachment'] for r in w.channel('default')]}")
        x.outcome = f"{env} {before} {bad} {rc} {now != had}"
    finally:
        s.close()


SCENARIOS = [
    Scenario("publishing", publishing),
    Scenario("interrupted", interrupted),
    Scenario("histories", histories),
    Scenario("single", single),
    Scenario("pairs", pairs(False)),
    Scenario("pairs-deep", pairs(True), thorough=True, quick=False),
]
