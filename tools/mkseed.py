#!/usr/bin/env python3
"""mkseed.py FILE...: builds /verif/seeded/<id>/ from seed definitions (python files defining SEEDS)."""
import os, subprocess, sys, shutil, json, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = os.path.join(HERE, "tools", "seedlib")
RSHEAD = '''import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


class X:
    violations = ()

    def step(self, s=""):
        print(s)

    def fail(self, key, msg):
        print(key + ": " + msg, flush=True)
        sys.exit(1)


'''
def build(s):
    d = os.path.join(HERE, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.check_call(f"cd /repo && git archive HEAD | tar x -C {w}", shell=True)
    subprocess.check_call(f"cd {w} && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x", shell=True)
    for f, old, new in s["edits"]:
        p = os.path.join(w, f); t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
        if f.endswith(".go"): subprocess.check_call(["/opt/veriftools/go1.24.13/bin/gofmt", "-l", p])
    diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    shutil.rmtree(w)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    if "demo" in s and "rust" not in s:
        sh = open(os.path.join(LIB, "demo.sh")).read().replace("@PKG@", s.get("pkg", "storage"))
        open(os.path.join(d, "demo.sh"), "w").write(sh)
        open(os.path.join(d, "demo_test.go"), "w").write(s["demo"])
        for h in s.get("helpers", ["helper_test.go"]):
            shutil.copy(os.path.join(LIB, h), d)
    elif "fetchdemo" in s:
        shutil.copy(os.path.join(LIB, "demo_fetch.sh"), os.path.join(d, "demo.sh"))
        open(os.path.join(d, "demo_test.go"), "w").write(s["fetchdemo"])
        shutil.copy(os.path.join(LIB, "fetch_env_test.go"), d)
        shutil.copy(os.path.join(HERE, "sim", "pki", "pki.go"), d)
        def conv(src, dst, *reps):
            t = open(os.path.join(HERE, src)).read()
            for a, b in reps:
                assert a in t, (src, a)
                t = t.replace(a, b)
            open(os.path.join(d, dst), "w").write(t)
        pk = ("package main\n", "package main_test\n"); im = ("crlite/go/verifpki", "crlite/go/zzpki")
        conv("harness/fetch/logs.go", "logs_test.go", pk, im, ("time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)", "time.Now().UTC().Truncate(time.Hour)"))
        conv("harness/fetch/tiled.go", "tiled_test.go", pk, im)
        conv("harness/fetch/merkle.go", "merkle_test.go", pk)
        conv("tools/seedlib/helper_test.go", "helper_test.go", ("package storage_test\n", "package main_test\n"))
    elif "rust" in s:  # the harness (rust or query) that has the stand-ins
        mod = {"rust": "c23.py", "query": "c25.py"}[s["rust"]]
        sh = open(os.path.join(LIB, "demo_rust.sh")).read().replace("@CRATE@", {"rust": "rust-create-cascade", "query": "rust-query-crlite"}[s["rust"]])
        open(os.path.join(d, "demo.sh"), "w").write(sh)
        open(os.path.join(d, "demo.py"), "w").write(RSHEAD + f"from {mod[:-3]} import *\n" + s["demo_rs"])
        for f in (mod, "explore.py"):
            shutil.copy(os.path.join(HERE, "harness", "py", f), d)
        shutil.copy(os.path.join(HERE, "harness", "rust", "shim.c"), d)
        shutil.rmtree(os.path.join(d, "stubs"), ignore_errors=True)
        shutil.copytree(os.path.join(HERE, "harness", s["rust"], "stubs"), os.path.join(d, "stubs"))
    else:
        open(os.path.join(d, "demo.sh"), "w").write(s["script"])
        for n, c in s.get("files", {}).items(): open(os.path.join(d, n), "w").write(c)
        if s.get("pyseed"):
            src = os.path.join(HERE, "harness", "py")
            for f in ["world.py", "publisher.py", "explore.py"] + sorted({f"c{n}.py" for n in (19, 20, 21, 22, 24) if f"from c{n}" in s["files"]["demo.py"]} | ({"c19.py"} if "from c22" in s["files"]["demo.py"] else set()) | ({"c19.py", "c22.py"} if "from c24" in s["files"]["demo.py"] else set())):
                shutil.copy(os.path.join(src, f), d)
            shutil.rmtree(os.path.join(d, "stubs"), ignore_errors=True)
            shutil.copytree(os.path.join(src, "stubs"), os.path.join(d, "stubs"), ignore=shutil.ignore_patterns("__pycache__"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
want = set(sys.argv[2:])
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns["SEEDS"]:
    if not want or s["id"] in want: build(s); print(s["id"])
