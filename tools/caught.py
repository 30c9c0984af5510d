"""caught.py LOG...: adds to caught.json what the checks' outputs LOG (named *.SEED.log) report."""
import json, os, re, sys
P = os.path.join(os.path.dirname(os.path.abspath(__file__)), "caught.json")
d = json.load(open(P)) if os.path.exists(P) else {}
for f in sys.argv[1:]:
    seed = re.sub(r"^det\.|\.log$", "", os.path.basename(f))
    t = open(f, errors="replace").read()
    v = re.search(r"^VIOLATION property=(\S+)", t, re.M)
    if not v:
        continue
    m = re.search(r"^scenario (\S+): ([\w-]+):", t, re.M)
    g = re.search(r"^\s+VIOLATION ([\w-]+):", t, re.M)
    d[seed] = v.group(1) + (f" {m.group(1)}: {m.group(2)}" if m else f": {g.group(1)}" if g else "")
json.dump(d, open(P, "w"), indent=1, sort_keys=True)
