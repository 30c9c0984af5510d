"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json (seed -> what reported it)."""
import json, os, re
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
caught = json.load(open(os.path.join(H, "tools", "caught.json")))
rows = []
for d in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['what_it_breaks'][:110].rstrip('. ')} | {caught.get(d, '?')} |")
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
t = "<!-- seeds -->\n| change | what it breaks | caught by |\n|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
