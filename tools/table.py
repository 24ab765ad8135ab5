"""Rewrites the table of planted bugs in DESIGN.md from seeded/ and fortran_plants/ (used by hand)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = {}
for m in glob.glob(V + "/seeded/*/meta.json") + glob.glob(V + "/fortran_plants/*/meta.json"):
    t.setdefault(json.load(open(m))["property"], []).append(os.path.basename(os.path.dirname(m)))
rows = "| check | catches |\n|---|---|\n" + "".join("| %s | %s |\n" % (p, ", ".join(sorted(t[p]))) for p in sorted(t))
f = V + "/DESIGN.md"
s = open(f).read()
s, n = re.subn(r"\| check \| catches \|\n\|---\|---\|\n(\|.*\n)+", lambda m: rows, s)
assert n == 1
open(f, "w").write(s)
