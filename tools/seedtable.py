"""Rewrites section 10 of DESIGN.md from seeded/*/meta.json (development only)."""
import collections, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for i in sorted(os.listdir(f"{HERE}/seeded")):
    m = json.load(open(f"{HERE}/seeded/{i}/meta.json"))
    by[m["property"]].append((i, m["needs"]))
out = ["## 10. Planted bugs and the checks that catch them\n",
       f"{sum(map(len, by.values()))} changes under `seeded/`, each confirmed to pass the tests and to be shown by its demonstration. Each is caught by",
       "the quick check of the property it is listed under (`python3 tools/seedlib.py` re-verifies all of them).\n",
       "| check | planted bugs it catches (what they need to show) |", "|----|----|"]
for p in sorted(by):
    out.append(f"| {p} | " + "; ".join(f"`{i}` ({n})" for i, n in by[p]) + " |")
p = f"{HERE}/DESIGN.md"
s = open(p).read()
k = s.find("## 10. ")
s = (s[:k] if k >= 0 else s.rstrip() + "\n\n") + "\n".join(out) + "\n"
open(p, "w").write(s)
