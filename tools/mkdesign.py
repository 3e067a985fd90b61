#!/usr/bin/env python3
# Rewrites the generated part of DESIGN.md (section 6) from seeded/*/meta.json and the notes below.
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {  # planted bugs that a check missed when they were written, and what was added
 "wrapped-signal-first-only": "missed at first: signals are now connected twice to another signal (`dup`)",
 "combiner-of-now": "missed at first; combiner versions and schedules extended",
 "repeat-dereference": "missed at first: retrying combiner, resource-owning results (CFG 8)",
 "last-value-default": "missed where CFG 8/9 did not compile with it: stub fallback, `int&` results (CFG 9)",
 "clone-before-delete": "found once in 100 000 runs at first: runs that assign slot objects to each other under faults (now 80 in 100 000)",
 "args-moved": "missed at first; workload extended",
 "flag-after-release": "missed at first; workload extended",
 "overlap-skips-cleanup": "missed at first; churn inside overlapping invocations added",
 "last-value-swallows": "missed at first: slots now throw standard exception types as well as their own",
}
rows = []
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); b = os.path.basename(os.path.dirname(f)); n = NOTES.get(b, "")
    rows.append((m["property"], b, m["needs"].strip(), n))
rows.sort()
out = ["## 6. Planted bugs and the checks that catch them", "",
 "%d changes to the library, each written from a property's text and the code (seeded/<id>/: patch, demonstration, meta). Every one is" % len(rows),
 "reported by the quick check of its own property with seed 1 (`tools/sensitivity.sh`; other seeds were tried as well). The", "last column says where a check had to be strengthened first.", "",
 "| property | planted bug | needs | note |", "|---|---|---|---|"]
for p, b, n, t in rows: out.append("| %s | %s | %s | %s |" % (p, b, n.replace("|", "/"), t))
s = open(os.path.join(V, "DESIGN.md")).read(); i = s.find("## 6. ")
if i >= 0: s = s[:i]
open(os.path.join(V, "DESIGN.md"), "w").write(s.rstrip("\n") + "\n\n" + "\n".join(out) + "\n")
