#!/usr/bin/env python3
"""development: run Kani harnesses and show what failed   k.py PACKAGE HARNESS... [-t N]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vlib"))
import kani
a = sys.argv[1:]
t = 300
if "-t" in a:
    i = a.index("-t"); t = int(a[i + 1]); del a[i:i + 2]
res, note, wall, cmd = kani.run(a[0], a[1:], t)
print("wall %.1f" % wall, note[:3000])
for h, r in res.items():
    cs = r.get("checks", [])
    print(h, r.get("status"), r.get("duration_ms"), len(cs))
    for c in cs:
        st = c["status"].upper()
        ok = st == "SATISFIED" if c["category"] == "cover" else st in ("SUCCESS", "UNREACHABLE")
        if st == "UNDETERMINED" and not os.environ.get("U"): continue
        if not ok or c["category"] == "cover" and os.environ.get("C") or os.environ.get("V"):
            l = c.get("location") or {}
            print("  ", st, c["category"], c["description"][:200], str(l.get("file"))[-50:], l.get("line"))
