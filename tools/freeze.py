#!/usr/bin/env python3
"""Development tool: writes the confirmed facts table of a check (never run by a check).  freeze.py known|CNN..."""
import importlib, json, os, sys
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vx import ir, gfacts, loops
P = ir.load()
for c in sys.argv[1:]:
    if c == "known":
        t, f = gfacts.all_names(P), gfacts.KNOWN
    elif c == "loops":
        t, f = loops.freeze(P), loops.TABLE
    else:
        m = importlib.import_module("vx.checks." + c.lower())
        t, f = m.freeze(P), m.TABLE
    json.dump(t, open(f, "w"), indent=0, sort_keys=True)
    print(c, len(t), os.path.getsize(f))
