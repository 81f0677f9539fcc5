#!/usr/bin/env python3
"""Builds what the checks reuse: driver, shared objects, the verifier's dependencies."""
import os, sys, subprocess
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "vlib"))
import l2, kani, units

l2.build_driver()
for so in ("pair", "test", "deny"):
    try:
        l2.build_for(so)
    except l2.BuildError as e:
        print("setup: %s: %s" % (so, str(e)[-500:]), file=sys.stderr)
for pkg, h in units.warmup():
    res, note, wall, cmd = kani.run(pkg, h, 900)
    print("setup: kani %s: %d results in %.0f s %s" % (pkg, len(res), wall, note[-300:]))
