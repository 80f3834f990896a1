#!/usr/bin/env python3
"""regenerate modman/integ/assets from specs/IntegDocs.tla (the stand-ins are committed; no check needs this)"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import vlib, checks
c = vlib.Ctx("ASSETS", "quick"); c.bin = vlib.build("modman")
f = checks.gen(c, "docs", "IntegDocs", {}, spec="Spec", invs=["Out"], workers=1)
d = os.path.join(vlib.V, "modman", "integ", "assets"); os.makedirs(d, exist_ok=True)
r = vlib.harness(c.bin, "emit", f, d)
print(r.stderr[-3000:] if r.returncode or len(sys.argv) > 1 else os.listdir(d))
