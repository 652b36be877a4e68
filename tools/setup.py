#!/usr/bin/env python3
"""Checks that what the checks need is there, and builds the harnesses once (every check rebuilds what it needs)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.dont_write_bytecode = True
from vlib import core
import concurrent.futures as cf
jobs = [(f[:-4], ()) for f in sorted(os.listdir(os.path.join(core.ROOT, "harness"))) if f.endswith(".cpp")] + [("h_reg", ("-DHX_NO_STATIC",))]
with cf.ThreadPoolExecutor(5) as ex:
    for (n, fl), b in zip(jobs, ex.map(lambda j: core.build(*j), jobs)):
        print("built", n, *fl)
for t in (core.TLA_CP.split(":")):
    assert os.path.exists(t), t
