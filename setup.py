#!/usr/bin/env python3
"""Builds every harness once, so that the compiler cache is warm. Checks rebuild what they need anyway."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vb
from targets import TARGETS, CHECKS
todo = []
for c in CHECKS.values():
    for r in c["runs"]:
        if r.get("target") and (r["target"], r.get("san", "asan")) not in todo and r.get("tier") != "thorough":
            todo.append((r["target"], r.get("san", "asan")))
bad = 0
for t, s in todo:
    try:
        vb.build(t, TARGETS[t], s)
        print("built", t, s, flush=True)
    except vb.BuildError as e:
        bad += 1
        print("FAILED", t, s, str(e)[-2000:], flush=True)
sys.exit(1 if bad else 0)
