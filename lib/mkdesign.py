#!/usr/bin/env python3
"""Regenerates DESIGN.md from design_head.md, the property list, the check table, seeds and known findings."""
import json, os, sys, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from targets import CHECKS, TARGETS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
na = json.load(open(f"{V}/lib/not_applicable.json")) if os.path.exists(f"{V}/lib/not_applicable.json") else {}
seeds = {}
for m in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    d = json.load(open(m)); d["id"] = m.split("/")[-2]
    seeds.setdefault(d["property"], []).append(d)
known = [l.strip() for l in open(f"{V}/known_findings.txt")]
o = [open(f"{V}/lib/design_head.md").read().rstrip(), "", "## Properties", ""]
for p in props:
    i = p["id"]
    o += [f"### {i} {p['title']}", "", p["statement"], ""]
    if i not in CHECKS:
        o += [f"Not decided here: {na.get(i, 'no check built yet')}", ""]
        continue
    c = CHECKS[i]
    o.append(f"* Decided by: {c['technique']}. A case is: {c['rule']}.")
    o.append(f"* Workload and bounds (quick): {c['note']}. Thorough multiplies the case counts and seeds.")
    if c.get("design"):
        o.append(f"* Oracle: {c['design']}")
    runs = []
    for r in c["runs"]:
        if "py" in r: runs.append("the SDK's own Java code under javac/java 17 (" + r["mode"] + ")")
        else: runs.append(f"{r['target']}/{r.get('san', 'asan')}" + (f" {r['args']}" if r.get("args") else "") + (" (thorough only)" if r.get("tier") == "thorough" else ""))
    o.append("* Runs: " + "; ".join(runs) + ".")
    o.append("* Required observations per quick run: " + ", ".join(f"{k} >= {v}" for k, v in c["require"].items()) + ".")
    o.append(f"* Why tests cannot: {p['why_tests_cant']}")
    for s in seeds.get(i, []):
        o.append(f"* Planted `{s['id']}` ({s.get('caught', 'caught by ' + i)}): {s['what_it_breaks']}; needs {s['needs']}.")
    for k in known:
        if f"property={i} " in k:
            o.append("* " + ("Repaired: " if k.startswith("fixed") else "Known finding: ") + k.split(f"property={i} ", 1)[1])
    o.append("")
if os.path.exists(f"{V}/lib/design_tail.md"):
    o.append(open(f"{V}/lib/design_tail.md").read().rstrip())
open(f"{V}/DESIGN.md", "w").write("\n".join(o) + "\n")
