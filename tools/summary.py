#!/usr/bin/env python3
"""summary.py [DIR]: the evidence files of DIR (default evidence) as a table for DESIGN.md."""
import json, sys, os, glob
d = sys.argv[1] if len(sys.argv) > 1 else os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence")
print("| | tier | profiles | depth | inserted | states | transitions | long histories / evaluations | s |\n|---|---|---|---|---|---|---|---|---|")
for f in sorted(glob.glob(d + "/C*.json")):
    e = json.load(open(f)); c = e["coverage"]; allp = c.get("profiles", []); p = [x for x in allp if "depth_bound" in x]; st = sum(x.get("histories", 0) for x in allp)
    dep = [x["depth_bound"] for x in p if x.get("history_length", 0) == 0 and x["depth_bound"] < 50]
    dev = [x["depth_bound"] for x in p if x.get("history_length", 0) > 0]
    other = st or c.get("histories") or c.get("evaluations") or ""
    r = lambda l: "" if not l else (str(min(l)) if min(l) == max(l) else f"{min(l)}–{max(l)}")
    n = lambda x: f"{x:,}" if isinstance(x, int) else (f"{len(x):,}" if x else "")
    print(f"| {e['property']} | {e['tier']} | {len(p) or ''} | {r(dep)} | {r(dev)} | {n(c.get('states',''))} | {n(c.get('transitions',''))} | {n(other)} | {e['wall_s']:.0f} |")
