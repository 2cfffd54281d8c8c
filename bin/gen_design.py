#!/usr/bin/env python3
"""DESIGN.md from the fixed text below, properties.jsonl, props.py, known_findings.json and seeded/*/meta.json."""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{V}/bin")
from props import PROPS, NOT_APPLICABLE, HOOK_COMMITS
HEAD = open(f"{V}/bin/design_head.md").read()
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
kf = json.load(open(f"{V}/known_findings.json"))
o = [HEAD.rstrip(), "", "## Properties", ""]
for p in props:
    i = p["id"]
    o.append(f"### {i} {p['title']}\n")
    if i in PROPS:
        q = PROPS[i]
        o.append(f"*Decided by* {q['technique']}. Script: {', '.join('`proofs/' + x + '`' for x in q['proofs'])}; bounded side: `harness/src/{i.lower()}.rs`, {q['quick_secs']} s in the quick tier.\n")
        o.append(q["level_note"][0].upper() + q["level_note"][1:] + "\n")
        o.append("Assumed: " + "; ".join(q["assumptions"]) + ".\n")
        if q.get("design"): o.append(q["design"] + "\n")
    else:
        o.append("Not applicable: " + NOT_APPLICABLE.get(i, "not claimed") + "\n")
o += ["## Defects found", "", "Repaired by `fix:` commits (each fails its check when reverted):", ""]
for k in kf:
    if k["status"] == "fixed": o.append(f"* {k['id']} {k['property']} `{k['commit']}`: {k['entry'].split(' ', 3)[3]}")
kn = [k for k in kf if k["status"] == "known"]
if kn:
    o += ["", "Recorded, not repaired (`known_findings.json`; the check prints KNOWN-FINDING and goes on looking for others):", ""]
    for k in kn: o.append(f"* {k['id']} {k['property']}, key `{k['key']}`: {k['what']}" + (f" {k['why']}" if k.get("why") else ""))
o += ["", "Seen while reading, reproduced with the compiler, outside every claimed property (so no check reports them):", "",
 "* C07: `entity t(x: [inv bool; 3]) { let _ = inst s(x[0..1]); }` is accepted; `x[1]` and `x[2]` are never driven (a range index uses up the whole array).",
 "* C11: `entity t(a: bool) { let a_i = ..; let output__ = ..; .. }` declares `a_i` and `output__` twice: a local name equals the Verilog name of a port; likewise `x_n1`, `x_mut`, `_e_0` and instances called `sub_0`."]
o += ["", "## Planted bugs", "", "All compile, pass the existing tests, have a demonstration, and are caught (exit 1, VIOLATION) by the check of their property;", "the bounded side gives the failing input in each case, and the proof fails too where the changed function is under contract.", "", "| id | property | needs | what breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m = json.load(open(f)); o.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs'].replace('|', '&#124;')} | {m['what_it_breaks'].replace('|', '&#124;')} |")
open(f"{V}/DESIGN.md", "w").write("\n".join(o) + "\n")
