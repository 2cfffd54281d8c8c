#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from props import PROPS, NOT_APPLICABLE, HOOK_COMMITS
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bin/setup",
     "hooks": {"guard": "cfg(spade_verif)", "enable": "the harness builds /repo's crates with RUSTFLAGS='--cfg spade_verif' into /verif/build/target; without the flag the hooks are compiled out", "source_commits": HOOK_COMMITS},
     "checks": [], "not_applicable": [],
     "notes": "Each check: (1) vx extracts the functions under contract from /repo's current source and Verus discharges every obligation, with a vacuity probe; (2) a bounded replay of the same contracts against the compiled crates finds concrete failing inputs. See DESIGN.md."}
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        c = {"property": i, "quick_cmd": f"bin/check {i}", "thorough_cmd": f"bin/check {i} --thorough", "technique": p["technique"], "level": p["level"], "level_note": p["level_note"]}
        m["checks"].append(c)
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet in this framework: see DESIGN.md")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
import subprocess
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError: pass
