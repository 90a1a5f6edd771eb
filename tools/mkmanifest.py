#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import checks
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "hooks": {"guard": "verif", "enable": "go build -tags verif (run.py builds the harness for C27 this way)", "source_commits": ["81dd1e7"]},
     "checks": [], "not_applicable": [], "notes": checks.NOTES}
for p in props:
    c = checks.CHECKS.get(p["id"])
    if not c:
        m["not_applicable"].append({"property": p["id"], "reason": checks.NOT_APPLICABLE.get(p["id"], "check not built yet")})
        continue
    mods = sorted({s["module"] for s in c["stages"] if s.get("module")})
    m["checks"].append({
        "property": p["id"],
        "quick_cmd": "VERIF_TIER=quick python3 run.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": c["technique"] + " (TLA+ modules: %s)" % ", ".join(mods),
        "level": "model_checking",
        "level_note": c["note"],
    })
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
