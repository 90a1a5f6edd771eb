#!/usr/bin/env python3
"""Shows the disagreements of the last run of a check: tools/show.py C05 [n]"""
import json, sys
n = int(sys.argv[2]) if len(sys.argv) > 2 else 10
ms = [json.loads(l) for l in open("/verif/.work/%s/violations.ndjson" % sys.argv[1])]
ms.sort(key=lambda m: len(json.dumps(m.get("input"))))
print(len(ms), "disagreements")
for m in ms[:n]:
    r = m.get("record") or {}
    i = m.get("input")
    print("-", m.get("stage"), "step", m.get("step"))
    print("   in:  ", i if isinstance(i, str) else json.dumps(i, ensure_ascii=False)[:1500])
    if "ctx" in r:
        print("   ctx: ", json.dumps(r["ctx"], ensure_ascii=False)[:1200])
    print("   want:", json.dumps(m.get("want"), ensure_ascii=False)[:1500])
    print("   got: ", json.dumps(m.get("got"), ensure_ascii=False)[:1500])
