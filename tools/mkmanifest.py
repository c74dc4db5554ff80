#!/usr/bin/env python3
"""Writes MANIFEST.json from vp/jobs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vp"))
import jobs
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = getattr(jobs, "NOT_APPLICABLE", {})
m = {"version": 1, "setup_cmd": "sh engine/build.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in jobs.PROPS:
        known = any(j.known for j in jobs.PROPS[i]["jobs"])
        m["checks"].append({
            "property": i,
            "quick_cmd": "./check %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough ./check %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the LLVM bitcode of the current sources, assertions decided by Z3 over all values within the bounds, counterexamples replayed natively",
            "level": "model_checking",
            "level_note": jobs.PROPS[i].get("note") or
                "Bounded: holds for every value of the symbolic inputs within the bounds listed per job in the evidence file and in DESIGN.md; nothing is claimed outside them. Trusted: the executor's semantics of LLVM IR (sampled against native runs on every check), Z3, the stand-ins for library and system calls."
                + (" Known findings are listed in known-findings.txt." if known else ""),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed;", ", ".join(x["property"] for x in m["not_applicable"]), "not")
