#!/usr/bin/env python3
"""MANIFEST.json from mc/checks.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "mc"))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
m = dict(version=1, setup_cmd="python3 mc/build.py std omp" if any(p.get("variant") == "omp" for c in CHECKS.values() for p in c["parts"]) else "python3 mc/build.py std",
         hooks=dict(guard="GANDALF_VERIF", enable="no hooks are needed: the harnesses compile /repo/src unchanged (private members are reached with -fno-access-control)", source_commits=[]),
         checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 mc/run.py %s quick" % i, thorough_cmd="python3 mc/run.py %s thorough" % i,
            technique=c.get("technique", "stateless exhaustive enumeration of bounded executions of the real code (explicit choice-point DFS), reference model / invariant as oracle on every execution"),
            level=c["level"], level_note=c.get("note", "Holds for every execution inside the bounds recorded in the evidence file (rule, scenarios); says nothing outside them. Trusted: the explorer (mc/mc.hpp), the independent reference computation in the harness, the compiler.")))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
