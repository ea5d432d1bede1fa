#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import VERIF
import manifest_table as T
props = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 checks/setup.py", checks=[], not_applicable=[])
for p in props:
    if p in T.CLAIMED:
        tech, note = T.CLAIMED[p]
        m["checks"].append(dict(property=p, quick_cmd="python3 checks/run.py %s --quick" % p,
                                thorough_cmd="python3 checks/run.py %s --thorough" % p,
                                technique=tech, level="model_checking", level_note=note))
    else:
        m["not_applicable"].append(dict(property=p, reason=T.NOT.get(p, "specification and conformance check not built yet")))
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
