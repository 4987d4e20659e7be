#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
assert set(CHECKS) | set(NOT_APPLICABLE) == set(ids), (set(ids) ^ (set(CHECKS) | set(NOT_APPLICABLE)))
m = dict(version=1, setup_cmd="python3 run.py --setup",
         hooks=dict(guard="VERIF_HOOKS", enable="no hooks are needed: the checks observe the simulator through its own difftest and device interfaces", source_commits=[]),
         checks=[dict(property=i, quick_cmd="python3 run.py " + i, thorough_cmd="python3 run.py " + i,
                      evidence_file="evidence/%s.json" % i,
                      technique=CHECKS[i].get("technique", "random program generation, lock-step comparison with an independent model"),
                      level="exploration",
                      level_note=CHECKS[i].get("level_note", "Property-based testing: a fixed number of generated programs and timings per run, every commit compared. "
                                               "Trusts the independent model in golden/ and the stand-in for the missing interconnect submodule."))
                 for i in ids if i in CHECKS],
         not_applicable=[dict(property=i, reason=r) for i, r in NOT_APPLICABLE.items()],
         notes="VERIF_SEED selects the generated cases; VERIF_TIER selects how many. Replay a saved case with: python3 run.py --replay FILE")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
