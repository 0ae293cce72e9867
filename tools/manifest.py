#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that vf.py can decide."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
T = "TLA+ specification model-checked by TLC; conformance: TLC judges recorded runs of the real program"
NOTE = ("Every case is run through the real command line program; TLC steps the specification over the same input, checks the "
        "specification's invariants in every state and compares the final state with the observed outcome. Bounded: the cases are "
        "generated systematically and at random from the seed, not all inputs. Trusts TLC, the driver's recording of files and exit "
        "status, and the transcription of the documentation into the specification.")
EXTRA = {
    "C01": "Covers every form with edge values of every field and pairs of them, at several addresses.",
}
props = [json.loads(l) for l in open(os.path.join(vf.VERIF, "properties.jsonl"))]
tab = vf.table()
m = {"version": 1, "setup_cmd": "python3 tools/vf.py setup",
     "checks": [{"property": p["id"], "quick_cmd": "python3 tools/vf.py check %s --tier quick" % p["id"],
                 "thorough_cmd": "python3 tools/vf.py check %s --tier thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": T, "level": "model_checking",
                 "level_note": (EXTRA.get(p["id"], "") + " " + NOTE).strip()} for p in props if p["id"] in tab],
     "not_applicable": [{"property": p["id"], "reason": "Its part of the specification is not written yet."} for p in props if p["id"] not in tab],
     "notes": "No hooks: everything is observed through the command line program. known-findings.txt lists the defects found and repaired."}
with open(os.path.join(vf.VERIF, "MANIFEST.json"), "w") as h:
    json.dump(m, h, indent=1)
    h.write("\n")
