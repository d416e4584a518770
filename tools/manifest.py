#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIM: property -> what the check looks at; NA: property -> why not."""
import json, os
TECH = "static analysis of go/ssa: path-sensitive dataflow/typestate (value numbering), no execution, no solver"
NOTE = ("Every abstract path of the current source from every entry point is judged; sound up to the assumptions listed in the evidence file "
        "(models of library calls, loop elements summarised, values held by other processes unconstrained). Not a proof about the libraries used.")
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "claims.py")).read())
checks = [{"property": p, "quick_cmd": "bash run.sh " + p, "technique": TECH + "; " + t, "level": "other", "level_note": NOTE}
          for p, t in sorted(CLAIM.items())]
json.dump({"version": 1, "setup_cmd": "bash build.sh", "checks": checks,
           "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())]},
          open("/verif/MANIFEST.json", "w"), indent=1)
