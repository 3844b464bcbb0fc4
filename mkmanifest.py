#!/usr/bin/env python3
"""Writes MANIFEST.json from driver/plan.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "driver"))
from plan import PLAN, NOTES, TECHNIQUE, NOT_APPLICABLE
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "DUCKLISP_SIM", "enable": "sim/build.sh compiles /repo's sources with -DDUCKLISP_SIM and links them with the simulator, which defines the hooks",
              "source_commits": [open(os.path.join(HERE, "hook-commit.txt")).read().strip()]},
    "checks": [{"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
                "evidence_file": "evidence/%s.json" % p, "technique": TECHNIQUE.get(p, TECHNIQUE["*"]), "level": "exploration",
                "level_note": NOTES.get(p, NOTES["*"])} for p in sorted(PLAN)],
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT_APPLICABLE.items()) if p not in PLAN],
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
