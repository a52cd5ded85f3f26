#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import CHECKS, LEVEL, TECH, NOT_APPLICABLE
m = dict(
    version=1, setup_cmd="python3 check.py setup",
    checks=[dict(property=p, quick_cmd=f"python3 check.py run {p} --tier quick", thorough_cmd=f"python3 check.py run {p} --tier thorough",
                 technique=TECH, level=LEVEL, level_note="Bounds: " + c["bounds"] + ". Outside: " + (c.get("outside") or "-") + ".") for p, c in sorted(CHECKS.items())],
    not_applicable=[dict(property=p, reason=r) for p, r in sorted(NOT_APPLICABLE.items())])
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
