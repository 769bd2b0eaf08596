#!/usr/bin/env python3
"""Source of MANIFEST.json (python3 tools/manifest.py > MANIFEST.json)."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from registry import CHECKS, NOT_APPLICABLE, TECHNIQUE, NOTE  # noqa: E402

print(json.dumps({
    "version": 1,
    "setup_cmd": "python3 -c 'import registry'",
    "checks": [{"property": p,
                "quick_cmd": "VERIF_TIER=quick python3 check.py %s" % p,
                "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
                "evidence_file": "evidence/%s.json" % p,
                "technique": c.get("technique") or TECHNIQUE["conc" if "conc" in c["kind"] else "seq"],
                "level": c["level"],
                "level_note": c.get("note") or NOTE["conc" if "conc" in c["kind"] else "seq"]}
               for p, c in sorted(CHECKS.items())],
    "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT_APPLICABLE.items())],
}, indent=1))
