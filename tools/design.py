#!/usr/bin/env python3
"""Writes DESIGN.md (python3 tools/design.py > DESIGN.md)."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, ROOT + "/tools")
from registry import CHECKS, NOT_APPLICABLE  # noqa: E402
from design_notes import NOTES, LIMITS  # noqa: E402

props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
text = open(ROOT + "/tools/design.in").read()
out = []
for p in props:
    c = CHECKS.get(p["id"])
    out.append("### %s %s\n" % (p["id"], p["title"]))
    if c is None:
        out.append("Not applicable: " + NOT_APPLICABLE[p["id"]] + "\n")
        continue
    out.append("Engine `%s`, harness %s. %s\n" % (c["kind"], ", ".join("`harness/%s`" % h for h in c["harness"]), NOTES[p["id"]]))
    out.append("Bounds: %s\n\nBeyond the tests: %s\n" % (p["quantifier"]["text"], p["why_tests_cant"]))
text = text.replace("%PROPERTIES%", "\n".join(out))
text = text.replace("%LIMITS%", LIMITS.strip())
known = json.load(open(ROOT + "/known_findings.json"))["findings"]
text = text.replace("%DEFECTS%", "\n".join("- " + f["what"] for f in known))
rows = ["| id | property | needs | caught by |", "|---|---|---|---|"]
for s in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (ROOT, s)))
    rows.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"], m.get("caught_by", m["property"])))
text = text.replace("%SEEDS%", "\n".join(rows))
print(text, end="")
