#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from catalog.py."""
import json
import os

from catalog import CATALOG, NOT_APPLICABLE
from props import PROPS

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in CATALOG:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"], "anchors": p["anchors"]}) + "\n")
na = {x["property"] for x in NOT_APPLICABLE}
claimed = [p for p in CATALOG if p["id"] not in na]
assert {p["id"] for p in claimed} == set(PROPS), "catalog and props differ"
man = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "none", "enable": "no hooks: the checks link the "
              "unmodified library or compile its sources as they are",
              "source_commits": []},
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"],
        "level": PROPS[p["id"]].get("level", "model_checking"),
        "level_note": p["note"]} for p in claimed],
    "not_applicable": NOT_APPLICABLE,
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
