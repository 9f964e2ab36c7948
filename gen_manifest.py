#!/usr/bin/env python3
import json, os
from props import CHECKS
here = os.path.dirname(os.path.realpath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = dict(version=1, setup_cmd="./check setup",
         hooks=dict(guard="none", enable="No hooks in /repo: every check instruments a scratch copy of /repo's working tree (tools/instrument) and builds that.", source_commits=[]),
         checks=[], not_applicable=[])
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        m["not_applicable"].append(dict(property=p["id"], reason="the check is still being built"))
        continue
    m["checks"].append(dict(property=p["id"], quick_cmd="./check %s quick" % p["id"], thorough_cmd="./check %s thorough" % p["id"],
                            evidence_file="evidence/%s.json" % p["id"], technique=c["technique"], level=c["level"], level_note=c["note"]))
m["notes"] = "Each check copies /repo's sources to a scratch directory, instruments and builds them with the tag sets it needs, explores exhaustively within the bounds written in the evidence, and removes the scratch directory."
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
