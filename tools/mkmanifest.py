#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS
from mkprops import NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        q = PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=q["technique"], level=q["level"], level_note=q["level_note"]))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "not yet covered: its simulation is still being built")))
m = dict(version=1, setup_cmd="python3 tools/build.py",
         hooks=dict(guard="none", enable="no hooks are needed: maps, callbacks and goal tests are interfaces of the library; clocks, interruption, memory and random numbers are wrapped at link time (-Wl,--wrap)", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="See DESIGN.md. Fixed defects are listed in known_findings.json.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
