"""addfix.py PROPERTY COMMIT WHAT: list a repaired defect"""
import json, sys, os
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(f))
p, c, w = sys.argv[1:4]
d["findings"].append({"property": p, "status": "fixed", "commit": c, "what": w, "entry": f"fixed: property={p} {c} {w}"})
json.dump(d, open(f, "w"), indent=1); open(f, "a").write("\n")
