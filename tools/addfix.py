#!/usr/bin/env python3
"""addfix.py PROPERTY COMMIT TEXT... : record a repaired defect in known_findings.json"""
import json, sys, os
p = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/known_findings.json"
d = json.load(open(p))
d["findings"].append({"property": sys.argv[1], "status": "fixed", "key": sys.argv[2], "what": f"fixed: property={sys.argv[1]} {sys.argv[2]} {' '.join(sys.argv[3:])}"})
json.dump(d, open(p, "w"), indent=1); open(p, "a").write("\n")
