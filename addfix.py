#!/usr/bin/env python3
"""addfix.py PROPERTY COMMIT WHAT: record a repaired defect in known-findings.json"""
import json, sys
p = "/verif/known-findings.json"
try:
    d = json.load(open(p))
except OSError:
    d = {"findings": [], "fixed": []}
d["fixed"].append("fixed: property=%s %s %s" % tuple(sys.argv[1:4]))
json.dump(d, open(p, "w"), indent=1)
