#!/usr/bin/env python3
"""addfix.py <property> <commit> <what failed>: record a repaired defect (run by hand)."""
import json, os, sys
K = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.json")
d = json.load(open(K))
d["fixed"].append("fixed: property=%s %s %s" % (sys.argv[1], sys.argv[2], " ".join(sys.argv[3:])))
json.dump(d, open(K, "w"), indent=1)
