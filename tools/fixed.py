#!/usr/bin/env python3
"""tools/fixed.py PROP 'what failed' [commit]: note a repaired defect in known_findings.json"""
import json, os, subprocess, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
d = json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}
c = sys.argv[3] if len(sys.argv) > 3 else subprocess.check_output(
    ["git", "-C", "/repo", "rev-parse", "--short", "HEAD"]).decode().strip()
d["fixed"].append("fixed: property={0} {1} {2}".format(sys.argv[1], c, sys.argv[2]))
json.dump(d, open(p, "w"), indent=1)
