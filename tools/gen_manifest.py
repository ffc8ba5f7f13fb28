#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the facets found in harness/*.cpp."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = {}
for f in sorted(glob.glob(os.path.join(V, "harness", "*.cpp"))):
    for m in re.finditer(r'static Reg \w+\(\{"(\w+)","([\w ]+)"', open(f).read()): have.setdefault(m.group(1), []).append(m.group(2))
if len(have) > 0: have["M01"] = ["sanitized"]
TECH = json.load(open(os.path.join(V, "tools", "techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have and i in TECH:
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH[i][0], "level": "exploration", "level_note": TECH[i][1]})
    else: na.append({"property": i, "reason": "the check is not built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/build.py plain san", "checks": checks, "not_applicable": na,
     "notes": "All checks are generated-input searches run by one harness (build/<flavour>/harness) that is rebuilt from /repo's working tree on every run; replay any violation with 'python3 check.py <id> --replay <file>'."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
