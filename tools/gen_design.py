#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md (facets, planted bugs) from harness/*.cpp and seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
order = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
facets = {}
for f in sorted(glob.glob(os.path.join(V, "harness", "*.cpp"))):
    for m in re.finditer(r'static Reg \w+\(\{"(\w+)","([\w ]+)",\w+,(\d+),(\d+),(\d+),(\d+),"((?:[^"\\]|\\.)*)"(?:,(\d+))?', open(f).read()):
        facets.setdefault(m[1], []).append((m[2], m[3], m[4], m[8] or "0", m[7], os.path.basename(f)))
t = "| property | facet | cases quick / thorough / sanitized | generated cases and the rule for a non-trivial one | file |\n|---|---|---|---|---|\n"
for i in order:
    for q in facets.get(i, []): t += "| %s | %s | %s / %s / %s | %s | %s |\n" % (i, q[0], q[1], q[2], q[3], q[4].replace("|", "\\|"), q[5])
b = "| bug | property = check that reports it | what it breaks | needs |\n|---|---|---|---|\n"
for d in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(d)); b += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"].replace("|", "\\|"), str(m["needs"]).replace("|", "\\|"))
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
for name, text in (("facets", t), ("planted", b)):
    s = re.sub(r"(<!-- %s -->\n).*?(<!-- end -->)" % name, lambda m: m[1] + text + m[2], s, flags=re.S)
open(p, "w").write(s)
