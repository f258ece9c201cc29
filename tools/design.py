#!/usr/bin/env python3
"""Assembles DESIGN.md from DESIGN.in.md, the prose beside it, the evidence files, seeded/ and known_findings.txt."""
import json, os, glob, re
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
rd = lambda n: open(os.path.join(here, n)).read().strip()
d = rd("DESIGN.in.md")
rows = ["| check | driver | executions | transitions | s | bounds |", "|---|---|---|---|---|---|"]
for f in sorted(glob.glob(root + "/evidence/C*.json")):
    e = json.load(open(f))
    assert e["tier"] == "quick" and e["violations"] == 0, f
    for r in e["coverage"]["drivers"]:
        assert r["complete"], (f, r["name"])
        rows.append("| %s | %s | %d | %d | %.1f | %s |" % (e["property"], r["name"], r["executions"], r["transitions"], r["wall_s"], r["bounds"].replace("|", "/")))
drivers = "\n".join(rows)
fixes = ["| property | commit | what failed |", "|---|---|---|"]
for l in open(root + "/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: fixes.append("| %s | %s | %s |" % m.groups())
res = {}
try:
    for l in open(here + "/seeds.txt"):
        m = re.match(r"(\S+) (C\d\d) rc=(\d+) (\d+)s ?(.*)", l.strip())
        if m: res[m.group(1)] = m.groups()[1:]
except FileNotFoundError: pass
seeds = ["| planted bug | needs | caught by |", "|---|---|---|"]
caught = 0; n = 0
for p in sorted(glob.glob(root + "/seeded/*/meta.json")):
    b = os.path.basename(os.path.dirname(p)); m = json.load(open(p)); n += 1
    r = res.get(b)
    if r and r[1] == "1":
        caught += 1
        m2 = re.match(r"C\d\d driver ([^:]*):", r[3]); by = "%s, driver *%s*" % (r[0], m2.group(1)) if m2 else r[0]
    else: by = "not recorded" if not r else "**missed**"
    seeds.append("| %s | %s | %s |" % (b, m["needs"].replace("|", "/").replace("\n", " "), by))
seeds.append("\n%d planted bugs, %d caught by the check of their property." % (n, caught))
for k, v in {"PROSE": rd("prose.md"), "UNCLAIMED": rd("unclaimed.md"), "DRIVERS": drivers, "FIXES": "\n".join(fixes), "SEEDS": "\n".join(seeds), "MISSES": rd("misses.md"), "ROBUST": rd("robust.md")}.items():
    d = d.replace("@@%s@@" % k, v)
open(root + "/DESIGN.md", "w").write(d + "\n")
print(n, "bugs", caught, "caught")
