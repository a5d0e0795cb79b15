#!/usr/bin/env python3
"""Generates DESIGN.md from tools/design.md, the seeded changes and the findings."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/tools/design.md").read()
seeds = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    seeds.append("| %s | %s | %s |" % (f.split("/")[-2], m["property"], m["what_it_breaks"].replace("|", "/")))
known, fixed = [], []
for l in open(V + "/known-findings.txt"):
    k, p, r = l.strip().split(" ", 2)
    p = p.split("=")[1]
    if k == "fixed:":
        c, r = r.split(" ", 1)
        fixed.append("* %s (%s): %s" % (p, c, r))
    else:
        known.append("* %s: %s" % (p, r))
t = t.replace("@SEEDS@", "| change | caught by | what it breaks |\n|---|---|---|\n" + "\n".join(seeds)).replace("@N@", str(len(seeds)))
t = t.replace("The last column says what they taught.\n", "\n").replace("@FIXED@", "\n".join(fixed)).replace("@KNOWN@", "\n".join(known))
t = t.replace("@MCCONMAN@\n", open(V + "/tools/mcconman.md").read() if os.path.exists(V + "/tools/mcconman.md") else "")
open(V + "/DESIGN.md", "w").write(t)
print(len(seeds), "seeded,", len(fixed), "fixed,", len(known), "known")
