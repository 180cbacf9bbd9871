#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md (between markers) from known-findings.json and seeded/."""
import json, os, re
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
kf = json.load(open(os.path.join(R, "known-findings.json")))
fixed = "| property | commit | what failed |\n|---|---|---|\n"
for l in kf["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    fixed += "| %s | %s | %s |\n" % (m[1], m[2], m[3])
known = "".join("* %s\n" % k["what"] for k in kf["known"])
res = {}
p = os.path.join(R, "tools", "seeds", "results.json")
if os.path.exists(p):
    res = json.load(open(p))
seeds = "| planted bug | property | what it breaks | quick check |\n|---|---|---|---|\n"
for d in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", d, "meta.json")))
    seeds += "| %s | %s | %s | %s |\n" % (d, m["property"], m["what_it_breaks"].replace("|", "\\|"), res.get(d, "not run"))
f = os.path.join(R, "DESIGN.md")
s = open(f).read()
for tag, text in (("FIXED", fixed), ("KNOWN", known), ("SEEDS", seeds)):
    block = f"<!-- {tag} -->\n{text}<!-- /{tag} -->"
    if f"@{tag}@" in s:
        s = s.replace(f"@{tag}@", block)
    else:
        s = re.sub(rf"<!-- {tag} -->.*?<!-- /{tag} -->", lambda _: block, s, flags=re.S)
open(f, "w").write(s)
