#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re, collections
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
s = open("DESIGN.md").read()
star = set(re.findall(r"([a-z0-9-]+)\*", s)) | {"blank-limit", "id-wrap", "stdin-dash", "bom-strip"}
d = collections.defaultdict(list)
for b in sorted(os.listdir("seeded")):
    d[json.load(open(f"seeded/{b}/meta.json"))["property"]].append(b + ("*" if b in star else ""))
t = "|---|---|\n" + "".join(f"| {k} | {', '.join(d[k])} |\n" for k in sorted(d))
i = s.index("| property (= check that catches them)")
j = s.index("|---|---|\n", i)
k = s.index("\n\n", j)
open("DESIGN.md", "w").write(s[:j] + t.rstrip("\n") + s[k:])
