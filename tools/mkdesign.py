#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(m))
    t.setdefault(j["property"], []).append("`%s` — %s" % (os.path.basename(os.path.dirname(m)), j["what_it_breaks"].rstrip(".")))
rows = "".join("| %s | %s |\n" % (p, "; ".join(t[p])) for p in sorted(t))
d = open(V + "/DESIGN.md").read()
head, rest = d.split("| property | planted bugs |\n|---|---|\n", 1)
tail = rest[rest.index("\n\n"):] if not rest.startswith("@TABLE@") else rest[len("@TABLE@\n"):]
open(V + "/DESIGN.md", "w").write(head + "| property | planted bugs |\n|---|---|\n" + rows.rstrip("\n") + ("\n" + tail if not tail.startswith("\n\n") else tail))
