#!/usr/bin/env python3
"""Rewrites DESIGN.md's table of planted bugs from their meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json") + glob.glob(V + "/extra_bugs/*/meta.json"),
                key=lambda p: p.split("/")[-2]):
    rows.append("| %s | %s |\n" % (m.split("/")[-2], json.load(open(m))["needs"].strip().rstrip(".")))
text = open(V + "/DESIGN.md").read()
head, rest = text.split("| bug | needs |\n|---|---|\n", 1)
tail = rest[rest.index("\n\n"):] if not rest.startswith("\n") else rest
open(V + "/DESIGN.md", "w").write(head + "| bug | needs |\n|---|---|\n" + "".join(rows).rstrip("\n") + tail)
