#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = ROOT + "/DESIGN.md"
s = open(p).read()
rows = []
for d in sorted(glob.glob(ROOT + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append(f"| {os.path.basename(d)} | {m['property']} | {' '.join(m['needs'].split())} |")
tab = ("## Planted bugs\n\nEach survives the repository's 850 tests; each is caught by the quick check of its property.\n"
       "`tools/seed.py check ID` repeats this in a scratch copy.\n\n| change | caught by | needs |\n|---|---|---|\n"
       + "\n".join(rows) + "\n\n")
s = re.sub(r"## Planted bugs\n.*?(?=## Other changes)", "", s, flags=re.S)
s = s.replace("## Other changes", tab + "## Other changes", 1)
open(p, "w").write(s)
