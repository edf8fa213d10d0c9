#!/usr/bin/env python3
"""Puts the table of planted bugs into DESIGN.md from a log of lines
'<id> <prop> rc=1 .. replay=/verif/replays/<prop>-<test>-<hash>.json ..' (argument)."""
import json, os, re, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
log = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+) (C\d\d) rc=(\d+).*?replays/C\d\d-(.*?)-[0-9a-f]{16}", l)
        if m: log[m[1]] = m[4]
rows = ["| planted bug | what it needs | caught by |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    meta = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    needs = meta["needs"].replace("|", "/").replace("\n", " ")
    rows.append(f"| {d} | {needs[:110]} | {meta['property']} {log.get(d, '?')} |")
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
a, b = "<!-- table -->\n", "<!-- end of table -->\n"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
