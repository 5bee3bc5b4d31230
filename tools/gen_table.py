#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(V + "/tools/caught.json"))
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = m.split("/")[-2]
    j = json.load(open(m))
    c = caught.get(i, [])
    rows.append(f"| {i} | {j['property']} | {', '.join(c) or 'not run'} | {j['needs'].rstrip('.')} |")
head = "## Planted bugs and what catches them\n"
s = open(V + "/DESIGN.md").read()
s = s[:s.index(head)] if head in s else s.rstrip() + "\n\n"
s += head + """
Each is kept under `seeded/`; every patch compiles, passes the stable tests and has a demonstration. "Caught by" lists checks that
were run on it and reported a violation (the property's own check first); checks of other properties were mostly not tried.

| planted bug | property | caught by | needs |
|---|---|---|---|
""" + "\n".join(rows) + """

Reverting the `fix:` commits one at a time:

| commit reverted | caught by |
|---|---|
| f6bf7f3 norm accumulated in 64 bits | C02 |
| 989602f s1 coefficient 6144 | C02 |
| 7f254fb magnitudes of 1024 and more | C08 |
| 6d584ba over-read while decompressing | C10, C09 |
| d8e0220 encodings which use every bit | C08 |
| dbebcdc public key coefficients >= q | C06 |
| dc3d949 key polynomials which do not fit | C04 |
| 34c1576 negative double to unsigned | C11 |
| 62a9f1b seed of 256 bits | C20 |
| 544c92d endless NTRU reduction | C05 |
"""
open(V + "/DESIGN.md", "w").write(s)
