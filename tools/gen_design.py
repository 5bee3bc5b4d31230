#!/usr/bin/env python3
"""Rewrites the method paragraphs of DESIGN.md from harness/checks/config.py and the last evidence."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root + "/harness/checks")
from config import CHECKS
p = root + "/DESIGN.md"
s = open(p).read()
for cid, c in CHECKS.items():
    m = re.search(r"### %s [^\n]*\n\n(.*?)\n\nReach: (.*?) Programs: [^\n]*\n" % cid, s, re.S)
    if not m:
        print("no section for", cid)
        continue
    head = s[m.start():m.start(1)]
    body = re.sub(r"\s+", " ", c["rule"])
    if c.get("exhaustive"):
        body += "\nEnumerated: " + re.sub(r"\s+", " ", c["exhaustive"]) + "."
    progs = {}
    for q in c["programs"]:
        progs[q["src"][:-4] + "/" + q["variant"] + ("" if "quick" in q.get("tiers", ("quick",)) else " (thorough)")] = 1
    tail = "Programs: " + ", ".join(sorted(progs)) + "."
    s = s[:m.start()] + head + body + "\n\nReach: " + m.group(2) + " " + tail + "\n" + s[m.end():]
open(p, "w").write(s)
