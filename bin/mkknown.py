#!/usr/bin/env python3
"""Writes known-findings.txt from the fix: commits of /repo (a maintenance tool; no check runs it)."""
import os, subprocess
MAP = {"L01": "46d0d89 6b7a295 7750feb", "G05": "b71e74f 3543741 21bf65d", "G09": "4d98d78 3145b8c 1139477", "G04": "e26fb33 27f7b09",
       "T04": "63490f3 7d86e45 a7e141a", "T03": "ae6b3a4 a0e2995 69a1999 76ece23", "T02": "8947da3", "G08": "3d8aa24 7566176",
       "G06": "1003977 b10fa8c 9fa73cf 6672610 d4070f7 9a3c439 d68a783", "G02": "5cb3516 05049e3", "G01": "aa40700",
       "D01": "1f4bbc9 8a4b468", "P01": "a49c0cb dbb536f cd85e5d aae0d45", "T01": "5811b9a", "G03": "c9c4770 1ed44b2", "B01": "3e52f46 2138f61", "X01": "e1d0af4"}
EXTRA = {}
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subj = dict(l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines())
with open(os.path.join(V, "known-findings.txt"), "w") as f:
    f.write("# Genuine defects found in GregorR/ggggc. \"fixed\" entries suppress nothing.\n"
            "# \"finding\" entries: finding: property=<id> <what fails>\n")
    used = set()
    for p in sorted(MAP):
        for c in MAP[p].split():
            s = subj[c]
            assert s.startswith("fix: ")
            used.add(c)
            f.write("fixed: property=%s %s before this commit, this failed: %s\n" % (p, c, s[5:]))
    for c, s in subj.items():
        if s.startswith("fix: ") and c not in used:
            print("unmapped", c, s)
