#!/usr/bin/env python3
"""Append 'fixed:' lines to known-findings.txt: fixes.py PROP HASH... (or --missing
to list fix commits in /repo that the file does not mention)."""
import os, subprocess, sys
F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.txt")


def git(*a):
    return subprocess.check_output(("git", "-C", "/repo") + a, text=True)


have = open(F).read() if os.path.exists(F) else ""
if sys.argv[1] == "--missing":
    for l in git("log", "--reverse", "--format=%h %s", "110ab42..HEAD").splitlines():
        if l.split()[0] not in have:
            print(l)
else:
    with open(F, "a") as f:
        for h in sys.argv[2:]:
            s = git("log", "-1", "--format=%h %s", h).strip()
            h, s = s.split(" ", 1)
            if h not in have:
                f.write("fixed: property=%s %s %s\n" % (sys.argv[1], h, s.replace("fix: ", "")))
