#!/usr/bin/env python3
"""tools/fixes.py PROPERTY [HASH...]: record /repo's unrecorded fix commits under that property in known_findings.jsonl."""
import os, subprocess, sys
F = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.jsonl")
have = open(F).read()
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
with open(F, "a") as f:
    for l in out.splitlines():
        h, s = l.split(" ", 1)
        if s.startswith("fix:") and h not in have and (not sys.argv[2:] or h in sys.argv[2:]):
            f.write("fixed: property=%s %s %s\n" % (sys.argv[1], h, s[5:]))
