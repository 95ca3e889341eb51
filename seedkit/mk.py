#!/usr/bin/env python3
"""usage: mk.py ID FILE <<edits   writes seeded/ID/patch.diff; edits: blocks '<<<<\nold\n====\nnew\n>>>>' (several files: '@@ FILE' lines)"""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
id, f = sys.argv[1], sys.argv[2]
d = f"{V}/seeded/{id}"; os.makedirs(d, exist_ok=True)
assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True).stdout == b"", "dirty /repo"
try:
    for block in sys.stdin.read().split("<<<<\n")[0:]:
        if "====\n" in block:
            old, rest = block.split("====\n", 1); new, tail = rest.split(">>>>", 1)
            p = "/repo/" + f; s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        else: tail = block
        for l in tail.splitlines():
            if l.startswith("@@ "): f = l[3:].strip()
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True).stdout
    open(f"{d}/patch.diff", "wb").write(diff)
    print(id, len(diff))
finally: subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
