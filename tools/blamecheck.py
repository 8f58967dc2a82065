#!/usr/bin/env python3
"""Development tool: which lines removed by the seeded patches were written by our own fix commits."""
import re, subprocess, sys, glob
base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()
own = subprocess.run("git -C /repo log --format=%H --grep='^fix:'", shell=True, capture_output=True, text=True).stdout.split()
for p in sys.argv[1:] or glob.glob("/verif/seeded/*/patch.diff"):
    f, n, bad, tot = None, 0, 0, 0
    for l in open(p):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            bl = subprocess.run(["git", "-C", "/repo", "blame", "--line-porcelain", "HEAD", "--", f], capture_output=True, text=True).stdout
            who = [x.split()[0] for x in bl.splitlines() if re.match(r"[0-9a-f]{40} \d+ \d+", x)]
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            tot += 1
            bad += who[n - 1] in own
            n += 1
        elif l.startswith(" "):
            n += 1
    if bad or not tot:
        print(p.split("/")[-2], "removed", tot, "of which ours", bad)
