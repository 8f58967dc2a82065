#!/usr/bin/env python3
"""compose.py OUT COUNT K SEED [BUG_DIR|-]: combined edits out of the single ones in /tmp/edits/refactor* (K each that apply together),
optionally on top of one planted change each; for trials with tools/trial.py."""
import sys, os, glob, random, subprocess, shutil
out, count, k, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
bugs = sys.argv[5:]
random.seed(seed)
BAD = {"m4_div_checked", "m4_mul_checked", "a5_amount_trait"}
edits = [f for f in sorted(glob.glob("/tmp/edits/refactor*/*.diff")) if os.path.basename(f)[:-5] not in BAD]
W = f"/tmp/compose{os.getpid()}"
os.makedirs(out, exist_ok=True)
subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
git = lambda *a: subprocess.run(["git", "-C", W, *a], capture_output=True, text=True)
for i in range(count):
    git("reset", "-q", "--hard"); git("clean", "-fdq")
    names = []
    if bugs:
        b = random.choice(bugs); 
        if git("apply", os.path.join(b, "patch.diff")).returncode: continue
        names.append(os.path.basename(b.rstrip("/")))
    # concentrate on one part of the workspace: edits of one prefix letter combine in the same functions
    letter = random.choice("pppfrmat") 
    pool = [e for e in edits if os.path.basename(e)[0] == letter] if i % 3 else edits[:]
    random.shuffle(pool)
    n = 0
    for e in pool:
        if n >= k: break
        if git("apply", e).returncode == 0:
            r = subprocess.run(["cargo", "+stable", "check", "--offline", "-q"], cwd=W, capture_output=True, text=True,
                               env=dict(os.environ, CARGO_TARGET_DIR="/tmp/compose_tgt"))
            if r.returncode:
                git("apply", "-R", e); continue
            names.append(os.path.basename(e)[:-5]); n += 1
    git("add", "-A", "-N")
    d = git("diff").stdout
    nm = f"c{seed}_{i:02d}"
    open(f"{out}/{nm}.diff", "w").write(d)
    print(nm, *names, flush=True)
shutil.rmtree(W)
