#!/usr/bin/env python3
"""Development tool: writes seeded/<name>/ for the bugs in trials/bugs.py, bugs7.py and bugs8.py that have a demonstration in trials/demos.py.
usage: mkseeds.py [name...]   (without names: all)"""
import sys, os, json, shutil, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/trials")
import demos
names = sys.argv[1:] or list(demos.D)
out = os.environ.get("SEED_OUT", V + "/seeded")
SETS = ("bugs", "bugs7", "bugs8")
for x in SETS:
    subprocess.run([sys.executable, V + "/tools/mkedits.py", x] + names, check=True)
for n in names:
    needs, breaks, body = demos.D[n]
    d = "%s/%s" % (out, n)
    os.makedirs(d, exist_ok=True)
    src = [x for x in ("/tmp/edits/%s/%s.diff" % (x, n) for x in SETS) if os.path.exists(x)]
    shutil.copy(src[0], d + "/patch.diff")
    if n in demos.EXPORTS:
        shutil.copy(V + "/trials/seedlib/demo_exports.sh", d + "/demo.sh")
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": n[:3], "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        print(n)
        continue
    for f in ("demo.sh", "harness.rs"):
        shutil.copy(V + "/trials/seedlib/" + f, d + "/" + f)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write("#![allow(unused, clippy::all)]\nuse cosmwasm_std::testing::mock_info;\nuse cosmwasm_std::*;\nuse demo::*;\nuse haloswap::asset::*;\n\n#[test]\nfn demonstration() {%s}\n" % body)
    json.dump({"property": n[:3], "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print(n)
