#!/usr/bin/env python3
"""Development tool: turns the (file, old, new) edits of trials/NAME.py into patches /tmp/edits/NAME/<edit>.diff (git-apply format).
usage: mkedits.py NAME [edit...]"""
import sys, os, difflib, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
name = sys.argv[1]
spec = importlib.util.spec_from_file_location(name, "%s/trials/%s.py" % (V, name))
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
out = "/tmp/edits/" + name
os.makedirs(out, exist_ok=True)
P = {"pair": "contracts/halo-pair/src/contract.rs", "factory": "contracts/halo-factory/src/contract.rs", "fstate": "contracts/halo-factory/src/state.rs",
     "router": "contracts/halo-router/src/contract.rs", "ops": "contracts/halo-router/src/operations.rs", "asset": "packages/haloswap/src/asset.rs",
     "querier": "packages/haloswap/src/querier.rs", "token": "packages/haloswap/src/token.rs", "math": "packages/bignumber/src/math.rs",
     "tokc": "contracts/halo-token/src/contract.rs", "prouter": "packages/haloswap/src/router.rs", "ppair": "packages/haloswap/src/pair.rs",
     "pfactory": "packages/haloswap/src/factory.rs"}
for k, es in m.EDITS.items():
    if len(sys.argv) > 2 and k not in sys.argv[2:]:
        continue
    files = {}
    for f, old, new in es:
        f = P.get(f, f)
        if old is None:
            files[f] = new
            continue
        s = files.setdefault(f, open("/repo/" + f).read())
        n = s.count(old)
        if n != 1:
            print("%s: %s: old text found %d times: %r" % (k, f, n, old[:80])); break
        files[f] = s.replace(old, new)
    else:
        d = ""
        for f, s in files.items():
            if os.path.exists("/repo/" + f):
                d += "".join(difflib.unified_diff(open("/repo/" + f).read().splitlines(True), s.splitlines(True), "a/" + f, "b/" + f))
            else:
                d += "diff --git a/%s b/%s\nnew file mode 100644\n" % (f, f)
                d += "".join(difflib.unified_diff([], s.splitlines(True), "/dev/null", "b/" + f))
        open("%s/%s.diff" % (out, k), "w").write(d)
