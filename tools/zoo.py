#!/usr/bin/env python3
"""Development tool: analyses pairs of equivalent functions (trials/zoo.rs, put into a scratch copy of the pair contract)
and reports those whose results the analysis cannot prove equal, and every unmodelled library function.
usage: VERIF_REPO=scratch VERIF_TGT=dir zoo.py [--no-dump] [name...]"""
import os, sys, subprocess, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/engine")
import dump, run
assert dump.REPO != "/repo"
import interp as I, terms as X, bdd as B
from terms import *
from scen import Scen


def go():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    if "--no-dump" not in sys.argv:
        os.system("cp %s/trials/zoo.rs %s/contracts/halo-pair/src/zoo.rs" % (V, dump.REPO))
        lib = dump.REPO + "/contracts/halo-pair/src/lib.rs"
        s = open(lib).read()
        if "pub mod zoo;" not in s:
            open(lib, "w").write(s + "\npub mod zoo;\n")
        dump.dump()
    p = run.prog("halo_pair")
    names = sorted(k for k in p.fns if k.startswith("halo_pair::zoo::a_"))
    bad = 0
    for k in names:
        n = k.split("::a_")[1]
        if args and n not in args:
            continue
        out = []
        note = []
        try:
            s = Scen("halo_pair")
            for w in "ab":
                key, rec = s.fn("zoo::%s_%s" % (w, n))
                it = s.it
                st = I.State(B.T, {}, {})
                st.guard = B.T
                vals = [s.zoo_arg(i, t) for i, t in enumerate(rec["inputs"])]
                v = it.run_body(key, vals, st)
                out.append((v, st.guard))
            note = sorted({x for x in it.notes if x[0] == "unmodelled"} if isinstance(it.notes, (set, list)) else {x for x in it.notes if "unmodelled" in str(x)}, key=str)
            (v, g), (w, h) = out
            if X.sat(B.conj(g, B.neg(h))) or X.sat(B.conj(h, B.neg(g))):
                raise Exception("success differs: %s | %s" % (B.show(g, X.show)[:300], B.show(h, X.show)[:300]))
            d = X.equal_under(v, w, B.conj(g, h))
            if d:
                raise Exception("%s  <>  %s" % (X.show(d[1])[:300], X.show(d[2])[:300]))
            if note:
                raise Exception("unmodelled")
        except Exception as e:
            bad += 1
            print("%-18s %s %s  %s" % (n, type(e).__name__, str(e)[:500], str(note)[:300]))
            if "-v" in sys.argv:
                print("\n".join(traceback.format_exc().splitlines()[-12:]))
    print(len(names), "pairs,", bad, "not proved")


run.main(go)
