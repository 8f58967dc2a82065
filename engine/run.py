import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import threading
threading.stack_size(1 << 29)
import bdd as B, terms as X, interp as I, models as M
from terms import *
import dump
MIR = os.path.join(dump.TGT, "mir")
_p = {}
def prog(c, d=MIR):
    if c not in _p: _p[c] = I.Program(os.path.join(d, c + ".json"))
    return _p[c]
def interp(c, **k):
    return I.Interp(prog(c), M.Models(), **k)
def main(f):
    r = []
    def g():
        try: r.append(f())
        except BaseException as e:
            import traceback; tb = traceback.format_exc().splitlines(); print("\n".join(tb[:4] + ["..."] + tb[-12:])[:4000]); r.append(None)
    t = threading.Thread(target=g); t.start(); t.join()
    return r[0]
