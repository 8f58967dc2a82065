"""Gated value-flow analysis of dumped MIR: every local of every (inlined) function is mapped to one hash-consed
value term; paths are joined at every control-flow merge (gamma terms guarded by BDDs), nothing is executed."""
import json, os
import bdd as B
import terms as X
from terms import T, mk, INT, STR, BOOL, ZERO, ONE, UNIT, UNDEF, TRUE, FALSE, mkgamma, lift, liftb, alts


class AnalysisError(Exception):
    pass


TRANSPARENT = {
    "cosmwasm_std::math::uint128::Uint128", "cosmwasm_std::math::uint64::Uint64",
    "cosmwasm_std::math::uint256::Uint256", "cosmwasm_std::math::uint512::Uint512",
    "cosmwasm_std::math::decimal::Decimal", "cosmwasm_std::math::decimal256::Decimal256",
    "cosmwasm_std::binary::Binary", "cosmwasm_std::addresses::Addr", "cosmwasm_std::addresses::CanonicalAddr",
    "bignumber::math::Uint256", "bignumber::math::Decimal256", "bigint::uint::U256",
    "cosmwasm_std::math::uint256::uints::U256", "cosmwasm_std::math::uint512::uints::U512",
    "core::mem::maybe_uninit::MaybeUninit", "core::mem::manually_drop::ManuallyDrop",
    "core::ptr::unique::Unique", "core::ptr::non_null::NonNull", "core::cell::Cell", "core::cell::UnsafeCell",
    "cosmwasm_std::timestamp::Timestamp", "core::num::wrapping::Wrapping",
    "core::mem::maybe_dangling::MaybeDangling",
}
INTTYPES = {"cosmwasm_std::math::uint128::Uint128": 128, "cosmwasm_std::math::uint64::Uint64": 64,
            "cosmwasm_std::math::uint256::Uint256": 256, "cosmwasm_std::math::uint512::Uint512": 512,
            "cosmwasm_std::math::decimal::Decimal": 128, "cosmwasm_std::math::decimal256::Decimal256": 256,
            "bignumber::math::Uint256": 256, "bignumber::math::Decimal256": 256, "bigint::uint::U256": 256,
            "cosmwasm_std::math::uint256::uints::U256": 256, "cosmwasm_std::math::uint512::uints::U512": 512,
            "cosmwasm_std::timestamp::Timestamp": 64}
TEXTTYPES = {"cosmwasm_std::binary::Binary", "cosmwasm_std::addresses::Addr", "cosmwasm_std::addresses::CanonicalAddr",
             "alloc::string::String"}
OPT, RES, ORD = "core::option::Option", "core::result::Result", "core::cmp::Ordering"


def some(x):
    return mk("agg", OPT, 1, x)


NONE = mk("agg", OPT, 0)


def ok(x):
    return mk("agg", RES, 0, x)


def err(x):
    return mk("agg", RES, 1, x)


def tup(*xs):
    return mk("agg", "()", 0, *xs)


def lst(xs):
    return mk("list", tuple(xs))


class State:
    __slots__ = ("guard", "env", "store")

    def __init__(self, guard=B.T, env=None, store=None):
        self.guard = guard
        self.env = env if env is not None else {}
        self.store = store if store is not None else {}

    def copy(self):
        return State(self.guard, dict(self.env), dict(self.store))

    def assign(self, o):
        self.guard, self.env, self.store = o.guard, o.env, o.store


class Body:
    def __init__(self, key, d):
        self.key = key
        self.d = d
        self.blocks = d["blocks"]
        self.argc = d["argc"]
        self.locals = d["locals"]
        self.names = {i: n for i, n in d["names"]}
        n = len(self.blocks)
        self.succ = [self._succ(b) for b in self.blocks]
        self._rpo()
        self._loops()
        self._live()

    def _succ(self, b):
        if b is None:
            return ()
        t = b["t"]
        k = t[0]
        if k == "goto":
            return (t[1],)
        if k == "switch":
            return tuple(dict.fromkeys([x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])))
        if k == "call":
            return (t[4],) if t[4] is not None else ()
        if k == "assert":
            return (t[4],)
        return ()

    def _rpo(self):
        seen, order = set(), []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = order
        self.pos = {b: i for i, b in enumerate(order)}

    def _loops(self):
        preds = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                preds[s].append(b)
        # dominators
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                new = ps[0]
                for p in ps[1:]:
                    a, c = p, new
                    while a != c:
                        while self.pos[a] > self.pos[c]:
                            a = idom[a]
                        while self.pos[c] > self.pos[a]:
                            c = idom[c]
                    new = a
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.pos[s] <= self.pos[b]:
                    x = b
                    while x != s and x != 0:
                        x = idom[x]
                    if x != s:
                        raise AnalysisError("irreducible loop in " + self.key)
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        y = st.pop()
                        if y in body:
                            continue
                        body.add(y)
                        st.extend(preds[y])

    def _live(self):
        addr = set()
        use, df = {}, {}

        def place_uses(p, acc):
            acc.add(p[0])
            for e in p[1]:
                if e[0] == "i":
                    acc.add(e[1])

        def opnd(o, acc):
            if o[0] in "cm":
                place_uses(o[1], acc)

        for b in self.rpo:
            bl = self.blocks[b]
            u, d = set(), set()

            def use_set(acc):
                for x in acc:
                    if x not in d:
                        u.add(x)
            for s in bl["s"]:
                acc = set()
                if s[0] == "=":
                    rv = s[2]
                    k = rv[0]
                    if k in ("ref", "reborrow", "rawptr"):
                        pl = rv[2] if k != "rawptr" else rv[1]
                        if k == "rawptr" or rv[1] != "shared":
                            addr.add(pl[0])
                        place_uses(pl, acc)
                    elif k == "discr":
                        place_uses(rv[1], acc)
                    elif k == "agg":
                        for o in rv[2]:
                            opnd(o, acc)
                    else:
                        for o in rv[1:]:
                            if isinstance(o, list) and o and o[0] in ("c", "m") and len(o) == 2 and isinstance(
                                    o[1], list):
                                opnd(o, acc)
                    if s[1][1]:
                        place_uses(s[1], acc)
                    use_set(acc)
                    if not s[1][1]:
                        d.add(s[1][0])
                elif s[0] == "setd":
                    place_uses(s[1], acc)
                    use_set(acc)
                else:
                    for o in s[1:]:
                        if isinstance(o, list) and o and o[0] in ("c", "m"):
                            opnd(o, acc)
                    use_set(acc)
            t = bl["t"]
            acc = set()
            if t[0] == "switch":
                opnd(t[1], acc)
            elif t[0] == "assert":
                opnd(t[1], acc)
            elif t[0] == "call":
                opnd(t[1], acc)
                for o in t[2]:
                    opnd(o, acc)
                if t[3][1]:
                    place_uses(t[3], acc)
            elif t[0] == "return":
                acc.add(0)
            use_set(acc)
            if t[0] == "call" and not t[3][1]:
                pass
            use[b], df[b] = u, d
        live = {b: set() for b in self.rpo}
        changed = True
        while changed:
            changed = False
            for b in reversed(self.rpo):
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                i = use[b] | (o - df[b])
                if i != live[b]:
                    live[b] = i
                    changed = True
        self.live = {b: live[b] | addr for b in self.rpo}


class Program:
    """one crate's dump (all reachable bodies of dependencies included)"""

    def __init__(self, path):
        self.d = json.load(open(path))
        self.name = self.d["crate"]
        self.types = self.d["types"]
        self.bodies = {}
        self.raw = self.d["bodies"]
        self.fns = {f["key"]: f for f in self.d["fns"]}
        self.bystr = {t["s"]: i for i, t in enumerate(self.types)}
        self.discr = {}
        for t in self.types:
            if t["k"] == "adt" and t.get("variants"):
                st = X.STRUCT.setdefault(t["path"], {})
                for vi, (nm, dv, fl) in enumerate(t["variants"]):
                    st[vi] = (nm, [f[0] for f in fl])
                    self.discr[(t["path"], vi)] = int(dv) if dv is not None else vi
        self.discr[(ORD, 0)] = -1

    def body(self, key):
        b = self.bodies.get(key)
        if b is None:
            if key not in self.raw:
                raise AnalysisError("no body for " + str(key))
            b = self.bodies[key] = Body(key, self.raw[key])
        return b

    def ty(self, s):
        if s not in self.bystr:
            raise AnalysisError("type %s not found in %s" % (s, self.name))
        return self.bystr[s]

    def adt(self, path):
        """type id of an ADT by path (first instance)"""
        for i, t in enumerate(self.types):
            if t["k"] == "adt" and t["path"] == path:
                return i
        raise AnalysisError("type %s not found in %s" % (path, self.name))


FN = {}      # index -> callee record, for fn-item values


def fnval(rec):
    k = json.dumps(rec, sort_keys=True)
    FN[k] = rec
    return mk("fn", k)


# ------------------------------------------------------------------------------------------------ projections

def proj(v, e):
    """project one MIR place element out of a value"""
    if v.op == "gamma":
        if e[0] == "v":
            out = []
            for g, x in v.args[0]:
                y = proj(x, e)
                if y is not UNDEF:
                    out.append((g, y))
            return mkgamma(out)
        return lift(lambda x: proj(x, e), v)
    k = e[0]
    if v is UNDEF:
        return UNDEF
    if k == "*":
        return v
    if k == "f":
        if v.op == "agg":
            i = e[1]
            if 2 + i < len(v.args):
                return v.args[2 + i]
            return UNDEF
        if v.op == "opq":
            return mk("opq", "fld%d" % e[1], v)
        return v if e[1] == 0 else mk("opq", "fld%d" % e[1], v)
    if k == "v":
        if v.op == "agg":
            return v if v.args[1] == e[1] else UNDEF
        return v
    if k == "c":
        n = e[1]
        if v.op == "list":
            xs = v.args[0]
            i = len(xs) - n if e[3] else n
            return xs[i] if 0 <= i < len(xs) else UNDEF
        if v.op == "str":
            bs = v.args[0].encode()
            i = len(bs) - n if e[3] else n
            return INT(bs[i]) if 0 <= i < len(bs) else UNDEF
        if not e[3]:
            return index(v, INT(n))
        return index(v, X.sub(X.mklen(v), INT(n)))
    if k == "s":
        return subslice(v, INT(e[1]), INT(e[2]) if not e[3] else X.sub(X.mklen(v), INT(e[2])))
    raise AnalysisError("projection " + str(e))


def index(v, i):
    def f(x, k):
        if x is UNDEF or k is UNDEF:
            return UNDEF
        if x.op == "list":
            xs = x.args[0]
            if k.op == "int":
                return xs[k.args[0]] if 0 <= k.args[0] < len(xs) else UNDEF
            return mkgamma([(X.inteq(k, INT(n)), y) for n, y in enumerate(xs)])
        if x.op == "str" and k.op == "int":
            bs = x.args[0].encode()
            return INT(bs[k.args[0]]) if 0 <= k.args[0] < len(bs) else UNDEF
        if X.intish(x):      # limbs of a 256-bit integer
            if k.op == "int":
                return limb(x, k.args[0])
            return mkgamma([(X.inteq(k, INT(n)), limb(x, n)) for n in range(4)])
        r = X.at(x, k)
        if r.op == "at" and r not in X.RNG:
            X.RNG[r] = (0, 255)
        return r
    return lift(f, v, i)


limb = X.limb


def subslice(v, a, b):
    def f(x, p, q):
        if x.op == "list" and p.op == "int" and q.op == "int":
            return lst(x.args[0][p.args[0]:q.args[0]])
        if x.op == "str" and p.op == "int" and q.op == "int":
            return STR(x.args[0].encode()[p.args[0]:q.args[0]])
        if p is ZERO and q is X.mklen(x):
            return x
        if X.intish(x) and p.op == "int" and q.op == "int":
            return lst([limb(x, n) for n in range(p.args[0], q.args[0])])
        return mk("sub", x, p, q)
    return lift(f, v, a, b)


# ------------------------------------------------------------------------------------------------ interpreter

BOXPTR = ("alloc::boxed::BoxRaw", "core::ptr::unique::Unique")


class Interp:
    def __init__(self, prog, models, vec_bound=2, unroll=90):
        self.prog = prog
        self.T = prog.types
        self.models = models
        self.nframe = 0
        self.depth = 0
        self.heap = 0
        self.reverts = []       # (guard, kind, text, where)
        self.notes = []         # (kind, text, where)
        self.lost = []          # (condition, kind, where): a value was reduced modulo 2^n or clipped at its maximum
        self.split = {}         # narrowed value -> entries of lost
        self.unroll = unroll
        self.shape = None       # scenario hook: (base, type) -> variant name / list length / value / None
        self.vec_bound = vec_bound
        self.where = []
        self.consts = {}
        self.visited = set()
        self.cells = set()      # storage cells used: (kind, namespace, key type, value type)
        self.calls = 0
        self.unfit = B.F        # some ratio did not fit its type and was reported as an error value
        self.fails = {}         # fail atom -> (guard at creation, where)
        self.steps = 0

    # ---- events
    def loc(self):
        return self.where[-1] if self.where else "?"

    def path(self):
        return " > ".join(w[0] for w in self.where)

    def revert(self, st, cond, kind, text=""):
        """under st.guard & cond the call aborts"""
        g = B.conj(st.guard, cond)
        if g == B.F:
            return
        if not X.feasible(g):
            return
        self.reverts.append((g, kind, text, self.loc()))
        st.guard = B.conj(st.guard, B.neg(cond))

    def note(self, kind, text):
        self.notes.append((kind, text, self.loc()))

    def lose(self, cond, kind, v=None):
        if cond != B.F:
            self.lost.append((cond, kind, self.loc()))
            if v is not None:
                self.split.setdefault(v, []).append((len(self.lost) - 1, tuple(w[0] for w in self.where)))

    def recovered(self, r):
        """r was put together from machine words: a narrowing of r here or in a function called
        from here only took one of its words"""
        if not self.split:
            return
        for _, x in alts(r):
            for n, path in self.split.get(x, ()):
                here = tuple(w[0] for w in self.where)
                if path[:len(here)] == here:
                    self.lost[n] = (B.F,) + self.lost[n][1:]

    def failnode(self, st, op, *args):
        """condition 'this fallible operation fails'; remembered for the error-propagation rule"""
        t = X.opaque("fail", op, *args)
        if t.op == "gamma":
            r = B.F
            for g, v in t.args[0]:
                n = B.var(v)
                self._fail(v, B.conj(st.guard, g))
                r = B.disj(r, B.conj(g, n))
            return r
        self._fail(t, st.guard)
        return B.var(t)

    def _fail(self, atom, g):
        o = self.fails.get(atom)
        self.fails[atom] = (B.disj(o[0], g), o[1]) if o else (g, self.loc())

    # ---- types
    def ts(self, t):
        return self.T[t]["s"]

    def strip(self, t):
        while self.T[t]["k"] in ("ref", "ptr"):
            t = self.T[t]["to"]
        return t

    # ---- state merge
    def merge(self, states, fr=None, live=None):
        if len(states) == 1:
            st = states[0]
            if fr is not None and live is not None:
                dead = [k for k in st.env if k[0] == fr and k[1] not in live]
                for k in dead:
                    del st.env[k]
            return st
        g = B.disj(*[s.guard for s in states])
        env = {}
        keys = dict.fromkeys(k for s in states for k in s.env)
        for k in keys:
            if fr is not None and live is not None and k[0] == fr and k[1] not in live:
                continue
            v0 = states[0].env.get(k)
            if all(s.env.get(k) is v0 for s in states):
                if v0 is not None:
                    env[k] = v0
                continue
            env[k] = mkgamma([(s.guard, s.env[k]) for s in states if k in s.env], g)
        store = {}
        for k in dict.fromkeys(k for s in states for k in s.store):
            v0 = states[0].store.get(k)
            if all(s.store.get(k) is v0 for s in states):
                store[k] = v0
                continue
            store[k] = mkgamma([(s.guard, s.store.get(k) or self.init_store(k)) for s in states], g)
        return State(g, env, store)

    def init_store(self, k):
        return mk("init", *k)

    # ---- places
    def read(self, st, fr, place):
        v = st.env.get((fr, place[0]), UNDEF)
        inbox = False
        for e in place[1]:
            if e[0] == "*":
                v = self.deref(st, v)
            elif e[0] == "i":
                v = index(self.deref(st, v), st.env.get((fr, e[1]), UNDEF))
            elif e[0] == "f" and (v.op == "mref" or v.op == "gamma" and all(x.op == "mref" for _, x in v.args[0])):
                pass                    # the pointer inside a box
            elif e[0] == "f" and len(e) > 2 and (self.T[e[2]].get("path") in BOXPTR or inbox):
                inbox = self.T[e[2]].get("path") in BOXPTR or self.T[e[2]].get("path") == "core::ptr::non_null::NonNull"
                continue                # the pointer of a box held by value
            else:
                v = proj(self.deref(st, v), e)
            inbox = False
        return v

    def deref(self, st, v):
        """a mutable reference or fresh box reads its cell; everything else is transparent"""
        if v.op == "mref":
            return self.read_cell(st, v)
        if v.op == "gamma" and any(x.op == "mref" for _, x in v.args[0]):
            return mkgamma([(g, self.deref(st, x)) for g, x in v.args[0]])
        return v

    def read_cell(self, st, m):
        v = st.env.get(m.args[0], UNDEF)
        for e in m.args[1]:
            if e[0] == "i":
                v = index(v, e[1])
            else:
                v = proj(v, e)
        if v.op == "mref":
            return self.read_cell(st, v)
        return v

    def resolve(self, st, fr, place):
        """list of (guard, cell, path) a place denotes"""
        out = [(B.T, (fr, place[0]), ())]
        for e in place[1]:
            nxt = []
            for g, cell, path in out:
                if e[0] == "*":
                    v = self.walk(st, cell, path)
                    if v.op == "mref":
                        nxt.append((g, v.args[0], v.args[1]))
                    elif v.op == "gamma" and any(x.op == "mref" for _, x in v.args[0]):
                        for h, x in v.args[0]:
                            k = B.conj(g, h)
                            if k == B.F:
                                continue
                            if x.op == "mref":
                                nxt.append((k, x.args[0], x.args[1]))
                            else:
                                nxt.append((k, cell, path))
                    else:
                        nxt.append((g, cell, path))
                elif e[0] == "i":
                    nxt.append((g, cell, path + (("i", st.env.get((fr, e[1]), UNDEF)),)))
                else:
                    nxt.append((g, cell, path + (tuple(e),)))
            out = nxt
        return out

    def walk(self, st, cell, path):
        v = st.env.get(cell, UNDEF)
        for e in path:
            v = index(v, e[1]) if e[0] == "i" else proj(v, e)
        return v

    def write(self, st, fr, place, val):
        if not place[1]:
            st.env[(fr, place[0])] = val
            return
        self.write_targets(st, self.resolve(st, fr, place), val)

    def write_targets(self, st, tg, val):
        for g, cell, path in tg:
            old = st.env.get(cell, UNDEF)
            new = self.setpath(old, path, val, self.cell_ty(cell))
            if g != B.T:
                new = mkgamma([(g, new), (B.neg(g), old)])
            st.env[cell] = new

    def write_ref(self, st, m, val):
        """*m = val for an mref value (or gamma of them)"""
        for g, x in alts(m):
            if x.op != "mref":
                raise AnalysisError("write through %s" % X.show(x))
        if m.op == "mref":
            self.write_targets(st, [(B.T, m.args[0], m.args[1])], val)
        else:
            for g, x in m.args[0]:
                v = val
                self.write_targets(st, [(g, x.args[0], x.args[1])], v)

    def cell_ty(self, cell):
        return None

    def setpath(self, old, path, val, ty):
        if not path:
            return val
        e, rest = path[0], path[1:]
        if old.op == "gamma":
            if e[0] == "v":
                return mkgamma([(g, self.setpath(x, path, val, ty)
                                 if x.op == "agg" and x.args[1] == e[1] or x is UNDEF else x)
                                for g, x in old.args[0]])
            if e[0] == "i" and e[1].op == "gamma":
                pass
            return mkgamma([(g, self.setpath(x, path, val, ty)) for g, x in old.args[0]])
        k = e[0]
        if k == "v":
            return self.setpath(old, rest, val, ty)
        if k == "f":
            if old.op == "agg":
                fs = list(old.args[2:])
                while len(fs) <= e[1]:
                    fs.append(UNDEF)
                fs[e[1]] = self.setpath(fs[e[1]], rest, val, None)
                return mk("agg", old.args[0], old.args[1], *fs)
            if old is UNDEF:
                fs = [UNDEF] * (e[1] + 1)
                fs[e[1]] = self.setpath(UNDEF, rest, val, None)
                return mk("agg", "?", 0, *fs)
            if e[1] == 0:
                return self.setpath(old, rest, val, None)
            return mk("opq", "setf", old)
        if k in ("i", "c"):
            i = e[1] if k == "i" else INT(e[1])
            if old.op == "list":
                if i.op == "int":
                    n = i.args[0]
                    xs = list(old.args[0])
                    if not 0 <= n < len(xs):
                        return UNDEF
                    xs[n] = self.setpath(xs[n], rest, val, None)
                    return lst(xs)
                xs = []
                for n, x in enumerate(old.args[0]):
                    c = X.inteq(i, INT(n))
                    xs.append(mkgamma([(c, self.setpath(x, rest, val, None)), (B.neg(c), x)]))
                return lst(xs)
            if X.intish(old) and i.op == "int" and not rest:    # a limb of a wide integer
                n = i.args[0]
                return X.add(X.sub(old, X.scale(limb(old, n), 1 << (64 * n))), X.scale(val, 1 << (64 * n)))
        if k == "s" and old.op == "list" and not e[3] and 0 <= e[1] <= e[2] <= len(old.args[0]):
            xs = old.args[0]
            new = self.setpath(lst(xs[e[1]:e[2]]), rest, val, None)
            if new.op == "list" and len(new.args[0]) == e[2] - e[1]:
                return lst(list(xs[:e[1]]) + list(new.args[0]) + list(xs[e[2]:]))
        return mk("opq", "set", old, val)

    # ---- operands
    def operand(self, st, fr, o):
        if o[0] in "cm":
            v = self.read(st, fr, o[1])
            return v
        if o[0] == "k":
            return self.const(o[1])
        return mk("opq", "rt", o[1] if isinstance(o[1], str) else "")

    def const(self, c):
        k = c["k"]
        if k == "int":
            t = self.T[c["t"]]
            n = int(c["v"])
            if t["k"] == "bool":
                return TRUE if n else FALSE
            return INT(n)
        if k == "refint":
            return INT(int(c["v"]))
        if k == "str":
            return STR(c["v"])
        if k == "bytes":
            return STR(bytes.fromhex(c["v"]))
        if k == "fn":
            return fnval(c["fn"])
        if k == "zst":
            return self.zst(c["t"])
        if k == "body":
            key = c["key"]
            if key not in self.consts:
                st = State()
                try:
                    self.consts[key] = self.run_body(key, [], st)
                except AnalysisError:
                    self.consts[key] = mk("opq", "const", key)
            return self.consts[key]
        if k == "adt":
            ty = self.T[c["t"]]
            vs = [self.const(x) for x in c["fields"]]
            if ty["k"] == "tuple":
                return tup(*vs)
            p = ty["path"]
            if p in TRANSPARENT and vs:
                v = vs[0]
                if p in INTTYPES and v.op == "list":
                    r = ZERO
                    for i, l in enumerate(v.args[0]):
                        r = X.add(r, X.scale(l, 1 << (64 * i)))
                    return r
                return v
            return mk("agg", p, c["variant"], *vs)
        return mk("opq", "const", json.dumps(c, sort_keys=True))

    def zst(self, t):
        ty = self.T[t]
        k = ty["k"]
        if k == "adt" and ty.get("variants") and len(ty["variants"]) == 1:
            fs = [self.zst(f[1]) for f in ty["variants"][0][2]]
            return mk("agg", ty["path"], 0, *fs)
        if k == "adt" and ty.get("adt") == "struct":
            return mk("agg", ty["path"], 0)
        if k == "tuple":
            return tup(*[self.zst(e) for e in ty["elems"]])
        if k == "fndef":
            return fnval(ty["fn"])
        if k == "closure":
            return mk("agg", "closure:" + (ty.get("body") or ""), 0)
        if k == "array":
            return lst([])
        return UNIT

    # ---- rvalues
    def bits(self, t):
        ty = self.T[t]
        if ty["k"] == "int":
            return ty["bits"], ty["signed"]
        if ty["k"] == "bool":
            return 1, False
        if ty["k"] == "char":
            return 32, False
        return None

    def wrap(self, st, v, bits, signed, nonneg=False):
        """value modulo 2^bits (returned unchanged where it is known to fit)"""
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)

        def f(x, g=B.T):
            a, b = X.rng(x)
            if a is not None and b is not None and lo <= a and b <= hi:
                return x
            fits = B.conj(B.neg(X.lt(x, INT(lo))), X.lt(x, INT(hi + 1)))
            if X.decide(fits, B.conj(st.guard, g)) == B.T:
                return x
            self.lose(B.conj(st.guard, g, B.neg(fits)), "reduced to %d bits" % bits, x)
            if x.op == "int":
                n = x.args[0] & ((1 << bits) - 1)
                return INT(n - (1 << bits) if signed and n >> (bits - 1) else n)
            W = 1 << bits
            if not signed and bits == 128 and a is not None and b is not None and -W <= a and b < 2 * W:
                neg, big = X.lt(x, INT(0)), B.neg(X.lt(x, INT(W)))
                return X.mkgamma([(neg, X.add(x, INT(W))), (B.conj(B.neg(neg), B.neg(big)), x), (big, X.sub(x, INT(W)))])
            m = X.limb(x, 0) if bits == 64 and not signed and (nonneg or a is not None and a >= 0) else X.mod(x, INT(W))
            if signed:
                return mk("opq", "wrap", x)
            return m
        if v.op == "gamma":
            return X.mkgamma([(g, f(x, g)) for g, x in v.args[0]])
        return f(v)

    def binop(self, st, op, a, b, ta, tdest):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        ty = self.T[ta] if ta is not None else None
        cmpn = {"Lt": lambda x, y: X.lt(x, y), "Le": lambda x, y: X.le(x, y), "Gt": lambda x, y: X.lt(y, x),
                "Ge": lambda x, y: X.le(y, x)}
        isb = all(x.op == "bool" for _, x in alts(a)) or all(x.op == "bool" for _, x in alts(b))
        if isb:
            p, q = X.asnode(a), X.asnode(b)
            if op in ("BitAnd",):
                return BOOL(B.conj(p, q))
            if op == "BitOr":
                return BOOL(B.disj(p, q))
            if op in ("BitXor", "Ne"):
                return BOOL(B.ite(p, B.neg(q), q))
            if op == "Eq":
                return BOOL(B.ite(p, q, B.neg(q)))
            if op == "Lt":
                return BOOL(B.conj(B.neg(p), q))
            if op == "Gt":
                return BOOL(B.conj(p, B.neg(q)))
            if op == "Le":
                return BOOL(B.disj(B.neg(p), q))
            if op == "Ge":
                return BOOL(B.disj(p, B.neg(q)))
            raise AnalysisError("bool op " + op)
        if op in ("Eq", "Ne"):
            n = X.eq(a, b)
            return BOOL(n if op == "Eq" else B.neg(n))
        if op in cmpn:
            return BOOL(cmpn[op](self.num(a), self.num(b)))
        if op == "Cmp":
            c = X.lt(a, b)
            e = X.inteq(a, b)
            return self.ordering(c, e)
        bs = None
        if ty is not None:
            bs = self.bits(ta)
        checked = op.endswith("WithOverflow")
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        a, b = self.num(a), self.num(b)
        if base == "Add":
            r = X.add(a, b)
            self.recovered(r)
        elif base == "Sub":
            r = X.sub(a, b)
        elif base == "Mul":
            r = X.mul(a, b)
        elif base in ("Div", "Rem"):
            if b is INT(1 << 64) and bs == (128, False):
                return self.shift("Shr", a, INT(64), bs) if base == "Div" else self.bitand(a, INT((1 << 64) - 1), bs)
            return X.div(a, b) if base == "Div" else X.mod(a, b)
        elif base in ("Shl", "Shr"):
            r = self.shift(base, a, b, bs)
        elif base == "BitAnd":
            return self.bitand(a, b, bs)
        elif base in ("BitOr", "BitXor"):
            r = lift(lambda x, y: self._bitor(base, x, y, bs), a, b)
            self.recovered(r)
            return r
        elif base == "Offset":
            return X.opaque("opq", "offset", a, b)
        else:
            raise AnalysisError("binop " + op)
        if bs is None:
            bs = (64, False)
        if checked:
            bits, signed = bs
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
            ov = B.disj(X.lt(r, INT(lo)), X.lt(INT(hi), r))
            return tup(r, BOOL(ov))
        return self.wrap(st, r, *bs)

    def num(self, v):
        """integers only (a bool/char cast or transparent wrapper stays an int)"""
        return v

    def shift(self, op, a, b, bs=None):
        def f(x, y):
            if y.op == "int":
                k = 1 << y.args[0]
                if op == "Shr" and y.args[0] == 64 and bs == (128, False) and x.op != "int":
                    return X.limb(x, 1)
                return X.scale(x, k) if op == "Shl" else X.div(x, INT(k))
            p = mk("pow", INT(2), y)
            return X.mul(x, p) if op == "Shl" else X.div(x, p)
        return lift(f, a, b)

    def bitand(self, a, b, bs):
        def f(x, y):
            if x.op == "int" and y.op == "int":
                return INT(x.args[0] & y.args[0])
            if y.op != "int":
                x, y = y, x
            if y.op == "int":
                m = y.args[0]
                if m == 0:
                    return ZERO
                if m == (1 << 64) - 1 and bs == (128, False):
                    return X.limb(x, 0)
                if m > 0 and (m & (m + 1)) == 0:
                    return X.mod(x, INT(m + 1))
            r = mk("bitand", x, y)
            X.RNG[r] = (0, None)
            return r
        return lift(f, a, b)

    def _bitor(self, op, x, y, bs):
        if x.op == "int" and y.op == "int":
            return INT(x.args[0] | y.args[0] if op == "BitOr" else x.args[0] ^ y.args[0])
        if x is ZERO:
            return y
        if y is ZERO:
            return x
        # disjoint bit ranges: low part < 2^k, other multiple of 2^k
        for p, q in ((x, y), (y, x)):
            lo, hi = X.rng(p)
            if lo is not None and lo >= 0 and hi is not None:
                k = 1 << hi.bit_length()
                if all(c % k == 0 for c in X.pd(q).values()):
                    return X.add(p, q)
        r = mk("bit" + op, x, y)
        if bs:
            X.RNG[r] = (0, (1 << bs[0]) - 1)
        return r

    def ordering(self, less, equal):
        l, e, g = mk("agg", ORD, 0), mk("agg", ORD, 1), mk("agg", ORD, 2)
        return mkgamma([(less, l), (B.conj(B.neg(less), equal), e), (B.conj(B.neg(less), B.neg(equal)), g)])

    def cast(self, st, kind, v, src, dst):
        ks, kd = self.T[src]["k"] if src is not None else None, self.T[dst]["k"]
        if kind in ("IntToInt",):
            bd = self.bits(dst)

            def f(x, g=B.T):
                if x.op == "bool":
                    n = x.args[0]
                    return mkgamma([(n, ONE), (B.neg(n), ZERO)])
                if x.op == "agg":      # fieldless enum
                    return INT(self.prog.discr.get((x.args[0], x.args[1]), x.args[1]))
                if x.op in ("mref", "opq", "fn"):
                    return X.opaque("addr", x)
                if bd is None:
                    return x
                lo, hi = X.rng(x)
                mx = (1 << bd[0]) - 1 if not bd[1] else (1 << (bd[0] - 1)) - 1
                mn = 0 if not bd[1] else -(1 << (bd[0] - 1))
                if lo is not None and hi is not None and lo >= mn and hi <= mx:
                    return x
                bs = self.bits(src) if src is not None else None
                r = self.wrap(st if g == B.T else State(B.conj(st.guard, g)), x, *bd, nonneg=bs is not None and not bs[1])
                if r is not x:
                    self.note("narrow", "%s -> %s" % (self.ts(src) if src is not None else "?", self.ts(dst)))
                return r
            if v.op == "gamma":
                return X.mkgamma([(g, f(x, g)) for g, x in v.args[0]])
            return f(v)
        return v

    def rvalue(self, st, fr, rv, body, dty=None):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k in ("ref", "reborrow"):
            if rv[1] == "shared":
                v = self.read(st, fr, rv[2])
                v = self.deref(st, v) if v.op in ("mref", "gamma") else v
                return v
            return self.mkref(st, fr, rv[2])
        if k == "rawptr":
            return self.mkref(st, fr, rv[1])
        if k == "bin":
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            return self.binop(st, rv[1], self.deref(st, a), self.deref(st, b), self.opty(body, rv[2]), dty)
        if k == "un":
            a = self.operand(st, fr, rv[2])
            op = rv[1]
            if op == "Not":
                if a.op == "bool" or (a.op == "gamma" and a.args[0][0][1].op == "bool"):
                    return BOOL(B.neg(X.asnode(a)))
                bs = self.bits(self.opty(body, rv[2])) or (64, False)
                return X.sub(INT((1 << bs[0]) - 1), a) if not bs[1] else X.sub(INT(-1), a)
            if op == "Neg":
                return X.sub(ZERO, a)
            if op in ("PtrMetadata", "Len"):
                return X.mklen(self.deref(st, a))
            raise AnalysisError("unop " + op)
        if k == "cast":
            v = self.operand(st, fr, rv[2])
            return self.cast(st, rv[1], v, self.opty(body, rv[2]), rv[3])
        if k == "discr":
            v = self.deref(st, self.read(st, fr, rv[1]))
            return self.discriminant(v)
        if k == "len":
            return X.mklen(self.deref(st, self.read(st, fr, rv[1])))
        if k == "repeat":
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            n = int(n["v"]) if isinstance(n, dict) else int(n)
            if dty is not None and self.T[dty]["k"] == "array" and n == 4 and False:
                return v
            return lst([v] * n)
        if k == "agg":
            d = rv[1]
            vs = [self.operand(st, fr, o) for o in rv[2]]
            if d[0] == "array":
                return lst(vs)
            if d[0] == "tuple":
                return tup(*vs)
            if d[0] == "adt":
                ty = self.T[d[1]]
                p = ty["path"]
                if p in TRANSPARENT and vs:
                    v = vs[0]
                    if p in INTTYPES and v.op == "list":
                        r = ZERO
                        for i, l in enumerate(v.args[0]):
                            r = X.add(r, X.scale(l, 1 << (64 * i)))
                        self.recovered(r)
                        return self.delimb(st, r)
                    return v
                if len(d) > 3 and d[3] is not None:      # union
                    return vs[0]
                return mk("agg", p, d[2], *vs)
            if d[0] == "closure":
                ty = self.T[d[1]]
                return mk("agg", "closure:" + ty["body"], 0, *vs)
            if d[0] == "rawptr":
                return vs[0]
        if k == "opaque":
            return mk("opq", "rv", json.dumps(rv)[:80])
        raise AnalysisError("rvalue " + json.dumps(rv)[:120])

    def mkref(self, st, fr, place):
        ts = self.resolve(st, fr, place)
        return mkgamma([(g, mk("mref", c, p)) for g, c, p in ts])

    def discriminant(self, v):
        def f(x):
            if x.op == "agg":
                return INT(self.prog.discr.get((x.args[0], x.args[1]), x.args[1]))
            if x is UNDEF:
                return UNDEF
            r = mk("discr", x)
            X.RNG[r] = (0, 255)
            return r
        return lift(f, v)

    def opty(self, body, o):
        if o[0] in "cm":
            return self.placety(body, o[1])
        if o[0] == "k":
            return o[1].get("t")
        return None

    def placety(self, body, p):
        t = body.locals[p[0]]
        vi = 0
        for e in p[1]:
            ty = self.T[t]
            if e[0] == "*":
                t = ty.get("to", t) if ty["k"] in ("ref", "ptr") else (ty["args"][0] if ty.get("args") else t)
            elif e[0] == "f":
                t = e[2] if len(e) > 2 else t
            elif e[0] in ("i", "c"):
                t = ty.get("elem", t)
        return t

    def delimb(self, st, v):
        """v with recombined machine words turned back into the integer they came from"""
        if not limby(v):
            return v
        if v.op == "gamma" and all(x.op == "bool" for _, x in v.args[0]):
            w = X.BOOL(word_tests(B.disj(*[B.conj(h, x.args[0]) for h, x in v.args[0]]), st.guard))
            return w if not limby(w) else v
        out, gs, cov = [], [], B.F
        for h, x in alts(v):
            g = B.conj(st.guard, h)
            cov = B.disj(cov, h)
            if g == B.F:
                continue
            x, g2 = self.delimb1(x, g)
            self.recovered(x)
            out.append((h, x))
            gs.append(g2)
        st.guard = B.disj(B.conj(st.guard, B.neg(cov)), *gs)
        return mkgamma(out)

    def delimb1(self, v, g):
        zero = set()
        for l, pol in B.essential(g).items():
            a = B.atom(l)
            if a.op == "lt" and pol and a.args[0].op == "limb" and a.args[1] == 1:
                zero.add(a.args[0])
        tested = set(zero)
        # words above the bound the path gives
        have = {}
        for x in atoms_of_limbs(v):
            have.setdefault(x.args[0], set()).add(x.args[1].args[0])
        for x, ns in have.items():
            top = [l for l in (X.limb(x, n) for n in range(4) if n not in ns) if l is not ZERO and l not in zero]
            if top and max(ns) < 3 and all(l.args[1].args[0] > max(ns) for l in top):
                if X.decide(X.lt(x, INT(1 << (64 * (max(ns) + 1)))), g) == B.T:
                    zero.update(top)

        # a lone upper word of a number that fits below it
        dead = {l for x, ns in have.items() if 0 not in ns and X.decide(X.lt(x, INT(1 << (64 * min(ns)))), g) == B.T
                for l in (X.limb(x, n) for n in ns)}

        def f(x):
            if x.op == "agg":
                return mk("agg", x.args[0], x.args[1], *[X.lift(f, y) for y in x.args[2:]])
            if x.op == "bool":
                return X.BOOL(word_tests(x.args[0], g))
            if x.op != "poly":
                return ZERO if x in dead else x
            d = X.pd(x)
            if dead:
                d = {m: c for m, c in d.items() if not any(a in dead for a in m)}
            return X.frompd(X.delimb(d, zero))
        v = f(v)
        # words known to be zero: the integer is that small
        for x in dict.fromkeys(z.args[0] for z in tested):
            k = 4
            while k > 0 and (X.limb(x, k - 1) is ZERO or X.limb(x, k - 1) in tested):
                k -= 1
            if k < 4:
                for i in range(k, 4):
                    l = X.limb(x, i)
                    if l is not ZERO:
                        g = B.cof(g, B._index[mk("lt", l, 1)], 1)
                g = B.conj(g, X.lt(x, INT(1 << (64 * k))))
        return v, g

    # ---- running
    def run_body(self, key, args, st):
        body = self.prog.body(key)
        self.visited.add(key)
        if self.depth > 120:
            raise AnalysisError("call depth exceeded at " + key)
        self.nframe += 1
        fr = self.nframe
        self.depth += 1
        self.where.append((key, body.d.get("file"), body.d.get("line")))
        try:
            sp = body.d.get("spread")
            if sp:
                # closure-style ABI: the last argument is a tuple that is spread
                pass
            for i, a in enumerate(args):
                st.env[(fr, i + 1)] = a
            rets = []
            s0 = State(st.guard, st.env, st.store)
            self.region(body, fr, 0, None, s0, False, rets)
            if not rets:
                st.guard = B.F
                return UNDEF
            r = self.merge(rets)
            v = r.env.get((fr, 0), UNIT)
            for k in [k for k in r.env if k[0] == fr]:
                del r.env[k]
            st.guard, st.env, st.store = r.guard, r.env, r.store
            v = self.delimb(st, v)
            return v
        finally:
            self.where.pop()
            self.depth -= 1

    def region(self, body, fr, hdr, blocks, st0, is_loop, rets):
        pending = {hdr: [st0]}
        exits, backs = {}, []

        def send(s, st):
            if st.guard == B.F:
                return
            if is_loop and s == hdr:
                backs.append(st)
            elif blocks is None or s in blocks:
                pending.setdefault(s, []).append(st)
            else:
                exits.setdefault(s, []).append(st)
        start = body.pos[hdr]
        for b in body.rpo[start:]:
            if b not in pending:
                continue
            if blocks is not None and b not in blocks:
                continue
            st = self.merge(pending.pop(b), fr, body.live[b])
            if b in body.loops and not (is_loop and b == hdr):
                for s, l in self.loop(body, fr, b, st, rets).items():
                    for x in l:
                        send(s, x)
                continue
            self.block(body, fr, b, st, send, rets)
        return exits, backs

    def loop(self, body, fr, h, st, rets):
        allx = {}
        cur = st
        for i in range(self.unroll):
            exits, backs = self.region(body, fr, h, body.loops[h], cur, True, rets)
            for s, l in exits.items():
                allx.setdefault(s, []).extend(l)
            backs = [x for x in backs if X.feasible(x.guard)]
            if not backs:
                return allx
            cur = self.merge(backs, fr, body.live[h])
        raise AnalysisError("loop at %s:%s not bounded by the analysed input shapes" % (
            body.d.get("file"), body.blocks[h].get("l")))

    def block(self, body, fr, b, st, send, rets):
        bl = body.blocks[b]
        for s in bl["s"]:
            self.steps += 1
            if s[0] == "=":
                dty = self.placety(body, s[1])
                v = self.rvalue(st, fr, s[2], body, dty)
                self.write(st, fr, s[1], v)
            elif s[0] == "setd":
                self.setd(st, fr, s[1], s[2], body)
            elif s[0] == "copynonoverlapping":
                raise AnalysisError("copy_nonoverlapping")
        t = bl["t"]
        k = t[0]
        self.where[-1] = (body.key, t_file(body, bl), bl.get("l"))
        if k == "goto":
            send(t[1], st)
        elif k == "return":
            rets.append(st)
        elif k == "switch":
            self.switch(st, fr, t, send, body)
        elif k == "call":
            self.callterm(st, fr, t, send, body, bl)
        elif k == "assert":
            c = X.asnode(self.operand(st, fr, t[1]))
            if not t[2]:
                c = B.neg(c)
            c = X.decide(c, st.guard)
            if c != B.T:
                self.revert(st, B.neg(c), t[3] if isinstance(t[3], str) else t[3][0], "assert")
            send(t[4], st)
        elif k in ("unreachable", "unwind"):
            pass
        else:
            raise AnalysisError("terminator " + k)

    def setd(self, st, fr, place, vi, body):
        v = self.read(st, fr, place)
        if v.op == "agg":
            t = self.T[self.placety(body, place)]
            self.write(st, fr, place, mk("agg", t.get("path", v.args[0]), vi, *v.args[2:]))
        else:
            t = self.T[self.placety(body, place)]
            self.write(st, fr, place, mk("agg", t.get("path", "?"), vi))

    def switch(self, st, fr, t, send, body):
        v = self.deref(st, self.operand(st, fr, t[1]))
        tt = self.opty(body, t[1])
        bs = self.bits(tt) if tt is not None else None
        rest = st.guard
        arms = []
        isb = v.op == "bool" or (v.op == "gamma" and v.args[0][0][1].op == "bool")
        if v is UNDEF:
            raise AnalysisError("switch on undefined value")
        for val, tgt in t[2]:
            n = int(val)
            if isb:
                c = X.asnode(v)
                c = B.neg(c) if n == 0 else c
            else:
                if bs and bs[1] and n >> (bs[0] - 1):
                    n -= 1 << bs[0]
                c = X.inteq(v, INT(n))
            g = B.conj(rest, c)
            if g != B.F:
                d = X.decide(c, rest)
                if d == B.F:
                    g = B.F
                elif d == B.T:
                    g = rest
            if g != B.F:
                arms.append((g, tgt))
                rest = B.conj(rest, B.neg(c)) if g != rest else B.F
            if rest == B.F:
                break
        if rest != B.F and t[3] is not None and body.blocks[t[3]]["t"][0] != "unreachable":
            arms.append((rest, t[3]))
        bytgt = {}
        for g, tgt in arms:
            bytgt[tgt] = B.disj(bytgt.get(tgt, B.F), g)
        items = list(bytgt.items())
        for i, (tgt, g) in enumerate(items):
            s = st if i == len(items) - 1 else st.copy()
            s.guard = g
            send(tgt, s)

    def callterm(self, st, fr, t, send, body, bl):
        args = [self.operand(st, fr, o) for o in t[2]]
        self.where[-1] = (body.key, t[5] if len(t) > 5 else None, t[6] if len(t) > 6 else None)
        argtys = t[7] if len(t) > 7 else []
        dty = t[8] if len(t) > 8 else None
        if t[1][0] == "k" and t[1][1].get("fn"):
            rec = t[1][1]["fn"]
            v = self.call(rec, args, st, argtys, dty)
        else:
            f = self.operand(st, fr, t[1])
            v = self.call_value(f, args, st, dty)
        if st.guard == B.F or t[4] is None:
            return
        self.write(st, fr, t[3], v)
        send(t[4], st)

    def call_value(self, f, args, st, dty=None):
        """call a function value (closure or fn item) with already untupled arguments"""
        return self.per_alt(f, st, lambda x, s: self._call_value(x, args, s, dty))

    def per_alt(self, v, st, fn):
        """apply an effectful function per gamma alternative of v, joining the states"""
        v = self.deref(st, v)
        if v.op != "gamma":
            return fn(v, st)
        outs = []
        for g, x in v.args[0]:
            s = st.copy()
            s.guard = B.conj(st.guard, g)
            if s.guard == B.F or not X.feasible(s.guard):
                continue
            r = fn(x, s)
            if s.guard != B.F:
                outs.append((r, s))
        return self.join_into(outs, st)

    def join_into(self, outs, st):
        if not outs:
            st.guard = B.F
            return UNDEF
        gs = [s.guard for _, s in outs]
        r = mkgamma([(s.guard, v) for v, s in outs], B.disj(*gs))
        m = self.merge([s for _, s in outs])
        st.guard, st.env, st.store = m.guard, m.env, m.store
        return r

    def _call_value(self, f, args, st, dty):
        if f.op == "agg" and f.args[0].startswith("closure:"):
            return self.run_body(f.args[0][8:], [f] + list(args), st)
        if f.op == "fn":
            rec = FN[f.args[0]]
            return self.call(rec, list(args), st, None, dty)
        raise AnalysisError("call of unknown function value " + X.show(f)[:200])

    def call(self, rec, args, st, argtys=None, dty=None):
        self.calls += 1
        path, rpath = rec["path"], rec.get("rpath") or rec["path"]
        kind = rec["kind"]
        m = self.models.lookup(path, rpath, rec)
        if m is not None:
            c = Call(self, rec, args, st, argtys, dty)
            r = m(c)
            if r is not NotImplemented:
                return r
        if rec.get("trait") in ("core::ops::function::FnOnce", "core::ops::function::FnMut",
                                "core::ops::function::Fn") and path.startswith("core::ops::function::Fn"):
            f = args[0]
            tupv = args[1]
            n = len(tupv.args) - 2 if tupv.op == "agg" else None
            if n is None:
                al = alts(tupv)
                n = len(al[0][1].args) - 2
                xs = [proj(tupv, ["f", i]) for i in range(n)]
            else:
                xs = list(tupv.args[2:])
            if kind == "closure" and rec.get("key"):
                return self.run_body(rec["key"], [f] + xs, st)
            if kind == "closure_once" and rec.get("key"):
                return self.run_body(rec["key"], [f] + xs, st)
            return self.call_value(f, xs, st, dty)
        if kind == "ctor":
            return self.ctor(rec, args)
        if kind == "virtual" and rec.get("impls"):
            keys = dict(map(tuple, rec["impls"]))
            if len(keys) == len(rec["impls"]):      # one implementation per type
                def send(x, s):
                    k = keys.get(x.args[0]) if x.op == "agg" else None
                    if k is None:
                        return self.models.default(Call(self, rec, args, s, argtys, dty))
                    return self.run_body(k, [args[0] if args[0].op == "mref" else x] + list(args[1:]), s)
                return self.per_alt(args[0], st, send)
        if rec.get("key"):
            return self.run_body(rec["key"], args, st)
        return self.models.default(Call(self, rec, args, st, argtys, dty))

    def ctor(self, rec, args):
        p = rec["path"]
        base, _, last = p.rpartition("::")
        for cand, vn in ((base, last), (p, None)):
            st = X.STRUCT.get(strip_generics(cand))
            if st:
                for vi, (nm, fl) in st.items():
                    if vn is None or nm == vn:
                        cp = strip_generics(cand)
                        if cp in TRANSPARENT:
                            return args[0]
                        return mk("agg", cp, vi, *args)
        if p in TRANSPARENT:
            return args[0]
        raise AnalysisError("constructor " + p)

    # ---- symbolic values by type
    def fresh(self, t, base):
        """value of type t whose unknown parts are sub-terms of base"""
        if base.op == "gamma":
            return mkgamma([(g, self.fresh(t, b)) for g, b in base.args[0]])
        ty = self.T[t]
        k = ty["k"]
        if self.shape is not None and k == "adt":
            c = self.shape(base, ty)
            if c is not None:
                return self.shaped(ty, base, c)
        if k == "bool":
            return BOOL(B.var(mk("holds", base)))
        if k == "int":
            b, s = ty["bits"], ty["signed"]
            X.RNG.setdefault(base, (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1))
            return base
        if k in ("ref", "ptr"):
            return self.fresh(ty["to"], base)
        if k == "tuple":
            return tup(*[self.fresh(e, mk("fld", base, str(i))) for i, e in enumerate(ty["elems"])])
        if k == "array":
            n = int(ty["len"])
            return lst([self.fresh(ty["elem"], mk("fld", base, "%d" % i)) for i in range(n)])
        if k == "adt":
            p = ty["path"]
            if p in INTTYPES:
                X.RNG.setdefault(base, (0, (1 << INTTYPES[p]) - 1))
                return base
            if p in TEXTTYPES:
                return base
            if p == "alloc::boxed::Box":
                return self.fresh(ty["args"][0], base)
            if p == "alloc::vec::Vec":
                et = ty["args"][0]
                if self.T[et]["k"] == "int" and self.T[et]["bits"] == 8:
                    return base
                n = mk("len", base)
                X.RNG[n] = (0, self.vec_bound)
                items = [self.fresh(et, mk("fld", base, "%d" % i)) for i in range(self.vec_bound)]
                return mkgamma([(X.inteq(n, INT(i)), lst(items[:i])) for i in range(self.vec_bound + 1)])
            if p in TRANSPARENT:
                return self.fresh(ty["variants"][0][2][0][1], base)
            vs = ty.get("variants")
            if not vs:
                return base
            if ty.get("adt") == "enum":
                out = []
                rem = B.T
                for vi, (nm, dv, fl) in enumerate(vs):
                    c = B.var(mk("is", base, nm)) if vi < len(vs) - 1 else B.T
                    fs = [self.fresh(ft, mk("fld", base, nm + ("." + fn if fn != "0" else ""))) for fn, ft in fl]
                    out.append((B.conj(rem, c), mk("agg", p, vi, *fs)))
                    rem = B.conj(rem, B.neg(c))
                return mkgamma(out)
            fs = [self.fresh(ft, mk("fld", base, fn)) for fn, ft in vs[0][2]]
            return mk("agg", p, 0, *fs)
        return base

    def shaped(self, ty, base, c):
        """a fresh value whose enum variant or list length the scenario fixes"""
        if isinstance(c, T):
            return c
        if ty["path"] == "alloc::vec::Vec":
            return lst([self.fresh(ty["args"][0], mk("fld", base, "%d" % i)) for i in range(c)])
        for vi, (nm, dv, fl) in enumerate(ty.get("variants") or []):
            if nm == c:
                return mk("agg", ty["path"], vi,
                          *[self.fresh(ft, mk("fld", base, nm + ("." + fn if fn != "0" else ""))) for fn, ft in fl])
        raise AnalysisError("%s has no variant %s" % (ty["path"], c))

    def variant(self, t, vname, **fields):
        """build an enum/struct value of type t by field names; unspecified fields are fresh"""
        if isinstance(t, str):
            t = self.prog.adt(t)
        ty = self.T[t]
        for vi, (nm, dv, fl) in enumerate(ty["variants"]):
            if ty["adt"] == "struct" or nm == vname:
                fs = []
                used = set()
                for fn, ft in fl:
                    if fn in fields:
                        fs.append(fields[fn])
                        used.add(fn)
                    else:
                        fs.append(self.fresh(ft, X.mk("sym", "%s.%s" % (vname or ty["path"].split("::")[-1], fn))))
                if set(fields) - used:
                    raise AnalysisError("%s::%s has no field %s" % (ty["path"], nm, set(fields) - used))
                if ty["path"] in TRANSPARENT:
                    return fs[0]
                return mk("agg", ty["path"], vi, *fs)
        raise AnalysisError("%s has no variant %s" % (ty["path"], vname))


def atoms_of_limbs(v):
    if v.op == "agg":
        for x in v.args[2:]:
            for _, y in alts(x):
                yield from atoms_of_limbs(y)
    elif v.op == "poly":
        for m in X.pd(v):
            if len(m) == 1 and m[0].op == "limb":
                yield m[0]


def word_tests(b, guard):
    """a condition with tests that all upper words of a wide integer are zero turned into a comparison of that integer"""
    xs = {}
    for l in B.support(b):
        a = B.atom(l)
        if a.op == "lt" and a.args[1] == 1 and a.args[0].op == "limb":
            xs.setdefault(a.args[0].args[0], {})[a.args[0].args[1].args[0]] = l
    for x, ls in xs.items():
        k = min(ls)
        top = max(ls) + 1
        if k == 3 or any(n not in ls for n in range(k, top)):
            continue
        if any(X.limb(x, n) is not ZERO for n in range(top, 4)) and X.decide(X.lt(x, INT(1 << (64 * top))), guard) != B.T:
            continue
        all1, rest = b, []
        for n in sorted(ls):
            rest.append(B.cof(all1, ls[n], 0))
            all1 = B.cof(all1, ls[n], 1)
        # the words matter only through "all of them are zero"
        if any(r != rest[-1] for r in rest):
            continue
        b = B.ite(X.lt(x, INT(1 << (64 * k))), all1, rest[-1])
    return b


def limby(v):
    """a value put together from the machine words of a wide integer"""
    if v.op == "gamma":
        return any(limby(x) or x.op == "bool" and limby(X.BOOL(h)) for h, x in v.args[0])
    if v.op == "agg":
        return any(limby(x) for x in v.args[2:])
    if v.op == "bool":
        return any(B.atom(l).op == "lt" and B.atom(l).args[0].op == "limb" for l in B.support(v.args[0]))
    return v.op == "poly" and any(len(m) == 1 and m[0].op == "limb" for m, c in X.pd(v).items())


def t_file(body, bl):
    return bl.get("f") or body.d.get("file")


def strip_generics(p):
    out, d = [], 0
    i = 0
    while i < len(p):
        if p.startswith("::<", i):
            i += 3
            d += 1
            continue
        ch = p[i]
        if ch == "<" and d:
            d += 1
        elif ch == ">" and d:
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    return "".join(out)


class Call:
    """one call site handed to a model"""
    __slots__ = ("I", "rec", "args", "st", "argtys", "dty")

    def __init__(self, I, rec, args, st, argtys, dty):
        self.I, self.rec, self.args, self.st, self.argtys, self.dty = I, rec, args, st, argtys, dty

    def arg(self, i):
        """argument value, reading through mutable references"""
        return self.I.deref(self.st, self.args[i])

    def set(self, i, v):
        self.I.write_ref(self.st, self.args[i], v)

    @property
    def targs(self):
        return self.rec.get("targs") or []

    @property
    def rargs(self):
        return self.rec.get("rargs") or []

    def revert(self, cond, kind, text=""):
        self.I.revert(self.st, cond, kind, text)

    def fail(self, op, *args):
        return self.I.failnode(self.st, op, *args)
