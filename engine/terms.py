"""Hash-consed values of the gated value-flow analysis and their canonical forms.

Integers are canonical polynomials with integer coefficients over atoms; floor division is an atom with
normalised numerator/denominator.  Conditions are BDDs over canonical atoms (see bdd.py).  A `gamma` is a value
that depends on conditions (gated SSA phi).
"""
from math import gcd, isqrt
import bdd as B


class T:
    __slots__ = ("op", "args", "id", "dep")

    def __repr__(self):
        return show(self)


_tab = {}
_all = []
RNG = {}            # leaf atom -> (lo, hi)
STRUCT = {}         # adt path -> {variant idx: (variant name, [field names])}


def mk(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = len(_all)
        _tab[k] = t
        _all.append(t)
        t.dep = None
    return t


def INT(n):
    return mk("int", int(n))


ZERO, ONE = INT(0), INT(1)
UNIT = mk("agg", "()", 0)
UNDEF = mk("undef")


def STR(s):
    if isinstance(s, bytes):
        try:
            s = s.decode("utf-8")
        except UnicodeDecodeError:
            return mk("bytes", s.hex())
    return mk("str", s)


def BOOL(node):
    return mk("bool", node)


TRUE, FALSE = BOOL(B.T), BOOL(B.F)


def sym(name, lo=None, hi=None):
    t = mk("sym", name)
    if hi is not None or lo is not None:
        RNG[t] = (lo, hi)
    return t


NORMALIZED = set()      # string atoms that are addresses in normal form (info.sender, env.contract.address)

# ------------------------------------------------------------------------------------------------ polynomials


def pd(t):
    """dict mono->coef for an int-valued, gamma-free term"""
    if t.op == "int":
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "poly":
        return dict(t.args[0])
    return {(t,): 1}


def mono_key(m):
    return (len(m), tuple(a.id for a in m))


def frompd(d):
    items = [(m, c) for m, c in d.items() if c]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return INT(c)
        if c == 1 and len(m) == 1:
            return m[0]
    items.sort(key=lambda mc: mono_key(mc[0]))
    return mk("poly", tuple(items))


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + k * c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def mmul(a, b):
    return tuple(sorted(a + b, key=lambda t: t.id))


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            n = r.get(m, 0) + c1 * c2
            if n:
                r[m] = n
            else:
                r.pop(m, None)
    return r


def mdiv(m, t):
    """m / t for monomials, or None"""
    r = list(m)
    for a in t:
        if a in r:
            r.remove(a)
        else:
            return None
    return tuple(r)


def mgcd(ms):
    ms = list(ms)
    if not ms:
        return ()
    g = list(ms[0])
    for m in ms[1:]:
        m = list(m)
        ng = []
        for a in g:
            if a in m:
                m.remove(a)
                ng.append(a)
        g = ng
        if not g:
            break
    return tuple(g)


# ------------------------------------------------------------------------------------------------ ranges

class Facts:
    __slots__ = ("guard", "lo", "hi", "plo", "phi", "sub", "infeasible", "memo", "mul")

    def __init__(self):
        self.guard = B.T
        self.plo = {}
        self.phi = {}
        self.sub = {}
        self.infeasible = False
        self.memo = {}
        self.mul = set()


CUR = None
NB = 1 << 62


def _m(a, b):
    return None if a is None or b is None else a * b


def arange(a):
    """interval of an atom"""
    lo, hi = _arange0(a)
    if CUR is not None:
        if a in CUR.plo and (lo is None or CUR.plo[a] > lo):
            lo = CUR.plo[a]
        if a in CUR.phi and (hi is None or CUR.phi[a] < hi):
            hi = CUR.phi[a]
    return lo, hi


def _arange0(a):
    r = RNG.get(a)
    if r is not None:
        return r
    op = a.op
    if op == "int":
        return a.args[0], a.args[0]
    if op == "div":
        nlo, nhi = prange(pd(a.args[0]))
        dlo, dhi = prange(pd(a.args[1]))
        if dlo is None or dlo < 1:
            dlo = 1
        if dhi is not None and dhi < dlo:
            dhi = dlo
        if nlo is None:
            lo = None
        elif nlo >= 0:
            lo = 0 if dhi is None else nlo // dhi
        else:
            lo = nlo // dlo
        if nhi is None:
            hi = None
        elif nhi >= 0:
            hi = nhi // dlo
        else:
            hi = -1 if dhi is None else nhi // dhi
        return lo, hi
    if op == "isqrt":
        lo, hi = prange(pd(a.args[0]))
        return (isqrt(lo) if lo is not None and lo > 0 else 0), (None if hi is None or hi < 0 else isqrt(hi))
    if op in ("len", "idx", "mlen", "first", "minlen"):
        return 0, NB
    if op == "limb":
        return 0, (1 << 64) - 1
    if op == "pow":
        blo, bhi = prange(pd(a.args[0]))
        elo, ehi = prange(pd(a.args[1]))
        if blo is not None and bhi is not None and blo >= 1 and ehi is not None and ehi < 400:
            return blo ** max(elo or 0, 0), bhi ** ehi
        return 0, None
    return None, None


def prange(d):
    lo = hi = 0
    for m, c in d.items():
        l, h = 1, 1
        if len(m) == 2 and m[0] is m[1]:
            a, b = arange(m[0])
            if a is not None and a >= 0:
                l, h = a * a, _m(b, b)
            else:
                l, h = 0, (None if a is None or b is None else max(a * a, b * b))
        else:
            for a in m:
                l2, h2 = arange(a)
                if l is not None and l >= 0 and l2 is not None and l2 >= 0:
                    l, h = l * l2, _m(h, h2)
                elif None in (l, h, l2, h2):
                    l = h = None
                else:
                    c4 = [l * l2, l * h2, h * l2, h * h2]
                    l, h = min(c4), max(c4)
        if c < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + c * l
        hi = None if hi is None or h is None else hi + c * h
    if CUR is not None and len(d) > 1 or (CUR is not None and d and () not in d):
        # known bounds on the same polynomial (up to a constant)
        c0 = d.get((), 0)
        nd = {m: c for m, c in d.items() if m != ()}
        if nd:
            g = 0
            for c in nd.values():
                g = gcd(g, abs(c))
            lead = nd[max(nd, key=mono_key)]
            s = g if lead > 0 else -g
            key = frompd({m: c // s for m, c in nd.items()})
            bl, bh = CUR.plo.get(key), CUR.phi.get(key)
            if s < 0:
                bl, bh = bh, bl
            if bl is not None and (lo is None or s * bl + c0 > lo):
                lo = s * bl + c0
            if bh is not None and (hi is None or s * bh + c0 < hi):
                hi = s * bh + c0
        if LIN and len(nd) > 1:
            lo, hi = combine(d, nd, lo, hi)
    if len(d) > 1:
        for m, c in d.items():
            if c < -1 and len(m) == 1 and m[0].op == "div":
                r = modrange(d, m, c)
                if r:
                    lo = r[0] if lo is None or r[0] > lo else lo
                    hi = r[1] if hi is None or r[1] < hi else hi
                    break
    return lo, hi


LIN = 0


def combine(d, nd, lo, hi):
    """tighten the interval of d with a known bound on another polynomial: d = s*key + rest"""
    global LIN
    LIN -= 1
    try:
        for key in list(dict.fromkeys(list(CUR.plo) + list(CUR.phi))):
            kd = pd(key)
            if len(kd) < 2:
                continue
            if key in CUR.mul:
                lo, hi = combine_mul(d, nd, lo, hi, key, kd)
            lead = max(kd, key=mono_key)
            ss = {nd[m] // c for m, c in kd.items() if m in nd and nd[m] % c == 0}
            for s in ss:
                if not s:
                    continue
                rest = padd(d, kd, -s)
                if len(rest) >= len(d) + 1:
                    continue
                bl, bh = CUR.plo.get(key), CUR.phi.get(key)
                if s < 0:
                    bl, bh = bh, bl
                if bl is None and bh is None:
                    continue
                rl, rh = prange(rest)
                if bl is not None and rl is not None and (lo is None or s * bl + rl > lo):
                    lo = s * bl + rl
                if bh is not None and rh is not None and (hi is None or s * bh + rh < hi):
                    hi = s * bh + rh
    finally:
        LIN += 1
    return lo, hi


def combine_mul(d, nd, lo, hi, key, kd):
    """as combine, with the known bound multiplied by a nonnegative factor: d = s*t*key + rest"""
    lead = next(m for m in kd if any(a.op == "div" and a.args[1].op != "int" for a in m))
    for m, k in nd.items():
        t = mdiv(m, lead)
        if not t or k % kd[lead]:
            continue
        s = k // kd[lead]
        tl, th = 1, 1
        for a in t:
            l2, h2 = arange(a)
            if l2 is None or l2 < 0:
                tl = None
                break
            tl, th = tl * l2, _m(th, h2)
        if tl is None:
            continue
        bl, bh = CUR.plo.get(key), CUR.phi.get(key)
        bl = None if bl is None else (bl * tl if bl >= 0 else None if th is None else bl * th)
        bh = None if bh is None else (bh * tl if bh <= 0 else None if th is None else bh * th)
        if s < 0:
            bl, bh = bh, bl
        rest = padd(d, pmul({t: s}, kd), -1)
        rl, rh = prange(rest)
        if bl is not None and rl is not None and (lo is None or s * bl + rl > lo):
            lo = s * bl + rl
        if bh is not None and rh is not None and (hi is None or s * bh + rh < hi):
            hi = s * bh + rh
    return lo, hi


_MODR = {}


def modrange(d, m, c):
    """bounds of A - c*floor(A/c) (+ constant): a remainder"""
    key = (frozenset(d.items()), m)
    if key in _MODR:
        return _MODR[key]
    _MODR[key] = None
    global CUR
    saved, CUR = CUR, None
    A = {k: v for k, v in d.items() if k != m}
    k0 = A.get((), 0)
    r = None
    for off in ((0, k0) if k0 else (0,)):
        a = dict(A)
        if off:
            del a[()]
        if _div(frompd(a), INT(-c)) is m[0]:
            r = (off, off - c - 1)
            break
    CUR = saved
    _MODR[key] = r
    return r


def rng(t):
    if t.op == "gamma":
        los, his = zip(*[rng(v) for g, v in t.args[0]])
        return (None if None in los else min(los)), (None if None in his else max(his))
    return prange(pd(t))


# ------------------------------------------------------------------------------------------------ gamma / lift

def isint(t):
    return t.op in ("int", "poly", "div", "isqrt", "pow", "len", "idx", "mlen", "limb") or t in RNG


def mkgamma(alts, care=None):
    """alts: list of (guard, value), guards mutually exclusive on the care set"""
    flat = []
    for g, v in alts:
        if g == B.F:
            continue
        if v.op == "gamma":
            for g2, v2 in v.args[0]:
                h = B.conj(g, g2)
                if h != B.F:
                    flat.append((h, v2))
        else:
            flat.append((g, v))
    if not flat:
        return UNDEF
    flat2 = [x for x in flat if x[1] is not UNDEF]
    if not flat2:
        return UNDEF
    if len(flat2) < len(flat):
        flat = flat2
    by = {}
    for g, v in flat:
        by[v] = B.disj(by[v], g) if v in by else g
    if len(by) == 1:
        return next(iter(by))
    if all(v.op == "bool" for v in by):
        n = B.F
        for v, g in by.items():
            n = B.disj(n, B.conj(g, v.args[0]))
        if care is not None:
            n = B.restrict(n, care)
        return BOOL(n)
    # sink into same-shaped aggregates
    groups = {}
    order = []
    for v, g in by.items():
        if v.op == "agg":
            k = ("agg", v.args[0], v.args[1], len(v.args))
        elif v.op == "list":
            k = ("list", len(v.args[0]))
        elif v.op == "json":
            k = ("json", v.args[0])
        elif v.op == "bool":
            k = ("bool",)
        else:
            k = v
        if k not in groups:
            groups[k] = []
            order.append(k)
        groups[k].append((g, v))
    out = []
    for k in order:
        vs = groups[k]
        if len(vs) == 1:
            out.append(vs[0])
            continue
        gg = B.disj(*[g for g, _ in vs])
        if k[0] == "agg":
            fs = [mkgamma([(g, v.args[i]) for g, v in vs], gg) for i in range(2, k[3])]
            out.append((gg, mk("agg", k[1], k[2], *fs)))
        elif k[0] == "list":
            fs = tuple(mkgamma([(g, v.args[0][i]) for g, v in vs], gg) for i in range(k[1]))
            out.append((gg, mk("list", fs)))
        elif k[0] == "json":
            out.append((gg, mk("json", k[1], mkgamma([(g, v.args[1]) for g, v in vs], gg))))
        elif k[0] == "bool":
            n = B.disj(*[B.conj(g, v.args[0]) for g, v in vs])
            out.append((gg, BOOL(n)))
        else:
            out.append((gg, vs[0][1]))
    if len(out) == 1:
        return out[0][1]
    if care is not None:
        out = [(B.restrict(g, care), v) for g, v in out]
        out = [(g, v) for g, v in out if g != B.F]
        if len(out) == 1:
            return out[0][1]
    if len(out) <= 4 and all(intish(v) for _, v in out):
        out = collapse_int(out)
        if len(out) == 1:
            return out[0][1]
    out.sort(key=lambda gv: gv[1].id)
    return mk("gamma", tuple(out))


def intish(v):
    return v.op in ("int", "poly", "div", "isqrt", "pow", "len", "mlen", "limb") or v in RNG


def collapse_int(alts):
    """drop an alternative that another alternative equals wherever the first is selected"""
    alts = list(alts)
    changed = True
    while changed and len(alts) > 1:
        changed = False
        for i in range(len(alts)):
            gi, vi = alts[i]
            for j in range(len(alts)):
                if i == j:
                    continue
                gj, vj = alts[j]
                if int_equal_under(vi, vj, gi):
                    alts[j] = (B.disj(gi, gj), vj)
                    del alts[i]
                    changed = True
                    break
            if changed:
                break
    return alts


def int_equal_under(a, b, g):
    """a == b on every cube of g, by substituting the equalities the cube fixes"""
    if a is b:
        return True
    sup = B.support(g)
    lts = [l for l in sup if B.atom(l).op == "lt"]
    if not lts:
        return False
    atoms = mono_atoms(a) | mono_atoms(b)
    rel = [l for l in lts if deep_atoms(B.atom(l)) & atoms]
    if not rel:
        return False
    h = B.exists(g, sup - frozenset(rel))
    cs = B.cubes(h, 24)
    if len(cs) > 24:
        return False
    for c in cs:
        f = facts(B.from_lits(c))
        if f.infeasible:
            continue
        if not f.sub:
            return False
        if norm(a, f) is not norm(b, f):
            return False
    return True


_da = {}


def deep_atoms(t):
    r = _da.get(t)
    if r is None:
        if t.op == "poly":
            r = frozenset().union(*[deep_atoms(a) for m, _ in t.args[0] for a in m])
        elif t.op == "int":
            r = frozenset()
        elif t.op == "lt":
            r = deep_atoms(t.args[0])
        elif t.op in ("div", "isqrt", "pow", "limb"):
            r = frozenset([t]).union(*[deep_atoms(a) for a in t.args])
        else:
            r = frozenset([t])
        _da[t] = r
    return r


def mono_atoms(t):
    return deep_atoms(t)


def alts(t):
    """gamma alternatives of a value"""
    return t.args[0] if t.op == "gamma" else ((B.T, t),)


def lift(f, *args):
    """apply f alternative-wise over gamma arguments"""
    if all(a.op != "gamma" for a in args):
        return f(*args)
    out = []

    def go(i, g, acc):
        if i == len(args):
            out.append((g, f(*acc)))
            return
        for h, v in alts(args[i]):
            gg = B.conj(g, h)
            if gg != B.F:
                go(i + 1, gg, acc + [v])
    go(0, B.T, [])
    return mkgamma(out)


def liftb(f, *args):
    """like lift for predicates returning BDD nodes"""
    if all(a.op != "gamma" for a in args):
        return f(*args)
    r = B.F

    def go(i, g, acc):
        nonlocal r
        if i == len(args):
            r = B.disj(r, B.conj(g, f(*acc)))
            return
        for h, v in alts(args[i]):
            gg = B.conj(g, h)
            if gg != B.F:
                go(i + 1, gg, acc + [v])
    go(0, B.T, [])
    return r


_dg = {}


def hasgamma(t):
    """does t contain a gamma below aggregates/json?"""
    r = _dg.get(t)
    if r is None:
        if t.op == "gamma":
            r = True
        elif t.op in ("agg",):
            r = any(hasgamma(a) for a in t.args[2:])
        elif t.op in ("list", "cat"):
            r = any(hasgamma(a) for a in t.args[0])
        elif t.op == "json":
            r = hasgamma(t.args[1])
        else:
            r = False
        _dg[t] = r
    return r


def expand(t, limit=64):
    """list of (guard, gamma-free value)"""
    if not hasgamma(t):
        return [(B.T, t)]
    if t.op == "gamma":
        r = []
        for g, v in t.args[0]:
            for h, w in expand(v, limit):
                k = B.conj(g, h)
                if k != B.F:
                    r.append((k, w))
        return r
    if t.op == "agg":
        parts, build = t.args[2:], lambda xs: mk("agg", t.args[0], t.args[1], *xs)
    elif t.op == "list":
        parts, build = t.args[0], lambda xs: mk("list", tuple(xs))
    elif t.op == "cat":
        parts, build = t.args[0], lambda xs: mkcat(xs)
    else:
        parts, build = (t.args[1],), lambda xs: mk("json", t.args[0], xs[0])
    acc = [(B.T, [])]
    for p in parts:
        ex = expand(p, limit)
        acc = [(B.conj(g, h), l + [w]) for g, l in acc for h, w in ex if B.conj(g, h) != B.F]
        if len(acc) > limit:
            return [(B.T, t)]
    return [(g, build(l)) for g, l in acc]


def opaque(op, *args):
    """opaque function of its (term) arguments, alternative-wise over gammas anywhere inside them"""
    targs = [a for a in args if isinstance(a, T)]
    if not any(hasgamma(a) for a in targs):
        return mk(op, *args)
    acc = [(B.T, [])]
    for a in args:
        ex = expand(a) if isinstance(a, T) else [(B.T, a)]
        acc = [(B.conj(g, h), l + [w]) for g, l in acc for h, w in ex if B.conj(g, h) != B.F]
    return mkgamma([(g, mk(op, *l)) for g, l in acc])


# ------------------------------------------------------------------------------------------------ arithmetic

def add(a, b):
    return lift(lambda x, y: frompd(padd(pd(x), pd(y))), a, b)


def sub(a, b):
    return lift(lambda x, y: frompd(padd(pd(x), pd(y), -1)), a, b)


def mul(a, b):
    return lift(lambda x, y: frompd(pmul(pd(x), pd(y))), a, b)


def scale(a, k):
    return mul(a, INT(k))


def content(ds):
    """(int gcd, monomial gcd) over all terms of the polynomials"""
    g = 0
    for d in ds:
        for c in d.values():
            g = gcd(g, abs(c))
    mg = mgcd([m for d in ds for m in d])
    return g, mg


def pdivc(d, g, mg):
    return {mdiv(m, mg): c // g for m, c in d.items()}


def mod_reduce(n, d):
    """n = q*d + r, normal form w.r.t. the leading monomial of d"""
    if set(d) == {()}:
        k = d[()]
        q = {m: c // k for m, c in n.items() if c // k}
        r = {m: c % k for m, c in n.items() if c % k}
        return q, r
    lm = max(d, key=mono_key)
    lc = d[lm]
    q, r, work = {}, {}, dict(n)
    steps = 0
    while work:
        steps += 1
        if steps > 500:
            return {}, dict(n)
        m = max(work, key=mono_key)
        c = work.pop(m)
        e = mdiv(m, lm)
        k = c // lc if e is not None else 0
        if lc < 0 and e is not None:
            k = -(c // -lc)
        if k:
            q = padd(q, {e: k})
            work[m] = c
            work = padd(work, {mmul(e, dm): dc for dm, dc in d.items()}, -k)
            rest = work.pop(m, 0)
            if rest:
                r = padd(r, {m: rest})
        else:
            r = padd(r, {m: c})
    return q, r


def div(a, b):
    return lift(_div, a, b)


def _sign_norm(r, d):
    """if r is all-negative try r' = r - q*d all-positive; returns (q, r') or None"""
    if not r or any(c > 0 for c in r.values()) or len(d) < 2:
        return None
    for tmono in sorted(d, key=mono_key):
        tc = d[tmono]
        if tc <= 0 or tmono == ():
            continue
        q = {}
        ok = True
        for m, c in r.items():
            e = mdiv(m, tmono)
            if e is None or c % tc:
                ok = False
                break
            q[e] = c // tc
        if not ok:
            continue
        r2 = padd(r, pmul(q, d), -1)
        if r2 and all(c > 0 for c in r2.values()):
            return q, r2
    return None


def _div(a, b):
    n, d = pd(a), pd(b)
    if not d:
        return mk("div0", a)
    q = {}
    for _ in range(6):
        g, mg = content([n, d])
        if g > 1 or mg:
            n, d = pdivc(n, g, mg), pdivc(d, g, mg)
        q1, n = mod_reduce(n, d)
        q = padd(q, q1)
        if not n:
            return frompd(q)
        lo, hi = prange(n)
        dlo, dhi = prange(d)
        if dlo is None or dlo < 1:
            dlo = 1
        if lo is not None and hi is not None:
            if lo >= 0 and hi < dlo:
                return frompd(q)
            if dhi is not None and dlo == dhi and lo // dlo == hi // dlo:
                return frompd(padd(q, {(): lo // dlo} if lo // dlo else {}))
        if CUR is not None and lo is not None and lo >= 0 and set(d) != {()} and (CUR.plo or CUR.phi):
            h = prange(padd(n, d, -1))[1]
            if h is not None and h < 0:
                return frompd(q)
        sn = _sign_norm(n, d)
        if sn:
            q = padd(q, sn[0])
            n = sn[1]
        else:
            # floor((m-1)/D) = -1 - floor(-m/D)
            if n.get((), 0) == -1 and len(n) > 1 and all(c > 0 for m, c in n.items() if m != ()):
                neg = {m: -c for m, c in n.items() if m != ()}
                sn = _sign_norm(neg, d)
                if sn:
                    inner = padd(sn[0], pd(_div(frompd(sn[1]), frompd(d))))
                    return frompd(padd(padd(q, {(): -1}), inner, -1))
        # nested floor: floor((floor(A/B)+R)/D) = floor((A+R*B)/(B*D))
        nest = [m for m, c in n.items() if len(m) == 1 and m[0].op == "div" and c == 1]
        if nest:
            m = min(nest, key=mono_key)
            A, Bd = m[0].args
            R = {k: c for k, c in n.items() if k != m}
            if not any(m[0] in k for k in R):
                n = padd(pd(A), pmul(R, pd(Bd)))
                d = pmul(d, pd(Bd))
                continue
        g, mg = content([n, d])
        if g == 1 and not mg:
            break
    return frompd(padd(q, {(mk("div", frompd(n), frompd(d)),): 1}))


def mod(a, b):
    return lift(lambda x, y: sub(x, mul(y, _div(x, y))), a, b)


def limb(x, n):
    """n-th 64-bit word of a 256-bit integer"""
    if x.op == "gamma":
        return lift(lambda y: limb(y, n), x)
    if x.op == "int":
        return INT(x.args[0] >> (64 * n) & ((1 << 64) - 1))
    lo, hi = rng(x)
    if hi is not None and (lo is not None and lo >= 0 or lt(x, ZERO) == B.F):
        if hi < 1 << (64 * n):
            return ZERO
        if n == 0 and hi < 1 << 64:
            return x
    return mk("limb", x, INT(n))


def delimb(d, zero):
    """replace word sums that make up a whole 256-bit integer; zero: atoms known to be 0"""
    xs = {}
    for m in d:
        if len(m) == 1 and m[0].op == "limb":
            xs.setdefault(m[0].args[0], {})[m[0].args[1].args[0]] = m
    for x, ls in xs.items():
        m0 = ls.get(0)
        if m0 is None:
            continue
        k = d[m0]
        hi = rng(x)[1]
        ok = True
        for i in range(4):
            l = limb(x, i)
            if l is ZERO or l in zero:
                continue
            if d.get((l,)) != k << (64 * i):
                ok = False
        if ok:
            d = {m: c for m, c in d.items() if m not in ls.values()}
            d = padd(d, pd(x), k)
    return d


def sqrt(a):
    def f(x):
        if x.op == "int" and x.args[0] >= 0:
            return INT(isqrt(x.args[0]))
        return mk("isqrt", x)
    return lift(f, a)


def power(a, e):
    def f(x, y):
        if y.op == "int" and 0 <= y.args[0] <= 64:
            r = ONE
            for _ in range(y.args[0]):
                r = mul(r, x)
            return r
        return mk("pow", x, y)
    return lift(f, a, e)


# ------------------------------------------------------------------------------------------------ conditions

def atomnode(t):
    return B.var(t)


def lt0(d):
    """node for (polynomial d) < 0"""
    for _ in range(40):
        if not d:
            return B.F
        lo, hi = prange(d)
        if hi is not None and hi < 0:
            return B.T
        if lo is not None and lo >= 0:
            return B.F
        c = d.get((), 0)
        nd = {m: k for m, k in d.items() if m != ()}
        # primitive part: g*Q + c < 0  <=>  Q < ceil(-c/g)
        g = 0
        for k in nd.values():
            g = gcd(g, abs(k))
        if g > 1:
            bound = -((c) // g)         # ceil(-c/g)
            d = {m: k // g for m, k in nd.items()}
            if bound:
                d[()] = -bound
            continue
        # common nonnegative factor
        if c in (0, -1):
            mg = mgcd(list(nd))
            if mg and (len(nd) > 1 or len(mg) > 1 or True):
                if len(nd) == 1 and len(next(iter(nd))) == 1:
                    pass
                elif all((arange(a)[0] or 0) >= 0 and arange(a)[0] is not None for a in mg):
                    facs = list(dict.fromkeys(mg))
                    q = {mdiv(m, mg): k for m, k in nd.items()}
                    pos = B.conj(*[B.neg(lt0({(a,): 1, (): -1})) for a in facs])
                    if c == 0:
                        return B.conj(pos, lt0(q))
                    return B.disj(B.neg(pos), lt0(padd(q, {(): -1})))
        # eliminate a floor division that stands alone
        cand = []
        for m, k in nd.items():
            if len(m) == 1 and m[0].op == "div" and abs(k) == 1:
                if not any(m[0] in m2 for m2 in nd if m2 != m):
                    cand.append(m)
        if cand:
            m = max(cand, key=lambda x: (weight(x[0]), x[0].id))
            A, D = pd(m[0].args[0]), pd(m[0].args[1])
            R = {k2: c2 for k2, c2 in d.items() if k2 != m}
            if nd[m] == 1:
                d = padd(A, pmul(R, D))
                continue
            return B.neg(lt0(padd(A, pmul(padd(R, {(): 1}), D), -1)))
        lead = nd[max(nd, key=mono_key)]
        if lead < 0:
            return B.neg(lt0(padd({m: -k for m, k in d.items()}, {(): -1})))
        return atomnode(mk("lt", frompd(nd), -c))
    raise RuntimeError("lt0 did not normalise")


_w = {}


def weight(t):
    r = _w.get(t)
    if r is None:
        if t.op == "poly":
            r = sum(weight(a) for m, _ in t.args[0] for a in m) + 1
        elif t.op in ("div", "isqrt", "pow"):
            r = 1 + sum(weight(a) for a in t.args)
        else:
            r = 1
        _w[t] = r
    return r


def lt(a, b):
    return liftb(lambda x, y: lt0(padd(pd(x), pd(y), -1)), a, b)


def le(a, b):
    return B.neg(lt(b, a))


def inteq(a, b):
    def f(x, y):
        if x is y:
            return B.T
        d = padd(pd(x), pd(y), -1)
        if set(d) == {()}:
            return B.F
        neg = {m: -c for m, c in d.items()}
        return B.conj(B.neg(lt0(d)), B.neg(lt0(neg)))
    return liftb(f, a, b)


CONSTS = ("str", "bytes")


def sameop_text(a, b):
    return a.op == b.op and a.op in ("dectext", "inttext")


def streq(a, b):
    def f(x, y):
        if x is y:
            return B.T
        if x.op in CONSTS and y.op in CONSTS:
            return B.F
        if sameop_text(x, y):
            return inteq(x.args[0], y.args[0])
        if x.op == "json" and y.op == "json":
            return eq(x.args[1], y.args[1]) if x.args[0] == y.args[0] else atomnode(mk("eq", x, y))
        if x.op == "list" or y.op == "list":
            return seqeq(x, y)
        for p, q in ((x, y), (y, x)):
            if p.op == "human" and q in NORMALIZED:
                return f(p.args[0], mkcanon(q))
        if x.op == "human" and y.op == "human":
            return f(x.args[0], y.args[0])
        if x.op == "str" or (y.op != "str" and x.id > y.id):
            x, y = y, x
        if y.op == "str" and y.args[0] == "":
            return inteq(mklen(x), ZERO)
        return atomnode(mk("eq", x, y))
    return liftb(f, a, b)


def slt(a, b):
    """lexicographic byte order"""
    def f(x, y):
        if x is y:
            return B.F
        if x.op == "str" and y.op == "str":
            return B.T if x.args[0].encode() < y.args[0].encode() else B.F
        if x.op == "list" and y.op == "list":
            xs, ys = x.args[0], y.args[0]
            r = B.T if len(xs) < len(ys) else B.F
            for p, q in reversed(list(zip(xs, ys))):
                l = lt(p, q) if intish(p) or intish(q) else slt(p, q)
                r = B.disj(l, B.conj(eq(p, q), r))
            return r
        if x.op == "agg" and y.op == "agg" and x.args[0] == y.args[0]:
            if x.args[0] == "core::cmp::Reverse":
                return vlt(y.args[2], x.args[2])
            if x.args[0] in ("()", "core::option::Option"):
                if x.args[1] != y.args[1]:
                    return B.T if x.args[1] < y.args[1] else B.F
                r = B.F
                for p, q in reversed(list(zip(x.args[2:], y.args[2:]))):
                    r = B.disj(vlt(p, q), B.conj(eq(p, q), r))
                return r
        if x.id < y.id:
            e = streq(x, y)
            return B.conj(B.neg(e), B.var(mk("slt", x, y)))
        e = streq(x, y)
        return B.conj(B.neg(e), B.neg(B.var(mk("slt", y, x))))
    return liftb(f, a, b)


def vlt(a, b):
    """order of two values of one type: numbers, texts, tuples, options, Reverse"""
    def f(x, y):
        return lt(x, y) if intish(x) and intish(y) else slt(x, y)
    return liftb(f, a, b)


def seqeq(x, y):
    if x.op == "list" and y.op == "list":
        if len(x.args[0]) != len(y.args[0]):
            return B.F
        return B.conj(*[eq(p, q) for p, q in zip(x.args[0], y.args[0])])
    for p, q in ((x, y), (y, x)):
        if p.op == "list" and not p.args[0]:
            return inteq(mklen(q), ZERO)
    if x.id > y.id:
        x, y = y, x
    return atomnode(mk("eq", x, y))


def eq(a, b):
    """structural equality of two values as a condition"""
    if a is b:
        return B.T

    def f(x, y):
        if x is y:
            return B.T
        if x.op == "agg" and y.op == "agg":
            if x.args[0] != y.args[0] or x.args[1] != y.args[1] or len(x.args) != len(y.args):
                return B.F
            return B.conj(*[eq(p, q) for p, q in zip(x.args[2:], y.args[2:])])
        if x.op == "bool" and y.op == "bool":
            return B.ite(x.args[0], y.args[0], B.neg(y.args[0]))
        if intish(x) and intish(y):
            return inteq(x, y)
        return streq(x, y)
    return liftb(f, a, b)


def mklen(s):
    def f(x):
        if x.op == "str":
            return INT(len(x.args[0].encode()))
        if x.op == "bytes":
            return INT(len(x.args[0]) // 2)
        if x.op == "list":
            return INT(len(x.args[0]))
        if x.op == "cat":
            r = ZERO
            for p in x.args[0]:
                r = add(r, mklen(p))
            return r
        if x.op == "seqmap":
            return loop_len(x.args[0])
        if intish(x):          # limbs of a 256-bit integer
            return INT(4)
        return mk("len", x)
    return lift(f, s)


def loop_len(condid):
    """number of iterations of a loop whose continue-condition (on the canonical index) is the BDD condid"""
    bounds = cond_bounds(condid)
    if bounds is not None:
        r = bounds[0]
        for b in bounds[1:]:
            c = lt(b, r)
            r = mkgamma([(c, b), (B.neg(c), r)])
        return r
    return mk("minlen", condid)


def cond_bounds(cond):
    """continue condition == conjunction of idx < L_i; returns the L_i"""
    e = B.essential(cond)
    if B.from_lits(e) != cond:
        return None
    out = []
    for l, v in sorted(e.items()):
        a = B.atom(l)
        if a.op != "lt":
            return None
        d = pd(a.args[0])
        ks = [m for m in d if any(x.op == "idx" for x in m)]
        if len(ks) != 1 or len(ks[0]) != 1:
            return None
        c = d[ks[0]]
        rest = frompd({m: k for m, k in d.items() if m != ks[0]})
        if v and c == 1:            # K + rest < c0  -> K < c0 - rest
            out.append(sub(INT(a.args[1]), rest))
        elif not v and c == -1:     # -K + rest >= c0 -> K <= rest - c0 -> K < rest - c0 + 1
            out.append(add(sub(rest, INT(a.args[1])), ONE))
        else:
            return None
    return out


def mkcat(parts):
    flat = []
    for p in parts:
        if p.op == "cat":
            flat.extend(p.args[0])
        elif p.op == "str" and p.args[0] == "":
            continue
        elif p.op == "list" and not p.args[0]:
            continue
        else:
            flat.append(p)
    out = []
    for p in flat:
        if out and p.op == "str" and out[-1].op == "str":
            out[-1] = STR(out[-1].args[0] + p.args[0])
        elif out and p.op == "list" and out[-1].op == "list":
            out[-1] = mk("list", out[-1].args[0] + p.args[0])
        else:
            out.append(p)
    if not out:
        return STR("") if not any(p.op == "list" for p in parts) else mk("list", ())
    if len(out) == 1:
        return out[0]
    return mk("cat", tuple(out))


def cat(*parts):
    return lift(lambda *xs: mkcat(xs), *parts)


def mkcanon(x):
    return lift(lambda y: y.args[0] if y.op == "human" else mk("canon", y), x)


def mkhuman(x):
    return lift(lambda y: y.args[0] if y.op == "canon" else mk("human", y), x)


# ------------------------------------------------------------------------------------------------ facts and rewriting

_facts = {}


def facts(g):
    f = _facts.get(g)
    if f is not None:
        return f
    global CUR
    f = Facts()
    f.guard = g
    if g == B.F:
        f.infeasible = True
        _facts[g] = f
        return f
    lits = B.essential(g)
    strs = []
    pend = []
    for l, v in lits.items():
        a = B.atom(l)
        if a.op == "lt":
            pend.append((pd(a.args[0]), a.args[1], v))
        elif a.op == "eq" and v:
            strs.append(a.args)
    for x, y in strs:
        # constants and lower ids are representatives
        while x in f.sub:
            x = f.sub[x]
        while y in f.sub:
            y = f.sub[y]
        if x is y:
            continue
        if x.op in CONSTS or (y.op not in CONSTS and x.id < y.id):
            x, y = y, x
        f.sub[x] = y
    saved = CUR
    CUR = f
    try:
        for rnd in range(6):
            changed = False
            for d, c, v in pend:
                d2 = subst_pd(d, f.sub)
                # P < c  (v) or P >= c
                c0 = d2.get((), 0)
                nd = {m: k for m, k in d2.items() if m != ()}
                if not nd:
                    if (c0 < c) != v:
                        f.infeasible = True
                    continue
                g0 = 0
                for k in nd.values():
                    g0 = gcd(g0, abs(k))
                lead = nd[max(nd, key=mono_key)]
                s = g0 if lead > 0 else -g0
                key = frompd({m: k // s for m, k in nd.items()})
                b = c - c0
                if v:       # s*key <= b-1
                    if s > 0:
                        changed |= _ub(f, key, (b - 1) // s)
                    else:
                        changed |= _lb(f, key, -((b - 1) // -s))
                else:       # s*key >= b
                    if s > 0:
                        changed |= _lb(f, key, -((-b) // s))
                    else:
                        changed |= _ub(f, key, (-b) // (-s))
            if rnd == 0:
                _quotients(f, pend)
            for key in list(set(f.plo) | set(f.phi)):
                lo, hi = prange(pd(key))
                if lo is not None and hi is not None:
                    if lo > hi:
                        f.infeasible = True
                    elif lo == hi:
                        changed |= _solve(f, key, lo)
            if f.infeasible or not changed:
                break
    finally:
        CUR = saved
    _facts[g] = f
    return f


_PDIV = {}


def pdivexact(n, d):
    """n / d for polynomials when the division is exact, else None"""
    key = (frozenset(n.items()), frozenset(d.items()))
    if key in _PDIV:
        return _PDIV[key]
    q, r = {}, dict(n)
    lead = max(d, key=mono_key)
    res = None
    for _ in range(12):
        if not r:
            res = q
            break
        m = max(r, key=mono_key)
        t = mdiv(m, lead)
        if t is None or r[m] % d[lead]:
            break
        k = r[m] // d[lead]
        q[t] = q.get(t, 0) + k
        r = padd(r, pmul({t: k}, d), -1)
    _PDIV[key] = res
    return res


def _quotients(f, pend):
    """a comparison N < S*K of the numerator of a known quotient Q = floor(N/S) bounds Q itself: Q < K"""
    qs = {}
    for d, c, v in pend:
        for m in d:
            for a in m:
                if a.op == "div" and a.args[1].op != "int":
                    qs[a] = 1
    for q in qs:
        N, S = pd(q.args[0]), pd(q.args[1])
        if len(S) < 2:
            continue
        for d, c, v in pend:
            if any(q in m for m in d):
                continue
            p = padd(d, {(): -c} if c else {})
            for form, lt_ in ((p, v), (padd({m: -k for m, k in p.items()}, {(): -1}), not v)):
                K = pdivexact(padd(N, form, -1), S)
                if K is None:
                    continue
                # N - S*K < 0 (lt_) or >= 0
                e = padd({(q,): 1}, K, -1)
                c0 = e.get((), 0)
                nd = {m: k for m, k in e.items() if m != ()}
                s = 1 if nd[max(nd, key=mono_key)] > 0 else -1
                key = frompd({m: k * s for m, k in nd.items()})
                f.mul.add(key)
                if lt_:
                    (_ub if s > 0 else _lb)(f, key, s * (-1 - c0))
                else:
                    (_lb if s > 0 else _ub)(f, key, s * -c0)


def _ub(f, key, v):
    if key in f.phi and f.phi[key] <= v:
        return False
    f.phi[key] = v
    _sqbound(f, key)
    return True


def _lb(f, key, v):
    if key in f.plo and f.plo[key] >= v:
        return False
    f.plo[key] = v
    return True


def _sqbound(f, key):
    pass


def _solve(f, key, val):
    """key == val: orient as a substitution for one atom (f.sub is kept idempotent)"""
    d = padd(subst_pd(pd(key), f.sub), {(): -val} if val else {})
    if not d:
        return False
    cands = []
    for m, c in d.items():
        if len(m) == 1 and abs(c) == 1 and not any(m[0] in m2 for m2 in d if m2 != m):
            a = m[0]
            if a in f.sub:
                continue
            rest = {k: x for k, x in d.items() if k != m}
            if any(a in deep_atoms(b) for k in rest for b in k):
                continue
            cands.append((a, c, rest))
    if not cands:
        return False
    a, c, rest = max(cands, key=lambda x: (weight(x[0]), x[0].id))
    r = frompd({m: -k for m, k in rest.items()} if c == 1 else rest)
    one = {a: r}
    for k, v in list(f.sub.items()):
        if a in deep_atoms(v):
            nv = frompd(subst_pd(pd(v), one))
            if k in deep_atoms(nv):
                return False
            f.sub[k] = nv
    f.sub[a] = r
    if a.op == "div" and r.op == "int":
        k = r.args[0]
        n, dd = pd(a.args[0]), a.args[1]
        if dd.op == "int" and n:
            D = dd.args[0]
            c0 = n.get((), 0)
            nd = {m: x for m, x in n.items() if m != ()}
            g0 = 0
            for x in nd.values():
                g0 = gcd(g0, abs(x))
            if nd and nd[max(nd, key=mono_key)] > 0:
                kk = frompd({m: x // g0 for m, x in nd.items()})
                _ub(f, kk, ((k + 1) * D - 1 - c0) // g0)
                _lb(f, kk, -((-(k * D - c0)) // g0))
    return True


def subst_pd(d, sub):
    r = {}
    for m, c in d.items():
        t = {(): c}
        for a in m:
            s = _sub_atom(a, sub)
            t = pmul(t, pd(s))
        r = padd(r, t)
    return r


def _sub_atom(a, sub):
    s = sub.get(a)
    if s is not None:
        return s
    if a.op == "div":
        n, d = frompd(subst_pd(pd(a.args[0]), sub)), frompd(subst_pd(pd(a.args[1]), sub))
        if n is a.args[0] and d is a.args[1]:
            if CUR is None:
                return a
        return _div(n, d)
    if a.op == "isqrt":
        n = frompd(subst_pd(pd(a.args[0]), sub))
        return a if n is a.args[0] else sqrt(n)
    if a.op == "pow":
        n, e = frompd(subst_pd(pd(a.args[0]), sub)), frompd(subst_pd(pd(a.args[1]), sub))
        return a if n is a.args[0] and e is a.args[1] else power(n, e)
    if a.op == "limb":
        n = frompd(subst_pd(pd(a.args[0]), sub))
        if n is a.args[0] and CUR is None:
            return a
        r = limb(n, a.args[1].args[0])
        if CUR is not None and r.op == "limb" and lt(n, INT(1 << (64 * r.args[1].args[0]))) == B.T:
            return ZERO
        return r
    return a


def norm(t, f):
    """rewrite t under facts f (equalities, bounds, implied conditions)"""
    global CUR
    if f.infeasible:
        return UNDEF
    saved = CUR
    CUR = f
    try:
        return _norm(t, f)
    finally:
        CUR = saved


def _norm(t, f):
    m = f.memo
    if t in m:
        return m[t]
    r = _norm0(t, f)
    m[t] = r
    return r


def _norm0(t, f):
    op = t.op
    if op in ("int", "str", "bytes"):
        return t
    if t in f.sub:
        return _norm(f.sub[t], f)
    if op == "gamma":
        out = []
        for g, v in t.args[0]:
            h = B.restrict(normg(g, f), f.guard)
            if B.conj(h, f.guard) == B.F:
                continue
            out.append((h, _norm(v, f)))
        return mkgamma(out)
    if op == "bool":
        return BOOL(B.restrict(normg(t.args[0], f), f.guard))
    return rebuild(t, lambda x: _norm(x, f))


def normg(g, f):
    """re-evaluate the atoms of a condition under facts"""
    mp = {}
    for l in B.support(g):
        a = B.atom(l)
        if a.op == "lt":
            d = subst_pd(pd(a.args[0]), f.sub)
            n = lt0(padd(d, {(): -a.args[1]}))
            if n != B.var(a):
                mp[l] = n
        elif a.op == "eq":
            x, y = _norm(a.args[0], f), _norm(a.args[1], f)
            if x is not a.args[0] or y is not a.args[1]:
                mp[l] = eq(x, y)
        else:
            x = rebuild(a, lambda z: _norm(z, f))
            if x is not a:
                mp[l] = asnode(x)
    return B.compose(g, mp) if mp else g


def asnode(x):
    if x.op == "bool":
        return x.args[0]
    if x.op == "gamma":
        return B.disj(*[B.conj(g, asnode(v)) for g, v in x.args[0]])
    return atomnode(x)


def rebuild(t, f):
    """apply f to the immediate sub-terms and rebuild with the smart constructors"""
    op, a = t.op, t.args
    if op == "poly":
        r = None
        changed = False
        for m, _ in a[0]:
            for x in m:
                if f(x) is not x:
                    changed = True
        if not changed and CUR is None:
            return t
        r = ZERO
        for m, c in a[0]:
            p = INT(c)
            for x in m:
                p = mul(p, f(x))
            r = add(r, p)
        return r
    if op == "div":
        return div(f(a[0]), f(a[1]))
    if op == "isqrt":
        return sqrt(f(a[0]))
    if op == "pow":
        return power(f(a[0]), f(a[1]))
    if op == "limb":
        return limb(f(a[0]), a[1].args[0])
    if op == "agg":
        return mk("agg", a[0], a[1], *[f(x) for x in a[2:]])
    if op == "list":
        return mk("list", tuple(f(x) for x in a[0]))
    if op == "cat":
        return cat(*[f(x) for x in a[0]])
    if op == "len":
        return mklen(f(a[0]))
    if op == "canon":
        return mkcanon(f(a[0]))
    if op == "human":
        return mkhuman(f(a[0]))
    if op == "json":
        return mk("json", a[0], f(a[1]))
    if op == "eq":
        return BOOL(eq(f(a[0]), f(a[1])))
    if op == "slt":
        return BOOL(slt(f(a[0]), f(a[1])))
    if op == "at":
        return at(f(a[0]), f(a[1]), t)
    if op in BINDERS:
        return t
    if not any(isinstance(x, T) for x in a):
        return t
    na = tuple(f(x) if isinstance(x, T) else x for x in a)
    if na == a:
        return t
    if op == "opq" and na[0] == "repeat" and na[1].op == "str" and na[2].op == "int":
        return STR(na[1].args[0] * max(na[2].args[0], 0))
    r = opaque(op, *na)
    if t in RNG and r.op == op:
        RNG[r] = RNG[t]
    return r


BINDERS = set()


def at(s, i, like=None):
    def f(x, k):
        if x.op == "list" and k.op == "int" and 0 <= k.args[0] < len(x.args[0]):
            return x.args[0][k.args[0]]
        if x.op == "str" and k.op == "int":
            bs = x.args[0].encode()
            if 0 <= k.args[0] < len(bs):
                return INT(bs[k.args[0]])
        r = mk("at", x, k)
        if like is not None and like in RNG:
            RNG[r] = RNG[like]
        return r
    return lift(f, s, i)


def substitute(t, mp, memo=None):
    """replace terms by terms, everywhere (also in guards)"""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    if t in mp:
        r = mp[t]
    elif t.op == "gamma":
        r = mkgamma([(substg(g, mp, memo), substitute(v, mp, memo)) for g, v in t.args[0]])
    elif t.op == "bool":
        r = BOOL(substg(t.args[0], mp, memo))
    elif t.op in BINDERS:
        r = subst_binder(t, mp, memo)
    elif t.op in ("int", "str", "bytes"):
        r = t
    else:
        r = rebuild(t, lambda x: substitute(x, mp, memo))
    memo[t] = r
    return r


def subst_binder(t, mp, memo):
    # binder terms carry BDD guards as ('g', node) wrappers and values
    na = []
    for x in t.args:
        if isinstance(x, T):
            na.append(substitute(x, mp, memo))
        else:
            na.append(x)
    na = tuple(na)
    if na == t.args:
        return t
    r = mk(t.op, *na)
    if t in RNG:
        RNG[r] = RNG[t]
    return r


def substg(g, mp, memo=None):
    if memo is None:
        memo = {}
    m2 = {}
    for l in B.support(g):
        a = B.atom(l)
        if a.op == "lt":
            x = substitute(a.args[0], mp, memo)
            if x is not a.args[0]:
                m2[l] = lt(x, INT(a.args[1]))
        elif a.op == "eq":
            x, y = substitute(a.args[0], mp, memo), substitute(a.args[1], mp, memo)
            if x is not a.args[0] or y is not a.args[1]:
                m2[l] = eq(x, y)
        else:
            x = substitute(a, mp, memo)
            if x is not a:
                m2[l] = asnode(x)
    return B.compose(g, m2) if m2 else g


# ------------------------------------------------------------------------------------------------ theory of atoms

_th = {}


def theory(levels):
    """lemmas among the given atoms"""
    levels = frozenset(levels)
    r = _th.get(levels)
    if r is not None:
        return r
    groups = {}
    eqs = {}
    for l in levels:
        a = B.atom(l)
        if a.op == "lt":
            groups.setdefault(a.args[0], []).append((a.args[1], a))
        elif a.op == "eq":
            eqs[a.args] = a
    r = B.T
    for p, xs in groups.items():
        xs.sort(key=lambda x: x[0])
        for (c1, a1), (c2, a2) in zip(xs, xs[1:]):
            r = B.conj(r, B.disj(B.neg(B.var(a1)), B.var(a2)))
    if eqs:
        byt = {}
        for (x, y), a in eqs.items():
            byt.setdefault(x, []).append((y, a))
            byt.setdefault(y, []).append((x, a))
        for x, lst in byt.items():
            for i in range(len(lst)):
                for j in range(i + 1, len(lst)):
                    y, a = lst[i]
                    z, b = lst[j]
                    if y.op in CONSTS and z.op in CONSTS:
                        r = B.conj(r, B.neg(B.conj(B.var(a), B.var(b))))
                        continue
                    k = eqs.get((y, z)) or eqs.get((z, y))
                    if k is not None:
                        r = B.conj(r, B.disj(B.neg(B.conj(B.var(a), B.var(b))), B.var(k)))
    _th[levels] = r
    return r


_feas = {}
BUDGET = 200000


def with_theory(g):
    """g and what its atoms imply about each other; just g if that gets too large"""
    h = B.within(BUDGET, lambda: B.conj(g, theory(l for l in B.support(g) if B.atom(l).op in ("lt", "eq"))))
    return g if h is None else h


def feasible(g):
    """False only if g is contradictory"""
    if g == B.F:
        return False
    r = _feas.get(g)
    if r is not None:
        return r
    h = with_theory(g)
    r = h != B.F
    if r:
        r = not facts(h).infeasible
    _feas[g] = r
    return r


def decide(c, g):
    """simplify condition c under the path condition g"""
    if c < 2 or g == B.T:
        return c
    r = B.within(BUDGET, B.restrict, c, g)
    if r is None:
        return c
    if r < 2:
        return r
    f = facts(g)
    if f.plo or f.phi or f.sub:
        global CUR
        saved = CUR
        CUR = f
        try:
            mp = {}
            for l in B.support(r):
                a = B.atom(l)
                if a.op == "lt":
                    d = padd(subst_pd(pd(a.args[0]), f.sub), {(): -a.args[1]})
                    n = lt0(d)
                    if n < 2:
                        mp[l] = n
                elif a.op == "eq" and (a.args[0] in f.sub or a.args[1] in f.sub):
                    x, y = a.args
                    while x in f.sub:
                        x = f.sub[x]
                    while y in f.sub:
                        y = f.sub[y]
                    if x is y:
                        mp[l] = B.T
                    elif x.op in CONSTS and y.op in CONSTS:
                        mp[l] = B.F
            if mp:
                r = B.compose(r, mp)
        finally:
            CUR = saved
    if r < 2:
        return r
    if not feasible(B.conj(g, r)):
        return B.F
    if not feasible(B.conj(g, B.neg(r))):
        return B.T
    return r


# ------------------------------------------------------------------------------------------------ comparison

def equal_under(a, b, g, depth=0, rel=frozenset()):
    """None if a == b whenever g; otherwise (guard, a', b') of a difference that could not be discharged"""
    if a is b or not feasible(g):
        return None
    if depth > 60:
        return (g, a, b)
    if a.op == "gamma" or b.op == "gamma":
        for h1, v1 in alts(a):
            g1 = B.conj(g, h1)
            if g1 == B.F:
                continue
            r1 = rel | B.support(h1)
            for h2, v2 in alts(b):
                g2 = B.conj(g1, h2)
                if g2 == B.F:
                    continue
                r = equal_under(v1, v2, g2, depth + 1, r1 | B.support(h2))
                if r:
                    return r
        return None
    if a.op == "agg" and b.op == "agg" and a.args[:2] == b.args[:2] and len(a.args) == len(b.args):
        for x, y in zip(a.args[2:], b.args[2:]):
            r = equal_under(x, y, g, depth + 1, rel)
            if r:
                return r
        return None
    if a.op == "list" and b.op == "list" and len(a.args[0]) == len(b.args[0]):
        for x, y in zip(a.args[0], b.args[0]):
            r = equal_under(x, y, g, depth + 1, rel)
            if r:
                return r
        return None
    if a.op == "json" and b.op == "json" and a.args[0] == b.args[0]:
        return equal_under(a.args[1], b.args[1], g, depth + 1, rel)
    if a.op == "bool" and b.op == "bool":
        x = B.conj(g, B.ite(a.args[0], B.neg(b.args[0]), b.args[0]))
        return None if refute(x, rel | B.support(a.args[0]) | B.support(b.args[0])) else (residue(x), a, b)
    ta, tb = text_of(a), text_of(b)
    if ta is not None and tb is not None:
        a, b = ta, tb
    if intish(a) and intish(b):
        n = B.neg(inteq(a, b))
        d = B.conj(g, n)
        if not feasible(d):
            return None
        return None if refute(d, rel | B.support(n)) else (residue(d), a, b)
    f = facts(with_theory(g))
    if f.infeasible:
        return None
    a2, b2 = norm(a, f), norm(b, f)
    if a2 is b2:
        return None
    if a2 is not a or b2 is not b:
        return equal_under(a2, b2, g, depth + 10, rel)
    n = eq(a, b)
    d = B.conj(g, B.neg(n))
    if d == B.F:
        return None
    if a.op == b.op and len(a.args) == len(b.args) and a.op not in ("lt",):
        same = True
        for x, y in zip(a.args, b.args):
            if isinstance(x, T) and isinstance(y, T):
                same = not equal_under(x, y, g, depth + 1, rel)
            elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and all(
                    isinstance(z, T) for z in x + y):
                same = all(not equal_under(p, q, g, depth + 1, rel) for p, q in zip(x, y))
            else:
                same = x == y
            if not same:
                break
        if same:
            return None
    return None if refute(d, rel | B.support(n)) else (residue(d), a, b)


def residue(g):
    h = B.conj(g, RESIDUE) if RESIDUE is not None else B.F
    return g if h == B.F else h


def text_of(x):
    """the number a decimal text stands for"""
    if x.op == "inttext":
        return x.args[0]
    if x.op == "str" and x.args[0].isdigit() and (x.args[0] == "0" or x.args[0][0] != "0"):
        return INT(int(x.args[0]))
    return None


def prove_unsat(g, a, b):
    """case split of g over its relevant arithmetic atoms; each cube must make a and b equal or be infeasible"""
    atoms = deep_atoms(a) | deep_atoms(b)
    sup = B.support(g)
    rel = [l for l in sup if B.atom(l).op == "lt" and deep_atoms(B.atom(l)) & atoms]
    if not rel:
        return False
    h = B.exists(g, sup - frozenset(rel))
    cs = B.cubes(h, 64)
    if len(cs) > 64:
        return False
    for c in cs:
        f = facts(B.from_lits(c))
        if f.infeasible:
            continue
        if norm(a, f) is norm(b, f):
            continue
        return False
    return True


def implies(g, h):
    """g => h modulo the atom theory"""
    return not sat(B.conj(g, B.neg(h)))


def sat(g, rel=None):
    """False only if g is contradictory"""
    return not refute(g, rel)


STAT = {"refute": 0, "split": 0, "gaveup": 0}


def refute(g, rel=None, budget=400):
    """True if the condition g cannot hold; rel: atoms the question is about (others are dropped first)"""
    global RESIDUE
    RESIDUE = None
    if not feasible(g):
        return True
    STAT["refute"] += 1
    sup = B.support(g)
    g = with_theory(g)
    if g == B.F:
        return True
    if rel is not None:
        ess = B.essential(g)
        keep = set(rel) | set(ess)
        h = B.exists(g, sup - frozenset(keep))
        if _refute(h, [max(60, budget // 4)]):
            return True
        # atoms built from the terms in question
        rt = set()
        for l in rel:
            if B.atom(l).op == "lt":
                rt |= {a for a in deep_atoms(B.atom(l)) if a.op == "div"}
        more = {l for l in sup if B.atom(l).op == "lt" and (rt & deep_atoms(B.atom(l)))}
        if more - keep:
            keep |= more
            h = B.exists(g, sup - frozenset(keep))
            if _refute(h, [max(60, budget // 2)]):
                return True
    h = B.exists(g, frozenset(l for l in sup if B.atom(l).op not in ("lt", "eq") and l not in B.essential(g)))
    return _refute(h, [budget])


RESIDUE = None      # a cube the last unsuccessful refutation could not exclude


_poly = {}


def polyhedron_empty(g):
    """True only if the order literals that g entails have no common solution, monomials taken as independent rationals that are
    related by the defining inequalities of the quotients in them"""
    if g in _poly:
        return _poly[g]
    import poly
    global CUR
    f = facts(g)
    if f.infeasible:
        return True
    rows, todo, seen, atoms = [], [], set(), set()

    def row(d, lo, hi):
        c = d.get((), 0)
        cs = {m: k for m, k in d.items() if m != ()}
        rows.append((cs, None if lo is None else lo - c, None if hi is None else hi - c))
        for m in cs:
            if m not in seen:
                seen.add(m)
                todo.append(m)
    lits = [(pd(B.atom(l).args[0]), B.atom(l).args[1], v) for l, v in B.essential(g).items() if B.atom(l).op == "lt"]
    if not lits:
        _poly[g] = False
        return False
    saved, CUR = CUR, f
    try:
        for d, c, v in lits:
            d = subst_pd(d, f.sub)
            row(d, None if v else c, c - 1 if v else None)
        n = 0
        while todo and n < 200:
            m = todo.pop()
            n += 1
            if len(m) > 1:
                lo, hi = prange({m: 1})
                if lo is not None or hi is not None:
                    rows.append(({m: 1}, lo, hi))
            for a in m:
                if a in atoms:
                    continue
                atoms.add(a)
                lo, hi = arange(a)
                if lo is not None or hi is not None:
                    rows.append(({(a,): 1}, lo, hi))
            for i, a in enumerate(m):
                if a.op != "div":
                    continue
                N, D = pd(a.args[0]), pd(a.args[1])
                dlo = prange(D)[0]
                if dlo is None or dlo < 1:
                    continue
                t = m[:i] + m[i + 1:]
                if t:
                    if len(t) > 2 or any((arange(x)[0] is None or arange(x)[0] < 0) for x in t):
                        continue
                tp = {t: 1}
                # 0 <= t*(N - D*q) <= t*(D - 1)
                rem = padd(pmul(tp, N), pmul(pmul(tp, D), {(a,): 1}), -1)
                if len(rem) > 12 or any(len(x) > 4 for x in rem):
                    continue
                row(rem, 0, None)
                row(padd(padd(rem, pmul(tp, D), -1), tp), None, 0)
    finally:
        CUR = saved
    STAT["poly"] = STAT.get("poly", 0) + 1
    try:
        r = poly.empty(rows)
    except (TypeError, ValueError, ArithmeticError):
        r = False
    if r:
        STAT["polyhit"] = STAT.get("polyhit", 0) + 1
    _poly[g] = r
    return r


def _refute(g, budget):
    global CUR, LIN, RESIDUE
    for _ in range(8):
        if g == B.F or not feasible(g):
            return True
        ess = B.essential(g)
        base = B.from_lits(ess)
        f = facts(base)
        if f.infeasible:
            return True
        rest = B.restrict(g, base)
        mp = {}
        saved, CUR, LIN = CUR, f, 1
        try:
            for l, v in ess.items():
                a = B.atom(l)
                if a.op == "lt":
                    n = lt0(padd(subst_pd(pd(a.args[0]), f.sub), {(): -a.args[1]}))
                    if n == (B.F if v else B.T):
                        return True
            for l in B.support(rest):
                a = B.atom(l)
                if a.op == "lt":
                    n = lt0(padd(subst_pd(pd(a.args[0]), f.sub), {(): -a.args[1]}))
                elif a.op == "eq":
                    x, y = _norm(a.args[0], f), _norm(a.args[1], f)
                    n = B.var(a) if x is a.args[0] and y is a.args[1] else eq(x, y)
                else:
                    continue
                if n != B.var(a):
                    mp[l] = n
        finally:
            CUR = saved
            LIN = 0
        if not mp:
            break
        rest = B.compose(rest, mp)
        n = B.conj(base, rest)
        if n == g:
            break
        g = with_theory(n)
    if g == B.F or not feasible(g):
        return True
    ess = B.essential(g)
    rest = [l for l in B.support(g) if l not in ess]
    if not rest:
        if polyhedron_empty(g):
            return True
        RESIDUE = g
        return False
    budget[0] -= 1
    if budget[0] <= 0:
        STAT["gaveup"] += 1
        return False
    STAT["split"] += 1
    l = min(rest)
    v = B.var(B.atom(l))
    return _refute(B.conj(g, v), budget) and _refute(B.conj(g, B.neg(v)), budget)


def cube_feasible(c):
    """re-evaluate every literal of the cube under the facts of the cube"""
    g = B.from_lits(c)
    f = facts(g)
    if f.infeasible:
        return False
    if not f.sub and not f.plo and not f.phi:
        return True
    global CUR
    saved = CUR
    CUR = f
    try:
        for l, v in c.items():
            a = B.atom(l)
            if a.op != "lt":
                continue
            d = subst_pd(pd(a.args[0]), f.sub)
            n = lt0(padd(d, {(): -a.args[1]}))
            if n == (B.F if v else B.T):
                return False
    finally:
        CUR = saved
    return True


# ------------------------------------------------------------------------------------------------ printing

ALIAS = {}          # term -> short name used in messages


def show(t, depth=0):
    if not isinstance(t, T):
        return str(t)
    if t in ALIAS:
        return ALIAS[t]
    op, a = t.op, t.args
    d = depth + 1
    if depth > 14:
        return "…"
    if op == "int":
        n = a[0]
        for k, nm in ((10 ** 18, "1e18"), (1 << 128, "2^128"), (1 << 64, "2^64"), (1 << 256, "2^256")):
            if n == k:
                return nm
        return str(n)
    if op == "str":
        return repr(a[0])
    if op == "sym":
        return str(a[0])
    if op == "poly":
        out = []
        for m, c in a[0]:
            s = "*".join(show(x, d) for x in m)
            if not m:
                s = show(INT(c), d)
            elif c != 1:
                s = show(INT(c), d) + "*" + s
            out.append(s)
        return "(" + " + ".join(out) + ")"
    if op == "div":
        return "floor(%s / %s)" % (show(a[0], d), show(a[1], d))
    if op == "agg":
        st = STRUCT.get(a[0], {}).get(a[1])
        p = a[0].split("::")[-1]
        if st and len(st[1]) == len(a) - 2:
            vn = p if st[0] == p else (p + "::" + st[0] if p not in ("Option", "Result") else st[0])
            if not st[1]:
                return vn
            if st[1][0] == "0":
                return vn + "(" + ", ".join(show(x, d) for x in a[2:]) + ")"
            return vn + "{" + ", ".join(n + ": " + show(x, d) for n, x in zip(st[1], a[2:])) + "}"
        return "%s#%s(%s)" % (p, a[1], ", ".join(show(x, d) for x in a[2:]))
    if op == "list":
        return "[" + ", ".join(show(x, d) for x in a[0]) + "]"
    if op == "cat":
        return " ++ ".join(show(x, d) for x in a[0])
    if op == "bool":
        return "(" + B.show(a[0], lambda x: show(x, d)) + ")"
    if op == "gamma":
        return "{" + "; ".join("if %s: %s" % (B.show(g, lambda x: show(x, d), 6), show(v, d)) for g, v in a[0]) + "}"
    if op == "lt":
        return "%s < %s" % (show(a[0], d), show(INT(a[1]), d))
    if op == "eq":
        return "%s == %s" % (show(a[0], d), show(a[1], d))
    if op == "fld":
        return show(a[0], d) + "." + str(a[1])
    if op == "json":
        return "json<%s>(%s)" % (a[0].split("::")[-1] if isinstance(a[0], str) else a[0], show(a[1], d))
    if op == "at":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    return "%s(%s)" % (op, ", ".join(show(x, d) for x in a))


def gshow(g):
    return B.show(g, show)
