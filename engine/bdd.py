"""Reduced ordered binary decision diagrams over canonical atoms (the guard algebra of the value-flow analysis)."""
import sys
sys.setrecursionlimit(200000)

F, T = 0, 1
_lvl = [1 << 60, 1 << 60]
_lo = [0, 1]
_hi = [0, 1]
_uniq = {}
_ite = {}
_atoms = []          # level -> atom term
_index = {}          # atom term -> level
_supp = {}


def var(atom):
    i = _index.get(atom)
    if i is None:
        i = len(_atoms)
        _index[atom] = i
        _atoms.append(atom)
    return _mk(i, F, T)


def atom(level):
    return _atoms[level]


def natoms():
    return len(_atoms)


class Budget(Exception):
    pass


_limit = 1 << 60


def within(n, f, *a):
    """f(*a), or None if that needs more than n new nodes"""
    global _limit
    old = _limit
    _limit = min(old, len(_lvl) + n)
    try:
        return f(*a)
    except Budget:
        if len(_lvl) > old:
            raise
        return None
    finally:
        _limit = old


def _mk(l, lo, hi):
    if lo == hi:
        return lo
    k = (l, lo, hi)
    n = _uniq.get(k)
    if n is None:
        n = len(_lvl)
        if n > _limit:
            raise Budget
        _lvl.append(l)
        _lo.append(lo)
        _hi.append(hi)
        _uniq[k] = n
    return n


def ite(f, g, h):
    if f == T:
        return g
    if f == F:
        return h
    if g == h:
        return g
    if g == T and h == F:
        return f
    k = (f, g, h)
    r = _ite.get(k)
    if r is not None:
        return r
    l = min(_lvl[f], _lvl[g], _lvl[h])
    f0, f1 = (_lo[f], _hi[f]) if _lvl[f] == l else (f, f)
    g0, g1 = (_lo[g], _hi[g]) if _lvl[g] == l else (g, g)
    h0, h1 = (_lo[h], _hi[h]) if _lvl[h] == l else (h, h)
    r = _mk(l, ite(f0, g0, h0), ite(f1, g1, h1))
    _ite[k] = r
    return r


def neg(f):
    return ite(f, F, T)


def conj(*fs):
    r = T
    for f in fs:
        r = ite(r, f, F)
        if r == F:
            return F
    return r


def disj(*fs):
    r = F
    for f in fs:
        r = ite(r, T, f)
        if r == T:
            return T
    return r


def implies(f, g):
    return ite(f, g, T) == T


def support(f):
    """frozenset of levels f depends on"""
    r = _supp.get(f)
    if r is not None:
        return r
    if f < 2:
        r = frozenset()
    else:
        r = support(_lo[f]) | support(_hi[f]) | {_lvl[f]}
    _supp[f] = r
    return r


def cof(f, level, val, _memo=None):
    if _memo is None:
        _memo = {}
    if f < 2 or _lvl[f] > level:
        return f
    if f in _memo:
        return _memo[f]
    if _lvl[f] == level:
        r = _hi[f] if val else _lo[f]
    else:
        r = _mk(_lvl[f], cof(_lo[f], level, val, _memo), cof(_hi[f], level, val, _memo))
    _memo[f] = r
    return r


def cof_map(f, m, _memo=None):
    """m: level -> bool"""
    if _memo is None:
        _memo = {}
    if f < 2:
        return f
    if f in _memo:
        return _memo[f]
    l = _lvl[f]
    if l in m:
        r = cof_map(_hi[f] if m[l] else _lo[f], m, _memo)
    else:
        r = _mk(l, cof_map(_lo[f], m, _memo), cof_map(_hi[f], m, _memo))
    _memo[f] = r
    return r


def compose(f, m, _memo=None):
    """m: level -> node"""
    if _memo is None:
        _memo = {}
    if f < 2:
        return f
    if f in _memo:
        return _memo[f]
    l = _lvl[f]
    lo, hi = compose(_lo[f], m, _memo), compose(_hi[f], m, _memo)
    v = m.get(l)
    if v is None:
        v = _mk(l, F, T)
    r = ite(v, hi, lo)
    _memo[f] = r
    return r


def exists(f, levels):
    levels = frozenset(levels)
    memo = {}

    def go(f):
        if f < 2:
            return f
        if f in memo:
            return memo[f]
        lo, hi = go(_lo[f]), go(_hi[f])
        r = disj(lo, hi) if _lvl[f] in levels else _mk(_lvl[f], lo, hi)
        memo[f] = r
        return r
    return go(f)


def restrict(f, c, _memo=None):
    """Coudert-Madre restrict: agrees with f on c, usually smaller"""
    if _memo is None:
        _memo = {}
    if c == F:
        return F
    if c == T or f < 2:
        return f
    k = (f, c)
    if k in _memo:
        return _memo[k]
    lf, lc = _lvl[f], _lvl[c]
    if lc < lf:
        r = restrict(f, disj(_lo[c], _hi[c]), _memo)
    else:
        c0, c1 = (_lo[c], _hi[c]) if lc == lf else (c, c)
        if c0 == F:
            r = restrict(_hi[f], c1, _memo)
        elif c1 == F:
            r = restrict(_lo[f], c0, _memo)
        else:
            r = _mk(lf, restrict(_lo[f], c0, _memo), restrict(_hi[f], c1, _memo))
    _memo[k] = r
    return r


_ess = {}


def essential(f):
    """literals implied by f: dict level -> bool"""
    chain = {}
    while f > T:        # only the results of branching nodes are remembered
        lo, hi = _lo[f], _hi[f]
        if lo == F:
            chain[_lvl[f]] = True
            f = hi
        elif hi == F:
            chain[_lvl[f]] = False
            f = lo
        else:
            r = _ess.get(f)
            if r is None:
                a, b = essential(lo), essential(hi)
                r = {k: v for k, v in a.items() if b.get(k) == v}
                if len(_ess) > 300000:
                    _ess.clear()
                _ess[f] = r
            chain.update(r)
            break
    return chain


def cubes(f, limit=None):
    """paths to T as dicts level->bool"""
    out = []

    def go(f, d):
        if limit is not None and len(out) > limit:
            return
        if f == F:
            return
        if f == T:
            out.append(dict(d))
            return
        l = _lvl[f]
        d[l] = False
        go(_lo[f], d)
        d[l] = True
        go(_hi[f], d)
        del d[l]
    go(f, {})
    return out


def size(f):
    seen = set()

    def go(f):
        if f < 2 or f in seen:
            return
        seen.add(f)
        go(_lo[f])
        go(_hi[f])
    go(f)
    return len(seen)


def from_lits(m):
    r = T
    for l in sorted(m, reverse=True):
        r = _mk(l, F, r) if m[l] else _mk(l, r, F)
    return r


def show(f, fmt=str, limit=40):
    if f == F:
        return "false"
    if f == T:
        return "true"
    e = essential(f)
    base = from_lits(e)
    rest = restrict(f, base)
    parts = [("" if v else "!") + fmt(_atoms[l]) for l, v in sorted(e.items())]
    if rest != T:
        cs = cubes(rest, limit)
        parts.append("(" + " | ".join(
            " & ".join(("" if v else "!") + fmt(_atoms[l]) for l, v in sorted(c.items())) for c in cs[:limit]) +
            (" | ..." if len(cs) > limit else "") + ")")
    return " & ".join(parts)
