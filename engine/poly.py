"""Emptiness test of a convex polyhedron over the rationals (the numeric abstract domain's last resort).

rows: list of (coefficients {var: int}, lo, hi), meaning lo <= sum <= hi (either may be None or infinite); variables are unbounded unless a row
bounds them. empty(rows) is True only if no rational point satisfies all rows. Exact arithmetic, Bland's rule."""
from fractions import Fraction as Q


def empty(rows, limit=3000):
    lo, hi = {}, {}
    tab = {}            # basic -> {nonbasic: coefficient}
    names = {}
    for cs, a, b in rows:
        cs = {v: c for v, c in cs.items() if c}
        a, b = (None if isinstance(x, float) else x for x in (a, b))    # infinities
        if not cs:
            if a is not None and a > 0 or b is not None and b < 0:
                return True
            continue
        if len(cs) == 1:
            (v, c), = cs.items()
            a, b = (None if a is None else Q(a, c)), (None if b is None else Q(b, c))
            if c < 0:
                a, b = b, a
            key = ("v", v)
        else:
            # one row per direction
            l = max(cs, key=lambda v: names.setdefault(v, len(names)))
            s = cs[l]
            n = {v: Q(c, s) for v, c in cs.items()}
            key = ("r", frozenset(n.items()))
            if key not in tab:
                tab[key] = {("v", v): c for v, c in n.items()}
            a, b = (None if a is None else Q(a) / s), (None if b is None else Q(b) / s)
            if s < 0:
                a, b = b, a
        if a is not None and (key not in lo or lo[key] < a):
            lo[key] = a
        if b is not None and (key not in hi or hi[key] > b):
            hi[key] = b
        if key in lo and key in hi and lo[key] > hi[key]:
            return True
    order = {}
    for k in tab:
        for v in tab[k]:
            order.setdefault(v, len(order))
    for k in tab:
        order.setdefault(k, len(order))
    val = {}
    for v in order:
        if v not in tab:
            val[v] = lo[v] if v in lo else hi[v] if v in hi else Q(0)
    for k, r in tab.items():
        val[k] = sum((c * val[v] for v, c in r.items()), Q(0))
    for _ in range(limit):
        bad = None
        for k in tab:
            if k in lo and val[k] < lo[k] or k in hi and val[k] > hi[k]:
                if bad is None or order[k] < order[bad]:
                    bad = k
        if bad is None:
            return False
        up = bad in lo and val[bad] < lo[bad]
        r = tab[bad]
        piv = None
        for v, c in r.items():
            inc = (c > 0) == up
            if inc and not (v in hi and val[v] >= hi[v]) or not inc and not (v in lo and val[v] <= lo[v]):
                if piv is None or order[v] < order[piv]:
                    piv = v
        if piv is None:
            return True
        target = lo[bad] if up else hi[bad]
        # pivot bad <-> piv
        c = r[piv]
        th = (target - val[bad]) / c
        val[bad] = target
        val[piv] += th
        for k, q in tab.items():
            if k is not bad and piv in q:
                val[k] += q[piv] * th
        del tab[bad]
        n = {v: -x / c for v, x in r.items() if v is not piv and v != piv}
        n[bad] = 1 / c
        for k, q in tab.items():
            x = q.pop(piv, None)
            if x:
                for v, y in n.items():
                    z = q.get(v, 0) + x * y
                    if z:
                        q[v] = z
                    else:
                        q.pop(v, None)
        tab[piv] = n
    return False


if __name__ == "__main__":
    assert empty([({"x": 1, "y": 1}, None, 1), ({"x": 1}, 1, None), ({"y": 1}, 1, None)])
    assert not empty([({"x": 1, "y": 1}, None, 2), ({"x": 1}, 1, None), ({"y": 1}, 1, None)])
    assert empty([({"x": 2, "y": -3}, 0, None), ({"y": 3, "z": -1}, 0, None), ({"z": 1, "x": -2}, 1, None)])
    assert not empty([({"x": 2, "y": -3}, 0, None), ({"y": 3, "z": -1}, 0, None), ({"z": 1, "x": -2}, 0, None)])
    import random
    random.seed(1)
    for t in range(300):
        vs = "abcd"
        pt = {v: random.randint(-5, 5) for v in vs}
        rows = []
        for _ in range(8):
            cs = {v: random.randint(-3, 3) for v in vs if random.random() < .7}
            s = sum(c * pt[v] for v, c in cs.items())
            rows.append((cs, s - random.randint(0, 1), s + random.randint(0, 2) if random.random() < .5 else None))
        assert not empty(rows)
    n = 0
    import itertools
    for t in range(300):
        rows = []
        for _ in range(5):
            cs = {v: random.randint(-2, 2) for v in "ab"}
            rows.append((cs, random.randint(-2, 2), None))
        e = empty(rows)
        pts = any(all(sum(c * Q(p["ab".index(v)]) for v, c in cs.items()) >= a for cs, a, _ in rows) for p in itertools.product([Q(i, 2) for i in range(-8, 9)], repeat=2))
        assert not (e and pts)
        n += e
    print("ok", n)
