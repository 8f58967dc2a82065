"""Properties of the token contract (C34, C35)."""
from scen import *
from props_pair import stored_value, same_parts, variants, under_ok, isnone, someval

INFO = ("item", "token_info")


def byte_ok(b):
    def rng(lo, hi):
        return B.conj(X.le(INT(lo), b), X.le(b, INT(hi)))
    return B.disj(X.inteq(b, INT(45)), rng(65, 90), rng(97, 122))


def C34(c):
    for n in bounds.lengths(c, "halo_token", range(0, 5 if c.thorough else 3)):
        s = Scen("halo_token", [(r"^sym:msg\|initial_balances$", r"::Vec$", n)])
        m = s.it.fresh(s.fn("contract::instantiate")[1]["inputs"][-1], mk("sym", "msg"))
        f = fields(m)
        r = s.entry("instantiate", m)
        inst = "%d initial balances" % n
        c.ran(r, "token instantiate with " + inst)
        c.live(r, inst)
        bal = [fld(x, "amount") for x in f["initial_balances"].args[0]]
        total = ZERO
        for b in bal:
            total = X.add(total, b)
        nl, sl = X.mklen(f["name"]), X.mklen(f["symbol"])
        name = B.conj(X.le(INT(3), nl), X.le(nl, INT(50)))
        size = B.conj(X.le(INT(3), sl), X.le(sl, INT(12)))
        sym = B.T
        for i in range(12):
            sym = B.conj(sym, B.disj(X.le(sl, INT(i)), byte_ok(I.index(f["symbol"], INT(i)))))
        dec = X.le(f["decimals"], INT(18))
        cap = under_cap(f["mint"], total)
        fits = X.le(total, INT((1 << 128) - 1))
        c.always(r, "name", inst, name)
        c.always(r, "symbol-length", inst, size)
        c.always(r, "decimals", inst, dec)
        c.always(r, "cap", inst, cap)
        c.always(r, "supply-fits", inst, fits)
        for n in range(3, 13):          # every admissible symbol length
            q, mp = r.at({sl: INT(n)}), {sl: INT(n)}
            sn = X.substg(sym, mp)
            if not all([c.always(q, "symbol-characters", "%s, byte %d of %d" % (inst, i, n), byte_ok(I.index(f["symbol"], INT(i))))
                        for i in range(n)]):
                break
            c.never_err(q, "valid-accepted", "%s, %d bytes" % (inst, n), B.conj(name, sn, dec, cap, fits))
        v = under_ok(r, stored_value(r, INFO))
        minter = X.lift(lambda o: I.NONE if o.args[1] == 0 else I.some(s.make("MinterData", minter=fld(o.args[2], "minter"), cap=fld(o.args[2], "cap"))), f["mint"])
        same_parts(c, r, "stored", inst, v, {"name": f["name"], "symbol": f["symbol"], "decimals": f["decimals"],
                                             "total_supply": total, "mint": minter})
        for k, v in s_validated(r, f["mint"]):
            c.always(r, "minter-validated", inst, k, under=v)
        acc = r.store.get(("map", "balance"))
        if c.ob("accounts", inst, acc is not None, "no account is credited", r.where()):
            c.same(r, "accounts", inst, acc, mk("accounts", f["initial_balances"]))
        c.store_only(r, "state", inst, [INFO, ("map", "balance"), ("item", "contract_info")])
        l = under_ok(r, r.messages())
        c.ob("no-message", inst, l.op == "list" and not l.args[0], "instantiation sends messages", r.where())


def under_cap(mint, total):
    r = B.T
    for g, o in X.expand(mint):
        if o.args[1] == 1:
            for h, k in X.expand(fld(o.args[2], "cap")):
                if k.args[1] == 1:
                    r = B.conj(r, B.neg(B.conj(g, h, X.lt(k.args[2], total))))
    return r


def s_validated(r, mint):
    """(the address check of the minter happened and succeeded, when a minter is requested)"""
    out = []
    for g, o in X.expand(mint):
        if o.args[1] == 1:
            a = mk("fail", "validate", fld(o.args[2], "minter"))
            out.append((B.neg(B.var(a)) if a in r.fails else B.F, g))
    return out


def C35(c):
    for name, extra in (("execute", 4), ("query", 3)):
        s = Scen("halo_token", [(r"Vec", r"::Vec$", 1)])
        s.it.base_calls = log = []
        k, f = s.fn("contract::" + name)
        if len(f["inputs"]) != extra:
            raise Problem("anchor changed: %s takes %d arguments" % (k, len(f["inputs"])))
        ctx = [s.it.fresh(t, mk("sym", n)) for t, n in zip(f["inputs"][:-1], ["deps", "env", "info"])]
        msg = s.it.fresh(f["inputs"][-1], mk("sym", "msg"))
        st = I.State(s.guard)
        given = [s.it.deref(st, a) for a in ctx + [msg]]
        v = s.it.run_body(k, ctx + [msg], st)
        r = Run(s, k, st, v)
        c.ran(r, "token " + name)
        where = r.where()
        calls = [(g, n, vals, t) for g, n, vals, t in log if X.sat(g)]
        got = B.F
        for g, n, vals, t in calls:
            c.ob("delegates", name, n == name, "calls cw20_base's %s" % n, where)
            if n != name or len(vals) != len(given):
                continue
            for i, (x, y) in enumerate(zip(vals, given)):
                d = X.equal_under(x, y, g)
                c.ob("unchanged", "%s argument %d" % (name, i), d is None, lambda: "passes %s instead of %s when %s" % (
                    X.show(d[1])[:300], X.show(d[2])[:300], wit(d[0])), where)
            c.ob("once", name, B.conj(got, g) == B.F, "the standard implementation is called twice", where)
            got = B.disj(got, g)
        miss = B.conj(st.guard, B.neg(got))
        c.ob("every-message", name, not X.sat(miss), lambda: "not handled by the standard implementation when " + wit(miss), where)
        lost = [x for x in r.reverts if X.sat(x[0])]
        c.ob("no-abort", name, not lost, lambda: "aborts on its own: %s when %s" % (lost[0][2], wit(lost[0][0])), where)
        for g, w in X.alts(v):
            g = B.conj(g, st.guard)
            if g == B.F or not X.sat(g):
                continue
            c.ob("result", name, any(w is t for _, _, _, t in calls), lambda: "returns %s when %s" % (X.show(w)[:300], wit(g)), where)
        for k2, w in r.store.items():
            if k2 != ("base",):
                c.ob("storage", "%s %s" % (name, k2[-1]), w is s.it.init_store(k2) or w.op == "mapst" and not w.args[1],
                     "the token contract itself writes " + "/".join(map(str, k2)), where)
