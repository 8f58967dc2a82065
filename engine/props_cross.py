"""Properties that concern every entry point (C42, C43, C44)."""
import os, tomllib
from scen import *
import bounds, dump
from props_pair import (Pair, Provide, ALL, KINDS, pair_entries, pick, variants, cw20msg, hook_shapes, withdraw_run, isnone, variant_fields, INV)
from props_factory import Fac, fac_entries, asset_shapes, page_shapes
from props_router import TWO, op_shapes, route, Router


def any_msg(s, entry):
    return s.it.fresh(s.fn("contract::" + entry)[1]["inputs"][-1], mk("sym", "msg"))


def long_routes():
    """routes longer than any length or position the router's code tells apart"""
    return ["~" + ("TNNT" * n)[:n + 2] for n in sorted(bounds.thresholds("halo_router")) if 2 <= n <= bounds.CAP]


def every_run(queries=True):
    """every entry point of every contract: (label, scenario, run)"""
    for label, s, r in pair_entries():
        if queries or " query " not in label:
            yield "pair " + label, s, r
    s = Scen("halo_pair")
    yield "pair instantiate", s, s.entry("instantiate", any_msg(s, "instantiate"))
    for k in ALL:
        for e in ("reply", "migrate"):
            s = Pair(k)
            yield "pair %s %s" % (k, e), s, s.entry(e, any_msg(s, e))
    for label, vn, s, r in fac_entries():
        yield "factory " + label, s, r
    s = Fac()
    yield "factory instantiate", s, s.entry("instantiate", any_msg(s, "instantiate"))
    if queries:
        for vn in variants(Fac(), "factory::QueryMsg"):
            for k in ALL:
                s = Fac(asset_shapes(k, f="start_after") + page_shapes(k) if vn == "Pairs" else asset_shapes(k))
                s.it.range_bound = 3
                yield "factory query %s %s" % (vn, k), s, s.entry("query", pick(s, "query", vn))
    for e in ("instantiate", "migrate"):
        s = Router()
        yield "router " + e, s, s.entry(e, any_msg(s, e))
    for vn in variants(Router(), "router::ExecuteMsg"):
        if vn == "ExecuteSwapOperations":
            for k in ("TN NT", "NN TT", *long_routes()):
                s, m, ops, st, h = route(k, False)
                yield "router %s %s" % (vn, k), s, s.entry("execute", m)
        elif vn == "Receive":
            for k in ("TN NT", "NN TT", *long_routes()):
                s, m, ops, st, h = route(k, True)
                yield "router %s %s" % (vn, k), s, s.entry("execute", m)
        else:
            for k in TWO:
                s = Router([(r"^sym:msg\|.*operation\.HaloSwap\.%s$" % side, r"::AssetInfo$", KINDS[k[j]])
                            for j, side in enumerate(("offer_asset_info", "ask_asset_info"))])
                yield "router %s %s" % (vn, k), s, s.entry("execute", pick(s, "execute", vn))
    if queries:
        for vn in variants(Router(), "router::QueryMsg"):
            for k in ("TN NT", "NN TT", *(long_routes() if "Simulate" in vn else ())):
                s = Router(op_shapes(r"^sym:msg\|", k))
                yield "router query %s %s" % (vn, k), s, s.entry("query", pick(s, "query", vn))
    for n in (0, 2):
        s = Scen("halo_token", [(r"^sym:msg\|initial_balances$", r"::Vec$", n)])
        yield "token instantiate %d" % n, s, s.entry("instantiate", any_msg(s, "instantiate"))


def short(f):
    return f.split("::")[-1] if not f.startswith("<") else f[:80]


CEIL = {(1 << 64) - 1, (1 << 128) - 1, (1 << 256) - 1}
_hasceil = {}


def has_ceiling(t):
    r = _hasceil.get(t)
    if r is None:
        if isinstance(t, tuple):
            r = any(has_ceiling(x) for x in t)
        elif not isinstance(t, X.T):
            return False
        elif t.op == "int":
            r = t.args[0] in CEIL
        elif t.op == "poly":
            r = X.pd(t).get((), 0) in CEIL or any(has_ceiling(a) for m, _ in t.args[0] for a in m)
        else:
            r = any(has_ceiling(x) for x in t.args if not isinstance(x, int))
        _hasceil[t] = r
    return r


def ceilings(v, g, out):
    """(condition, value) of the parts of v that contain the largest number of some width"""
    if isinstance(v, tuple):
        for x in v:
            ceilings(x, g, out)
    elif isinstance(v, X.T) and has_ceiling(v):
        if v.op == "gamma":
            for h, x in v.args[0]:
                ceilings(x, B.conj(g, h), out)
        elif v.op in ("int", "poly", "div"):
            out.append((g, v))
        else:
            for x in v.args:
                ceilings(x, g, out)


def C42(c):
    for label, s, r in every_run():
        c.ran(r, label)
        out = []
        if r.ok != B.F:
            ceilings(r.value, r.ok, out)
            for k, v in r.store.items():
                ceilings(v, r.ok, out)
        clamp = [(g, v) for g, v in out if g != B.F and X.sat(g)]
        c.ob("no-clamp", label, not clamp, lambda: "an amount is replaced by the largest number of its type although the call succeeds: %s when %s" % (
            X.show(clamp[0][1])[:300], wit(clamp[0][0])), r.where())
        bad = {}
        for g, kind, w in r.it.lost:
            g = B.conj(g, r.ok)
            if w == "?" or g == B.F or not X.sat(g):
                continue
            bad.setdefault((kind, w), g)
        c.ob("no-loss", label, True, where=r.where())
        for (kind, w), g in bad.items():
            c.ob("no-loss", "%s in %s" % (label, short(w[0])), False, lambda: "a value is %s although the call succeeds, when %s" % (
                kind, wit(g)), "%s %s:%s" % w[:3])
    # release builds must keep the checks the analysis relies on
    m = tomllib.load(open(os.path.join(dump.REPO, "Cargo.toml"), "rb"))
    prof = m.get("profile", {})
    rel = prof.get("release", {})
    c.ob("release-profile", "overflow-checks", rel.get("overflow-checks") is True, "overflow-checks is not enabled in the release profile", "Cargo.toml")
    for n, p in prof.items():
        for pk, q in list(p.get("package", {}).items()):
            c.ob("release-profile", "%s %s" % (n, pk), q.get("overflow-checks", True) is True,
                 "overflow-checks is disabled for package %s" % pk, "Cargo.toml")
        if p.get("inherits") == "release":
            c.ob("release-profile", n, p.get("overflow-checks", True) is True, "overflow-checks is disabled in profile " + n, "Cargo.toml")


def C44(c):
    for label, s, r in every_run():
        c.ran(r, label)
        for a, (g, w) in sorted(r.fails.items(), key=lambda kv: str(kv[1][1])):
            if a.args[0] == "range":    # entries behind the end of a page are never read (C24 covers the listed ones)
                continue
            bad = B.conj(r.ok, g, B.var(a))
            sat = bad != B.F and X.sat(bad)
            c.ob("propagates", "%s %s in %s" % (label, a.args[0], short(w[0])), not sat, lambda: "the call succeeds although %s failed, when %s" % (
                X.show(a)[:300], wit(bad)), "%s %s:%s" % w[:3])


BIG = 10 ** 28
E18 = 10 ** 18


def C43(c):
    """prices of funded pools, and first deposits"""
    for k in ALL:
        for i in (0, 1):
            s = Pair(k)
            for b in s.bal:
                X.RNG[b] = (1, BIG)
            m = pick(s, "query", "Simulation")
            o = fld(fields(m)["offer_asset"], "info")
            a = fld(fields(m)["offer_asset"], "amount")
            X.RNG[a] = (0, BIG)
            s.assume(X.eq(o, s.infos[i]))
            inst = "%s simulated offer of asset %d" % (k, i)
            # the pool never gives more than it holds: a*out/(in+a) <= out <= BIG
            s.assume(X.le(X.mul(a, s.bal[1 - i]), X.scale(X.add(s.bal[i], a), BIG)))
            r = s.entry("query", m)
            fits = X.lt(ideal(a, s.bal[i], s.bal[1 - i]), INT(1 << 128))
            no_abort(c, r, fits, inst)
            c.never_err(r, "succeeds", inst, fits)
    for k in ("TT", "TN", "NT"):
        for i in (0, 1):
            if k[i] != "T":
                continue
            s = Pair(k, hook_shapes("Swap"))
            m, snd, a, raw = cw20msg(s)
            d = mk("decoded", raw, STR(s.tpath("Cw20HookMsg")))
            X.RNG[a] = (0, BIG)
            X.RNG[s.dec[0]] = X.RNG[s.dec[1]] = (0, 18)
            X.RNG[s.bal[i]], X.RNG[s.bal[1 - i]] = (1, 2 * BIG), (1, BIG)
            pool = X.sub(s.bal[i], a)
            s.assume(s.is_asset(i), X.le(ONE, pool), X.le(pool, INT(BIG)),
                     X.le(X.mul(a, s.bal[1 - i]), X.scale(s.bal[i], BIG)))      # a*out/(pool+a) <= out <= BIG
            for nm, t in variant_fields(s, "Cw20HookMsg", "Swap"):
                if nm in ("belief_price", "max_spread"):
                    s.assume(isnone(s.it.fresh(t, mk("fld", d, "Swap." + nm))))
            r = s.entry("execute", m, s.fresh("MessageInfo", s.info_b))
            fits = X.lt(ideal(a, pool, s.bal[1 - i]), INT(1 << 128))
            no_abort(c, r, fits, "%s swap of asset %d" % (k, i))
            c.never_err(r, "succeeds", "%s swap of asset %d, equal decimals" % (k, i), B.conj(fits, X.inteq(s.dec[0], s.dec[1])))
    for k in ALL:
        s = Pair(k)
        for a in fields(pick(s, "execute", "ProvideLiquidity"))["assets"].args[0]:
            X.RNG[fld(a, "amount")] = (1, BIG)
        p = Provide(k, funds=k.count("N"), shapes=[(r"^stored:pair_info\|requirements\.whitelist$", r"::Vec$", 1)])
        s = p.s
        first = B.conj(p.given, p.native_ok(), X.inteq(s.supply, ZERO), isnone(p.tol),
                       *[X.le(p.dep[j], s.bal[j]) for j in (0, 1) if k[j] == "N"])
        no_abort(c, p.r, first, k + " first deposit")
        req = fld(s.raw, "requirements")
        for j, o in enumerate(p.orders()):
            c.never_err(p.r, "succeeds", "%s first deposit, order %d" % (k, j), B.conj(
                first, o, X.streq(fld(req, "whitelist").args[0][0], s.sender),
                *[X.le(fld(req, f), p.dep[i]) for i, f in ((0, "first_asset_minimum"), (1, "second_asset_minimum"))]))
    for k in ALL:
        s, r = withdraw_run(k)
        X.RNG[s.a] = X.RNG[s.supply] = (1, BIG)
        for b in s.bal:
            X.RNG[b] = (0, BIG)
        m, _, _, _ = cw20msg(s)
        r = s.entry("execute", m)
        some = B.conj(s.is_lp, X.le(ONE, s.a), X.le(s.a, s.supply), X.le(s.supply, INT(BIG)),
                      # follow from a <= S
                      *[X.le(X.mul(b, X.div(X.scale(s.a, E18), s.supply)), INT(E18 * BIG)) for b in s.bal])
        no_abort(c, r, some, k + " withdrawal")
        c.never_err(r, "succeeds", k + " withdrawal", some)
    for k in ALL:
        for i in (0, 1):
            s = Pair(k)
            for b in s.bal:
                X.RNG[b] = (1, BIG)
            a = mk("sym", "ask")
            X.RNG[a] = (0, BIG)
            m = s.make("QueryMsg", "ReverseSimulation", ask_asset=s.make("Asset", info=s.infos[i], amount=a))
            y, x = s.bal[i], s.bal[1 - i]
            pre = X.div(X.scale(a, INV), INT(E18))
            s.assume(X.lt(pre, y))
            inst = "%s reverse simulation, asking asset %d" % (k, i)
            r = s.entry("query", m)
            offer = X.sub(X.div(X.mul(x, y), X.sub(y, pre)), x)
            fits = B.conj(X.lt(offer, INT(1 << 128)), X.lt(ideal(offer, x, y), INT(1 << 128)))
            no_abort(c, r, fits, inst)
            c.never_err(r, "succeeds", inst, fits)
    for k in ALL:
        s = Pair(k)
        for a in fields(pick(s, "execute", "ProvideLiquidity"))["assets"].args[0]:
            X.RNG[fld(a, "amount")] = (1, BIG)
        p = Provide(k, funds=k.count("N"))
        s = p.s
        for b in s.bal:
            X.RNG[b] = (1, 2 * BIG)
        X.RNG[s.supply] = (1, BIG)
        r = s.entry("execute", p.msg, p.info)
        shares = [X.div(X.mul(d, s.supply), q) for d, q in zip(p.dep, p.pool)]
        later = B.conj(p.given, p.native_ok(), isnone(p.tol), *[X.le(ONE, q) for q in p.pool],
                       *[B.conj(X.le(ONE, z), X.lt(z, INT(1 << 128))) for z in shares])
        no_abort(c, r, later, k + " later deposit")
        c.never_err(r, "succeeds", k + " later deposit", later)


def ideal(a, x, y):
    """offer at the pool price"""
    return X.div(X.mul(a, X.div(X.scale(y, 10 ** 18), x)), INT(10 ** 18))


def no_abort(c, r, cond, inst):
    c.ran(r, inst)
    c.live(r, inst, cond)
    for g, kind, text, w in r.reverts:
        g = B.conj(g, cond, r.nofail)
        c.ob("no-abort", "%s %s in %s" % (inst, kind, short(w[0])), g == B.F or not X.sat(g),
             lambda: "aborts (%s) when %s" % (text, wit(g)), "%s %s:%s" % w[:3])
    c.ob("no-abort", inst, True, where=r.where())
