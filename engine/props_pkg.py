"""Properties of the shared packages: assets and queries (C36-C39), 256-bit numbers (C40, C41)."""
from scen import *
from props_pair import KINDS, same_parts, under_ok, isnone, someval

AI, AIR = "haloswap::asset::AssetInfo", "haloswap::asset::AssetInfoRaw"
F18 = 10 ** 18
TOP = (1 << 256) - 1


class Pkg(Scen):
    n = 0

    def __init__(self, crate="haloswap", shapes=(), **k):
        super().__init__(crate, shapes, **k)

    def args(self, key, **given):
        """arguments of a function: the given ones by position name a0.., the rest fresh"""
        k, f = self.fn(key)
        out = []
        for i, t in enumerate(f["inputs"]):
            v = given.get("a%d" % i)
            out.append(v if v is not None else self.it.fresh(t, mk("sym", "a%d" % i)))
        return k, out

    def on(self, key, **given):
        k, a = self.args(key, **given)
        st = I.State(self.guard)
        v = self.it.run_body(k, a, st)
        r = Run(self, k, st, v)
        r.state = st
        r.args = [self.it.deref(st, x) for x in a]
        return r


def asset_info(s, kind, base, raw=False):
    v = s.fresh("asset::AssetInfoRaw" if raw else "asset::AssetInfo", mk("sym", base))
    for g, x in X.alts(v):
        if vname(x) == kind:
            return x
    raise Problem("anchor changed: no variant %s" % kind)


def ident(x):
    return x.args[2]


def raw_ident(x):
    return X.mkcanon(ident(x)) if vname(x) == "Token" else ident(x)


def C36(c):
    for raw in (False, True):
        ty = AIR if raw else AI
        for ka in ("Token", "NativeToken"):
            for kb in ("Token", "NativeToken"):
                for fn in (ty + "::equal", "<%s as core::cmp::PartialEq>::eq" % ty):
                    s = Pkg()
                    a, b = asset_info(s, ka, "a", raw), asset_info(s, kb, "b", raw)
                    r = s.on(fn, a0=a, a1=b)
                    inst = "%s %s/%s" % (fn.split("::")[-1] + (" raw" if raw else ""), ka, kb)
                    c.ran(r, inst)
                    want = X.eq(ident(a), ident(b)) if ka == kb else B.F
                    g = X.asnode(r.value)
                    for bad in (B.conj(r.guard, g, B.neg(want)), B.conj(r.guard, want, B.neg(g))):
                        c.ob("equality", inst, not X.sat(bad), lambda: "wrong answer when " + wit(bad), r.where())
                    c.ob("equality", inst + " returns", not any(X.sat(x[0]) for x in r.reverts), "may abort", r.where())
        for k in ("Token", "NativeToken"):
            s = Pkg()
            a = asset_info(s, k, "a", raw)
            if raw:
                r = s.on(AIR + "::as_bytes", a0=a)
                c.ran(r, "as_bytes of " + k)
                c.same(r, "key-bytes", k, r.value, ident(a))
                r = s.on(AIR + "::to_normal", a0=a)
                want = X.mkhuman(ident(a)) if k == "Token" else ident(a)
                c.ran(r, "to_normal of " + k)
                c.live(r, "to_normal " + k)
                c.same(r, "stored-to-normal", k, under_ok(r, r.value), s.make("asset::AssetInfo", k, **{fname(a): want}))
            else:
                r = s.on(AI + "::to_raw", a0=a)
                c.ran(r, "to_raw of " + k)
                c.live(r, "to_raw " + k)
                c.same(r, "normal-to-stored", k, under_ok(r, r.value), s.make("asset::AssetInfoRaw", k, **{fname(a): raw_ident(a)}))
                r = s.on(AI + "::is_native_token", a0=a)
                c.ran(r, "is_native_token of " + k)
                c.same(r, "kind", k, r.value, BOOL(B.T if k == "NativeToken" else B.F))
            c.never_err(r, "accepted", "%s%s" % (k, " raw" if raw else ""), B.T)
            # the asset with its amount
            s = Pkg()
            a = asset_info(s, k, "a", raw)
            amt = s.amount = mk("sym", "amount")
            X.RNG[amt] = (0, (1 << 128) - 1)
            if raw:
                r = s.on("haloswap::asset::AssetRaw::to_normal", a0=s.make("asset::AssetRaw", info=a, amount=amt))
                want = s.make("asset::Asset", info=s.make("asset::AssetInfo", k, **{fname(a): X.mkhuman(ident(a)) if k == "Token" else ident(a)}), amount=amt)
            else:
                r = s.on("haloswap::asset::Asset::to_raw", a0=s.make("asset::Asset", info=a, amount=amt))
                want = s.make("asset::AssetRaw", info=s.make("asset::AssetInfoRaw", k, **{fname(a): raw_ident(a)}), amount=amt)
            c.ran(r, "asset conversion of %s%s" % (k, " raw" if raw else ""))
            c.live(r, "asset conversion %s %s" % (k, raw))
            c.same(r, "asset", "%s%s" % (k, " raw" if raw else ""), under_ok(r, r.value), want)


def fname(x):
    return next(iter(fields(x)))


def C37(c):
    for k in ("Token", "NativeToken"):
        for fn in ("into_msg", "into_submsg"):
            s = Pkg()
            a = asset_info(s, k, "a")
            amt = mk("sym", "amount")
            X.RNG[amt] = (0, (1 << 128) - 1)
            to = mk("sym", "recipient")
            X.NORMALIZED.add(to)
            r = s.on("haloswap::asset::Asset::" + fn, a0=s.make("asset::Asset", info=a, amount=amt), a1=to)
            inst = "%s of a %s" % (fn, k)
            c.ran(r, inst)
            c.live(r, inst)
            m = s.m_transfer(ident(a), to, amt) if k == "Token" else s.m_bank(to, ident(a), amt)
            c.same(r, "payment", inst, under_ok(r, r.value), m if fn == "into_msg" else s.submsg(m))
            c.never_err(r, "accepted", inst, B.T)


def C38(c):
    for k in ("Token", "NativeToken"):
        for n in bounds.lengths(c, "haloswap", range(0, 7 if c.thorough else 4)):
            s = Pkg(shapes=[(r"^sym:a1\|funds$", r"::Vec$", n)])
            a = asset_info(s, k, "a")
            amt = mk("sym", "amount")
            X.RNG[amt] = (0, (1 << 128) - 1)
            key, args = s.args("haloswap::asset::Asset::assert_sent_native_token_balance", a0=s.make("asset::Asset", info=a, amount=amt))
            funds = list(fld(s.it.deref(I.State(B.T), args[1]), "funds").args[0])
            for i in range(n):
                for j in range(i):              # a message's coins have pairwise different denominations
                    s.assume(B.neg(X.eq(fld(funds[i], "denom"), fld(funds[j], "denom"))))
            r = s.on("haloswap::asset::Asset::assert_sent_native_token_balance", a0=args[0], a1=args[1])
            inst = "%s with %d coins" % (k, n)
            c.ran(r, inst)
            c.live(r, inst)
            if k == "Token":
                c.never_err(r, "token-accepted", inst, B.T)
                continue
            good, none = B.F, B.T
            for x in funds:
                here = X.eq(fld(x, "denom"), ident(a))
                good = B.disj(good, B.conj(here, X.inteq(fld(x, "amount"), amt)))
                none = B.conj(none, B.neg(here))
            good = B.disj(good, B.conj(none, X.inteq(amt, ZERO)))
            c.always(r, "exact", inst, good)
            c.never_err(r, "accepted", inst, good)


def lookups(s):
    """function -> (arguments, expected query, path of the returned field)"""
    acct, con, den = mk("sym", "account"), mk("sym", "target"), mk("sym", "denom")
    X.NORMALIZED.update((acct, con))
    q = "haloswap::querier::"
    infos = [asset_info(s, "Token", "i0"), asset_info(s, "NativeToken", "i1")]
    amt = mk("sym", "amount")
    X.RNG[amt] = (0, (1 << 128) - 1)
    asset = s.make("asset::Asset", info=infos[0], amount=amt)
    yield q + "query_balance", dict(a1=acct, a2=den), s.q_bank(acct, den), ("amount", "amount")
    yield q + "query_all_balances", dict(a1=acct), s.make("QueryRequest", "Bank", _0=s.make("BankQuery", "AllBalances", address=acct)), ("amount",)
    yield q + "query_token_balance", dict(a1=con, a2=acct), s.q_smart(con, s.json("Cw20QueryMsg", "Balance", address=acct)), ("balance",)
    yield q + "query_token_info", dict(a1=con), s.q_smart(con, s.json("Cw20QueryMsg", "TokenInfo")), ()
    yield q + "query_native_decimals", dict(a1=con, a2=den), s.q_smart(con, s.json("factory::QueryMsg", "NativeTokenDecimals", denom=den)), ("decimals",)
    yield q + "query_pair_info", dict(a1=con, a2=I.lst(infos)), s.q_smart(con, s.json("factory::QueryMsg", "Pair", asset_infos=I.lst(infos))), ()
    yield q + "simulate", dict(a1=con, a2=asset), s.q_smart(con, s.json("pair::QueryMsg", "Simulation", offer_asset=asset)), ()
    yield q + "reverse_simulate", dict(a1=con, a2=asset), s.q_smart(con, s.json("pair::QueryMsg", "ReverseSimulation", ask_asset=asset)), ()
    yield q + "query_pair_info_from_pair", dict(a1=con), s.q_smart(con, s.json("pair::QueryMsg", "Pair")), ()
    for k in ("Token", "NativeToken"):
        a = asset_info(s, k, "a")
        tok = s.q_smart(ident(a), s.json("Cw20QueryMsg", "Balance", address=acct))
        yield AI + "::query_pool", dict(a0=a, a3=acct), tok if k == "Token" else s.q_bank(acct, ident(a)), ("balance",) if k == "Token" else ("amount", "amount")
        yield (AI + "::query_decimals", dict(a0=a, a1=acct),
               s.q_smart(ident(a), s.json("Cw20QueryMsg", "TokenInfo")) if k == "Token" else
               s.q_smart(acct, s.json("factory::QueryMsg", "NativeTokenDecimals", denom=ident(a))), ("decimals",))


def C39(c):
    n = len(list(lookups(Pkg())))
    for i in range(n):
        s = Pkg()
        fn, args, q, path = list(lookups(s))[i]
        r = s.on(fn, **args)
        kind = vname(args["a0"]) if "a0" in args else ""
        inst = ("%s %s" % (fn.split("::")[-1], kind)).strip()
        c.ran(r, inst)
        c.live(r, inst)
        asked = [a for a in r.fails if a.args[0] == "query" and a.args[1] is q]
        if not c.ob("asked", inst, bool(asked), lambda: "never asks %s; asks %s" % (X.show(q)[:300], "; ".join(
                X.show(a)[:300] for a in r.fails if a.args[0] == "query")), r.where()):
            continue
        for bad in asked:
            c.rejected(r, "failure-propagates", inst, B.var(bad))
        others = [a for a in r.fails if a.args[0] == "query" and a not in asked]
        c.ob("asks-nothing-else", inst, not others, lambda: "also asks " + X.show(others[0])[:300], r.where())
        base = mk("resp", q)
        for f in path:
            base = mk("fld", base, f)
        want = s.it.fresh(s.it.T[s.fn(fn)[1]["output"]]["args"][0], base)
        c.same(r, "value", inst, under_ok(r, r.value), want)
        c.never_err(r, "answered", inst, B.T)
    # both pool balances of a pair
    for k0 in ("Token", "NativeToken"):
        for k1 in ("Token", "NativeToken"):
            s = Pkg(shapes=[(r"^sym:a0\|.*asset_infos\.0$", r"::AssetInfoRaw$", k0), (r"^sym:a0\|.*asset_infos\.1$", r"::AssetInfoRaw$", k1)])
            acct = mk("sym", "account")
            X.NORMALIZED.add(acct)
            r = s.on("haloswap::asset::PairInfoRaw::query_pools", a3=acct)
            inst = "query_pools %s/%s" % (k0, k1)
            c.ran(r, inst)
            c.live(r, inst)
            infos = fld(r.args[0], "asset_infos").args[0]
            out = []
            for a in infos:
                k = vname(a)
                norm = X.mkhuman(ident(a)) if k == "Token" else ident(a)
                amt = s.r_cw20(norm, acct) if k == "Token" else s.r_bank(acct, norm)
                X.RNG[amt] = (0, (1 << 128) - 1)
                out.append(s.make("asset::Asset", info=s.make("asset::AssetInfo", k, **{fname(a): norm}), amount=amt))
            c.same(r, "value", inst, under_ok(r, r.value), I.lst(out))
            for a in list(r.fails):
                c.rejected(r, "failure-propagates", "%s %s" % (inst, a.args[0]), B.var(a))


# ------------------------------------------------------------------------------------------------ numbers

D, U = "bignumber::math::Decimal256", "bignumber::math::Uint256"
DEC = "cosmwasm_std::math::decimal::Decimal"
U128 = "cosmwasm_std::math::uint128::Uint128"


def op(t, tr, meth, param=""):
    return "<%s as core::ops::arith::%s%s>::%s" % (t, tr, "<%s>" % param if param else "", meth)


def numbers():
    """(function, exact result of the operands, operand condition for success, intermediate that must fit)"""
    F = INT(F18)
    one = lambda *a: B.T
    mul, add, sub = X.mul, X.add, X.sub
    nz = lambda x: B.neg(X.inteq(x, ZERO))
    fit = lambda x, n=256: X.le(x, INT((1 << n) - 1))
    for t in (D, U):
        yield op(t, "Add", "add"), lambda a, b: add(a, b), lambda a, b: fit(add(a, b))
        yield op(t, "AddAssign", "add_assign"), lambda a, b: add(a, b), lambda a, b: fit(add(a, b))
        yield op(t, "Sub", "sub"), lambda a, b: sub(a, b), lambda a, b: X.le(b, a)
        yield t + "::zero", lambda: ZERO, one
        yield t + "::is_zero", lambda a: BOOL(X.inteq(a, ZERO)), one
        yield "<%s as core::cmp::PartialEq>::eq" % t, lambda a, b: BOOL(X.inteq(a, b)), one
    yield op(D, "Mul", "mul"), lambda a, b: X.div(mul(a, b), F), lambda a, b: fit(mul(a, b))
    yield op(D, "Div", "div"), lambda a, b: X.div(mul(a, F), b), lambda a, b: B.conj(nz(b), fit(mul(a, F)))
    yield op(D, "Mul", "mul", U), lambda a, b: X.div(mul(a, b), F), lambda a, b: fit(mul(a, b))
    yield op(U, "Mul", "mul", U), mul, lambda a, b: fit(mul(a, b))
    yield op(U, "Mul", "mul"), mul, lambda a, b: fit(mul(a, b))
    yield op(U, "Mul", "mul", D), lambda a, b: X.div(mul(a, b), F), lambda a, b: fit(mul(a, b))
    yield op(U, "Div", "div", D), lambda a, b: X.div(mul(a, F), b), lambda a, b: B.conj(nz(b), fit(mul(a, F)))
    yield D + "::one", lambda: F, one
    yield U + "::one", lambda: ONE, one
    yield D + "::percent", lambda a: mul(a, INT(10 ** 16)), one
    yield D + "::permille", lambda a: mul(a, INT(10 ** 15)), one
    yield D + "::from_ratio::<A, B>", lambda a, b: X.div(mul(a, F), b), lambda a, b: B.conj(nz(b), fit(mul(a, F)))
    yield D + "::from_uint256::<A>", lambda a: mul(a, F), lambda a: fit(mul(a, F))
    yield U + "::multiply_ratio::<A, B>", lambda z, a, b: X.div(mul(z, a), b), lambda z, a, b: B.conj(nz(b), fit(mul(z, a)))
    same = lambda a: a
    yield "<%s as core::convert::From<%s>>::from" % (D, DEC), same, one
    yield "bignumber::math::<impl core::convert::From<%s> for %s>::from" % (D, DEC), same, lambda a: fit(a, 128)
    for t in ("bigint::uint::U256", U128, "u128", "u64"):
        yield "<%s as core::convert::From<%s>>::from" % (U, t), same, one
    yield "bignumber::math::<impl core::convert::From<%s> for bigint::uint::U256>::from" % U, same, one
    for t in ("u128", U128):
        yield "bignumber::math::<impl core::convert::From<%s> for %s>::from" % (U, t), same, lambda a: fit(a, 128)


ALTERNATIVE = {op(U, "Mul", "mul", U), op(U, "Mul", "mul")}


def C40(c):
    found = 0
    for key, exact, fits in numbers():
        s = Pkg("bignumber")
        # the conversion through text relies on printing and parsing being inverse (C41)
        s.it.raw_decimal = not (key.endswith("for %s>::from" % D) or key.startswith("bignumber::math::<impl core::convert::From<%s> for %s>" % (D, DEC)))
        if key in ALTERNATIVE and key not in s.it.prog.fns:
            continue
        k, f = s.fn(key)
        found += key in ALTERNATIVE
        args, vals = [], []
        st = I.State(B.T)
        for i, t in enumerate(f["inputs"]):
            b = mk("sym", "%s:%d" % (key, i))
            v = s.it.fresh(t, b)
            args.append(v)
            w = s.it.deref(st, v)
            if w not in X.RNG and not X.intish(w):
                X.RNG[w] = (0, TOP)
            vals.append(w)
        assign = key.endswith("_assign")
        if assign:
            cell = M.newcell(s.it, st, vals[0])
            args[0] = cell
        v = s.it.run_body(k, args, st)
        if assign:
            v = s.it.deref(st, cell)
        r = Run(s, k, st, v)
        r.ok, r.value = st.guard, v
        inst = key.replace("bignumber::math::", "").replace("core::ops::arith::", "").replace("core::convert::", "").replace("cosmwasm_std::math::", "")
        c.ran(r, inst)
        good = fits(*vals)
        c.live(r, inst)
        c.always(r, "aborts", inst, good)
        want = exact(*vals)
        c.same(r, "exact", inst, v, want, under=good)
        lost = B.conj(good, B.neg(st.guard))
        c.ob("total", inst, not X.sat(lost), lambda: "aborts although the result exists, when " + wit(lost), r.where())
    c.ob("anchors", "Uint256 product", found == 1, "the product of two Uint256 is not defined", "")
    for t in (D, U):
        for tr, meth in (("PartialOrd", "partial_cmp"), ("Ord", "cmp")):
            s = Pkg("bignumber")
            k, f = s.fn("<%s as core::cmp::%s>::%s" % (t, tr, meth))
            a, b = mk("sym", "%s:a" % k), mk("sym", "%s:b" % k)
            X.RNG[a] = X.RNG[b] = (0, TOP)
            r = s.on(k, a0=a, a1=b)
            inst = "%s of %s" % (meth, t.split("::")[-1])
            c.ran(r, inst)
            cases = []
            for vn, g in (("Less", X.lt(a, b)), ("Equal", X.inteq(a, b)), ("Greater", X.lt(b, a))):
                o = s.make("Ordering", vn)
                cases.append((g, I.some(o) if meth == "partial_cmp" else o))
            r.ok = r.guard
            c.same(r, "order", inst, r.value, X.mkgamma(cases))


def C41(c):
    from models import NOSEP
    # parsing: text with 0, 1 or several dots
    for n in range(1, 6 if c.thorough else 4):
        s = Pkg("bignumber")
        s.it.raw_decimal = True
        parts = [mk("sym", "part%d" % i) for i in range(n)]
        for p in parts:
            NOSEP[p] = "."
        text = []
        for i, p in enumerate(parts):
            text += ([STR(".")] if i else []) + [p]
        text = X.cat(*text)
        r = s.on("<%s as core::str::traits::FromStr>::from_str" % D, a0=text)
        inst = "%d dots" % (n - 1)
        c.ran(r, "parse text with " + inst)
        if n > 2:
            c.rejected(r, "dots", inst)
            c.ob("dots", inst + " no abort", not any(X.sat(x[0]) for x in r.reverts), "aborts instead of failing", r.where())
            continue
        c.live(r, inst)
        bad = [mk("fail", "parse", p, STR("u256")) for p in parts]
        val = []
        for p in parts:
            v = mk("parsed", p)
            X.RNG[v] = (0, TOP)
            val.append(v)
        for i, b in enumerate(bad):
            if c.ob("digits", "%s, part %d" % (inst, i), b in r.fails, "part %d is not parsed as decimal digits" % i, r.where()):
                c.rejected(r, "digits", "%s, part %d" % (inst, i), B.var(b))
        whole = X.scale(val[0], F18)
        if n == 1:
            c.same(r, "value", inst, r.value, whole)
            c.never_err(r, "accepted", inst, B.conj(B.neg(B.var(bad[0])), X.le(whole, INT(TOP))))
            continue
        ln = X.mklen(parts[1])
        c.always(r, "at most 18 digits", inst, X.le(ln, INT(18)))
        for d in range(19):
            q = r.at({ln: INT(d)})
            v = X.substitute(r.value, {ln: INT(d)})
            w = X.add(whole, X.scale(val[1], 10 ** (18 - d)))
            c.live(q, "%d fractional digits" % d)
            c.same(q, "value", "%d fractional digits" % d, v, w)
            fits = X.le(w, INT(TOP))
            lost = B.conj(B.neg(q.guard), fits, B.neg(B.var(bad[0])), B.neg(B.var(bad[1])), X.lt(val[1], INT(10 ** d)))
            c.ob("no-abort", "%d fractional digits" % d, not X.sat(lost), lambda: "aborts when " + wit(lost), r.where())
            c.never_err(q, "accepted", "%d fractional digits" % d, B.conj(fits, B.neg(B.var(bad[0])), B.neg(B.var(bad[1]))))
    # printing
    s = Pkg("bignumber")
    s.it.raw_decimal = True
    k, f = s.fn("<%s as core::fmt::Display>::fmt" % D)
    x = mk("sym", "printed number")
    X.RNG[x] = (0, TOP)
    st = I.State(B.T)
    buf = M.newcell(s.it, st, mk("agg", "fmt", 0, STR("")))
    v = s.it.run_body(k, [x, buf], st)
    r = Run(s, k, st, v)
    text = I.proj(s.it.deref(st, buf), ["f", 0])
    c.ran(r, "print")
    whole = X.div(x, INT(F18))
    frac = X.sub(x, X.scale(whole, F18))
    c.same(r, "printed", "whole number", text, inttext(whole), under=X.inteq(frac, ZERO))
    ft = inttext(frac)
    ln = X.mklen(ft)
    for d in range(1, 19):
        mp = {ln: INT(d)}
        q = r.at(mp)
        nz = B.neg(X.inteq(frac, ZERO))
        c.live(q, "fraction of %d significant digits" % d, nz)
        want = X.cat(inttext(whole), STR("."), X.opaque("trim_end", X.cat(STR("0" * (18 - d)), ft) if d < 18 else ft, INT(48)))
        c.same(q, "printed", "fraction of %d significant digits" % d, X.substitute(text, mp), want, under=nz)
        lost = B.conj(nz, B.neg(q.ok))
        c.ob("printed", "%d digits, always" % d, not X.sat(lost), lambda: "fails when " + wit(lost), r.where())
    # serialised form
    for t, what in ((D, "dectext"), (U, "inttext")):
        s = Pkg("bignumber")
        got = []
        s.it.models = M.Models()
        s.it.models.extra = {"serde::ser::Serializer::serialize_str": lambda cc: (got.append((cc.st.guard, cc.arg(1))), mk("opq", "serialized"))[1]}
        r = s.on("<%s as serde::ser::Serialize>::serialize::<S>" % t)
        inst = "serialise " + t.split("::")[-1]
        c.ran(r, inst)
        c.ob("text", inst, len(got) == 1 and got[0][0] == B.T, "not written as one text on every path", r.where())
        for g, x in got:
            n = r.args[0]
            w = X.opaque("dectext", n) if what == "dectext" else inttext(n)
            d = X.equal_under(x, w, g)
            c.ob("text", inst + " content", d is None, lambda: "writes %s instead of %s" % (X.show(d[1])[:300], X.show(d[2])[:300]), r.where())
        s = Pkg("bignumber")
        r = s.on("<%sVisitor as serde::de::Visitor<'de>>::visit_str::<E>" % t, a1=STR("12.5") if what == "dectext" else STR("125"))
        c.ran(r, "read " + t.split("::")[-1])
        c.live(r, inst)
        c.same(r, "read-back", inst, r.value, INT(125 * 10 ** 17 if what == "dectext" else 125))
        p = mk("sym", "text read")
        NOSEP[p] = "."
        s = Pkg("bignumber")
        r = s.on("<%sVisitor as serde::de::Visitor<'de>>::visit_str::<E>" % t, a1=p)
        v = mk("parsed", p)
        X.RNG[v] = (0, TOP)
        c.same(r, "read-back", inst + " any digits", r.value, X.scale(v, F18) if what == "dectext" else v)
        b = mk("fail", "parse", p, STR("u256"))
        c.ob("read-back", inst + " checked", b in r.fails, "text is not parsed", r.where())
        c.rejected(r, "read-back", inst + " bad text", B.var(b))
