"""Properties of the pair contract (C01-C12, C14, C15)."""
from scen import *

KINDS = {"T": "Token", "N": "NativeToken"}
E18 = 10 ** 18


class Pair(Scen):
    """a pair whose two stored assets have the given kinds ('TN': CW20 token and native coin)"""

    def __init__(self, kinds, shapes=(), **k):
        self.selfcanon = None
        sh = [(r"^stored:pair_info\|asset_infos\.%d$" % i, r"::AssetInfoRaw$", KINDS[kinds[i]]) for i in (0, 1)]
        sh.append((r"^stored:pair_info\|contract_addr$", r"::CanonicalAddr$", lambda b, t: X.mkcanon(self.self_addr)))
        super().__init__("halo_pair", sh + list(shapes), label=kinds, **k)
        self.kinds = kinds
        b = mk("stored", STR("pair_info"))
        self.raw = self.fresh("PairInfoRaw", b)
        ai = fld(self.raw, "asset_infos").args[0]
        self.ids = [a.args[2] for a in ai]                      # canonical address or denom
        self.rawinfos = ai
        self.names = [X.mkhuman(x) if k == "T" else x for x, k in zip(self.ids, kinds)]
        self.infos = [self.ainfo(i) for i in (0, 1)]
        self.dec = [x for x in fld(self.raw, "asset_decimals").args[0]]
        self.lp = X.mkhuman(fld(self.raw, "liquidity_token"))
        self.bal = [self.balance(i, self.self_addr) for i in (0, 1)]
        self.supply = self.r_token_info(self.lp, "total_supply")
        X.RNG[self.supply] = (0, (1 << 128) - 1)
        X.ALIAS.update({self.bal[0]: "balance0", self.bal[1]: "balance1", self.supply: "lp_supply", self.sender: "sender",
                        self.self_addr: "pair", self.ids[0]: "asset0", self.ids[1]: "asset1", self.names[0]: "human(asset0)" if
                        kinds[0] == "T" else "asset0", self.names[1]: "human(asset1)" if kinds[1] == "T" else "asset1"})
        if kinds[0] == kinds[1]:
            self.assume(B.neg(X.streq(self.ids[0], self.ids[1])))   # the factory never pairs an asset with itself

    def ainfo(self, i):
        return self.make("AssetInfo", KINDS[self.kinds[i]],
                         **{"contract_addr" if self.kinds[i] == "T" else "denom": self.names[i]})

    def balance(self, i, acct):
        r = self.r_cw20(self.names[i], acct) if self.kinds[i] == "T" else self.r_bank(acct, self.names[i])
        X.RNG[r] = (0, (1 << 128) - 1)
        return r

    def pay(self, i, to, amount):
        return self.m_transfer(self.names[i], to, amount) if self.kinds[i] == "T" else self.m_bank(to, self.names[i], amount)

    def is_asset(self, i):
        """the caller is the token contract of asset i"""
        if self.kinds[i] != "T":
            return B.F
        return X.streq(self.ids[i], X.mkcanon(self.sender))


def cw20msg(s):
    b = mk("sym", "cw20")
    m = s.fresh("Cw20ReceiveMsg", b)
    return s.make("ExecuteMsg", "Receive", _0=m), mkfld(b, "sender"), mkfld(b, "amount"), mkfld(b, "msg")


def hook_shapes(v):
    return [(r"^decoded:.*Cw20HookMsg\|$", r"::Cw20HookMsg$", v)]


def swap_run(kinds, **k):
    s = Pair(kinds, hook_shapes("Swap"), **k)
    m, snd, amt, raw = cw20msg(s)
    r = s.entry("execute", m, s.fresh("MessageInfo", s.info_b))
    s.trader, s.a = snd, amt
    d = mk("decoded", raw, STR(s.tpath("Cw20HookMsg")))
    s.hook = {f: s.it.fresh(t, mk("fld", d, "Swap." + f)) for f, t in variant_fields(s, "Cw20HookMsg", "Swap")}
    return s, r


def variant_fields(s, suffix, vn):
    for nm, dv, fl in s.it.T[s.type(suffix)]["variants"]:
        if nm == vn:
            return [(f, t) for f, t in fl]
    raise Problem("%s has no variant %s" % (suffix, vn))


def swap_spec(s, i):
    """gross, commission, net and admissible spreads for an offer of asset i (balance already increased)"""
    a, x, y = s.a, X.sub(s.bal[i], s.a), s.bal[1 - i]
    return formula(a, x, y)


def formula(a, x, y):
    gross = X.div(X.mul(a, y), X.add(x, a))
    com = X.div(X.scale(gross, 3), INT(1000))
    net = X.sub(gross, com)
    ideals = [X.div(X.mul(a, X.div(X.scale(y, E18), x)), INT(E18)), X.div(X.mul(a, y), x)]
    spreads = []
    for t in ideals:
        d = X.sub(t, gross)
        neg = X.lt(t, gross)
        spreads.append(X.mkgamma([(neg, ZERO), (B.neg(neg), d)]))
    return gross, com, net, spreads


def receiver(s):
    to = s.hook["to"]
    return X.lift(lambda v: s.trader if v.args[1] == 0 else v.args[2], to)


TOKENPAIRS = ("TT", "TN", "NT")


def C01(c):
    for kinds in TOKENPAIRS + ("NN",):
        s, r = swap_run(kinds)
        c.ran(r, "pair %s, Receive{Swap}" % kinds)
        if kinds != "NN":
            c.live(r, kinds)
        c.always(r, "caller", kinds, B.disj(s.is_asset(0), s.is_asset(1)))
        for i in (0, 1):
            g = B.conj(r.ok, s.is_asset(i))
            if g == B.F:
                continue
            a = r.attributes()
            c.attrs(r, "credited", "%s offer %d" % (kinds, i), {"offer_asset": s.names[i], "offer_amount": inttext(s.a)},
                    under=s.is_asset(i))
            net = swap_spec(s, i)[2]
            z = X.inteq(net, ZERO)
            want = X.mkgamma([(z, I.lst([])), (B.neg(z), I.lst([s.submsg(s.pay(1 - i, receiver(s), net))]))])
            c.msgs(r, "payout", "%s offer %d" % (kinds, i), want, under=s.is_asset(i))
    # every other message: no payout of reserves
    other_payouts(c)


def other_payouts(c):
    """no execute message other than Receive sends anything to anyone but the pair itself or the LP token"""
    for kinds in ("TT", "TN", "NT", "NN"):
        probe = Pair(kinds)
        vs = [v[0] for v in probe.it.T[probe.type("ExecuteMsg")]["variants"]]
        for vn in vs:
            if vn == "Receive":
                continue
            s = Pair(kinds, [(r"^sym:info\|funds$", r"::Vec$", 1)])
            m = s.make("ExecuteMsg", vn)
            r = s.entry("execute", m)
            c.ran(r, "pair %s, %s" % (kinds, vn))
            for g, l in X.alts(r.messages()) if r.ok != B.F else []:
                for sm in l.args[0] if l.op == "list" else [l]:
                    no_outflow(c, s, r, B.conj(r.ok, g), sm, "%s %s" % (kinds, vn))
    # hook messages other than Swap
    s = Pair("TN")
    for nm, dv, fl in s.it.T[s.type("Cw20HookMsg")]["variants"]:
        if nm in ("Swap", "WithdrawLiquidity"):
            continue
        s = Pair("TN", hook_shapes(nm))
        m, _, _, _ = cw20msg(s)
        r = s.entry("execute", m)
        c.ran(r, "pair TN, hook " + nm)
        for g, l in X.alts(r.messages()) if r.ok != B.F else []:
            for sm in l.args[0] if l.op == "list" else [l]:
                no_outflow(c, s, r, B.conj(r.ok, g), sm, "hook " + nm)


def no_outflow(c, s, r, g, sm, inst):
    """the submessage moves no reserve of the pair to another account: it is a TransferFrom into the pair itself or a
    mint by the LP token"""
    for h, x in X.expand(sm, 256):
        k = B.conj(g, h)
        if k == B.F or not X.sat(k):
            continue
        m = fld(x, "msg")
        good = False
        if vname(m) == "Wasm" and vname(m.args[2]) == "Execute":
            e = fields(m.args[2])
            j = e["msg"]
            if j.op == "json" and j.args[0].endswith("Cw20ExecuteMsg"):
                v, fs = vname(j.args[1]), fields(j.args[1])
                if v == "TransferFrom":
                    good = not X.sat(B.conj(k, B.neg(X.streq(fs["recipient"], s.self_addr)))) and \
                        not X.sat(B.conj(k, B.neg(X.streq(fs["owner"], s.sender))))
                elif v == "Mint":
                    good = X.equal_under(e["contract_addr"], s.lp, k) is None
            good = good and e["funds"].op == "list" and not e["funds"].args[0]
        c.ob("no-payout", inst, good, lambda: "message %s may release reserves when %s" % (X.show(x)[:400], wit(k)), r.where())


def withdraw_run(kinds, **k):
    s = Pair(kinds, hook_shapes("WithdrawLiquidity"), **k)
    m, snd, amt, raw = cw20msg(s)
    r = s.entry("execute", m)
    s.trader, s.a = snd, amt
    s.is_lp = X.streq(fld(s.raw, "liquidity_token"), X.mkcanon(s.sender))
    return s, r


def refund(s, i):
    """admissible refunds of asset i"""
    b, a, S = s.bal[i], s.a, s.supply
    return [X.div(X.mul(b, X.div(X.scale(a, E18), S)), INT(E18)), X.div(X.mul(b, a), S)]


ALL = ("TT", "TN", "NT", "NN")


def C02(c):
    for kinds in ALL:
        s, r = withdraw_run(kinds)
        c.ran(r, "pair %s, Receive{WithdrawLiquidity}" % kinds)
        c.live(r, kinds)
        c.always(r, "caller", kinds, s.is_lp)
        refunds_to(c, s, r, kinds, amounts=False)
    other_payouts(c)


def refunds_to(c, s, r, kinds, amounts=True):
    """messages: both refunds and the burn"""
    burn = s.submsg(s.m_exec(s.lp, s.json("Cw20ExecuteMsg", "Burn", amount=s.a)))
    # the two admissible roundings, applied to both assets alike
    alts_ = [I.lst([s.submsg(s.pay(0, s.trader, refund(s, 0)[k])), s.submsg(s.pay(1, s.trader, refund(s, 1)[k])), burn])
             for k in (0, 1)]
    best = None
    for w in alts_:
        sub = Check(c.pid)
        sub.msgs(r, "refund", kinds, w)
        if not sub.violations:
            best = sub
            break
        best = best or sub
    c.absorb(best)


def C03(c):
    for kinds in TOKENPAIRS:
        s, r = swap_run(kinds)
        c.ran(r, "pair %s, Receive{Swap}" % kinds)
        for i in (0, 1):
            g = s.is_asset(i)
            if B.conj(g, r.ok) == B.F:
                if kinds[i] == "T":
                    c.ob("reachable", "%s offer %d" % (kinds, i), False, "no swap of this asset succeeds", r.where())
                continue
            gross, com, net, spreads = swap_spec(s, i)
            inst = "%s offer %d" % (kinds, i)
            z = X.inteq(net, ZERO)
            paid = X.mkgamma([(z, ZERO), (B.neg(z), net)])
            c.same(r, "payout-amount", inst, paid_amount(s, r, 1 - i), paid, under=g)
            c.attrs(r, "formula", inst, {"return_amount": inttext(net), "commission_amount": inttext(com),
                                         "spread_amount": [inttext(x) for x in spreads]}, under=g)


def paid_amount(s, r, j):
    """total of asset j the response sends out"""
    def one(sm):
        def f(x):
            m = fld(x, "msg")
            if vname(m) == "Bank" and vname(m.args[2]) == "Send":
                return X.lift(lambda l: total(s, l, j), fields(m.args[2])["amount"])
            if vname(m) == "Wasm" and vname(m.args[2]) == "Execute":
                jj = fields(m.args[2])["msg"]
                if jj.op == "json" and vname(jj.args[1]) in ("Transfer", "Send"):
                    return fields(jj.args[1])["amount"]
            return ZERO
        return X.lift(f, sm)

    def total(s, l, j):
        t = ZERO
        for cn in l.args[0]:
            t = X.add(t, fld(cn, "amount"))
        return t

    def lists(l):
        t = ZERO
        for sm in l.args[0]:
            t = X.add(t, one(sm))
        return t
    return X.lift(lists, r.messages())


def C04(c):
    for kinds in TOKENPAIRS:
        s, r = swap_run(kinds)
        c.ran(r, "pair %s, Receive{Swap}" % kinds)
        c.live(r, kinds)
        for i in (0, 1):
            g = s.is_asset(i)
            if B.conj(g, r.ok) == B.F:
                continue
            net = swap_spec(s, i)[2]
            z = X.inteq(net, ZERO)
            want = X.mkgamma([(z, I.lst([])), (B.neg(z), I.lst([s.submsg(s.pay(1 - i, receiver(s), net))]))])
            c.msgs(r, "payment", "%s offer %d" % (kinds, i), want, under=g)
        c.store_only(r, "state", kinds)


def C06(c):
    for kinds in ALL:
        s, r = withdraw_run(kinds)
        c.ran(r, "pair %s, Receive{WithdrawLiquidity}" % kinds)
        c.live(r, kinds)
        refunds_to(c, s, r, kinds)
        c.store_only(r, "state", kinds)


# ------------------------------------------------------------------------------------------------ provision

class Provide:
    """execute ProvideLiquidity with arbitrary assets, funds, tolerance and receiver"""

    def __init__(self, kinds, funds=None, shapes=()):
        sh = list(shapes)
        if funds is not None:
            sh.append((r"^sym:info\|funds$", r"::Vec$", funds))
        s = self.s = Pair(kinds, sh)
        b = mk("sym", "msg")
        ms = dict((vname(v), v) for _, v in X.alts(s.fresh("ExecuteMsg", b)))
        if "ProvideLiquidity" not in ms:
            raise Problem("anchor missing: pair ExecuteMsg::ProvideLiquidity")
        self.msg = ms["ProvideLiquidity"]
        f = fields(self.msg)
        self.assets = f["assets"].args[0]
        self.amounts = [fld(a, "amount") for a in self.assets]
        self.tol, self.receiver = f["slippage_tolerance"], f["receiver"]
        self.info = s.fresh("MessageInfo", s.info_b)
        self.fund_alts = X.alts(fld(self.info, "funds"))
        # the bank module never attaches two coins of one denomination
        for g, l in self.fund_alts:
            for x, y in itertools.combinations(l.args[0], 2):
                s.assume(B.neg(B.conj(g, X.streq(fld(x, "denom"), fld(y, "denom")))))
        for i in (0, 1):
            X.ALIAS[self.amounts[i]] = "amount%d" % i
        self.match = [[X.eq(fld(a, "info"), s.infos[i]) for i in (0, 1)] for a in self.assets]
        self.given = B.conj(*[B.disj(self.match[0][i], self.match[1][i]) for i in (0, 1)])
        self.dep = [X.mkgamma([(self.match[0][i], self.amounts[0]), (B.neg(self.match[0][i]), self.amounts[1])]) for i in (0, 1)]
        self.pool = [X.sub(s.bal[i], self.dep[i]) if kinds[i] == "N" else s.bal[i] for i in (0, 1)]
        self.r = s.entry("execute", self.msg, self.info)

    def attached(self, denom):
        """amount of the attached coin of a denomination (zero if none)"""
        out = []
        for g, l in self.fund_alts:
            rest = g
            for c in l.args[0]:
                h = X.streq(fld(c, "denom"), denom)
                out.append((B.conj(rest, h), fld(c, "amount")))
                rest = B.conj(rest, B.neg(h))
            out.append((rest, ZERO))
        return X.mkgamma(out)

    def native_ok(self):
        """every declared native asset comes with exactly the declared coins"""
        r = B.T
        for a in self.assets:
            for g, i in X.alts(fld(a, "info")):
                if vname(i) == "NativeToken":
                    r = B.conj(r, B.disj(B.neg(g), X.inteq(fld(a, "amount"), self.attached(fields(i)["denom"]))))
        return r

    def orders(self):
        """the two ways of giving the pool's assets"""
        return [B.conj(self.match[0][0], self.match[1][1]), B.conj(self.match[0][1], self.match[1][0])]

    def to(self):
        return X.lift(lambda v: self.s.sender if v.args[1] == 0 else v.args[2], self.receiver)

    def later_share(self):
        p = self.pool
        return [X.div(X.mul(self.dep[i], self.s.supply), p[i]) for i in (0, 1)]

    def first_share(self):
        return X.sqrt(X.mul(self.dep[0], self.dep[1]))


def is_mint(s, sm):
    m = fld(sm, "msg")
    if vname(m) == "Wasm" and vname(m.args[2]) == "Execute":
        j = fields(m.args[2])["msg"]
        return j.op == "json" and vname(j.args[1]) == "Mint"
    return False


def split_messages(s, r):
    """[(guard, [mints], [others])] over the alternatives of the response's messages"""
    out = []
    for g, l in X.expand(r.messages(), 256):
        if B.conj(g, r.ok) == B.F:
            continue
        if l.op != "list":
            raise Problem("messages of unknown shape in %s" % r.where())
        ms = [x for x in l.args[0] if is_mint(s, x)]
        out.append((g, ms, [x for x in l.args[0] if not is_mint(s, x)]))
    return out


# ------------------------------------------------------------------------------------------------ maximum spread

def isnone(v):
    return X.liftb(lambda x: B.T if x.args[1] == 0 else B.F, v)


def someval(v):
    """payload of an Option (only meaningful where it is Some)"""
    return X.mkgamma([(g, x.args[2]) for g, x in X.alts(v) if x.args[1] == 1])


def nz(t):
    return B.neg(X.lt(t, ONE))


def spread_rules(offer0, ret0, spread0, o, q, bp, ms):
    """(accept condition, condition under which every intermediate amount is representable)"""
    up, dn = X.lt(q, o), X.lt(o, q)

    def sc(cond, d, v):
        return X.mkgamma([(cond, X.mul(v, X.power(INT(10), d))), (B.neg(cond), v)])
    offer = sc(dn, X.sub(q, o), offer0)
    ret, spread = sc(up, X.sub(o, q), ret0), sc(up, X.sub(o, q), spread0)
    has, hasb = B.neg(isnone(ms)), B.neg(isnone(bp))
    m, p = someval(ms), someval(bp)
    exp = X.div(X.scale(offer, E18), p)
    short = X.lt(ret, exp)
    over1 = B.conj(short, X.lt(m, X.div(X.scale(X.sub(exp, ret), E18), exp)))
    tot = X.add(ret, spread)
    over2 = X.lt(m, X.div(X.scale(spread, E18), tot))
    accept = B.disj(B.neg(has), B.conj(has, hasb, B.neg(over1)), B.conj(has, B.neg(hasb), B.neg(over2)))
    fits = B.disj(B.neg(has), B.conj(has, hasb, nz(p)), B.conj(has, B.neg(hasb), nz(tot)))
    for v in (offer, ret, spread):
        fits = B.conj(fits, X.lt(v, INT(1 << 128)))
    return accept, fits


SPREAD_FN = "contract::assert_max_spread"


def C05(c):
    # 1. the check itself, for arbitrary amounts, decimals and limits
    s = Scen("halo_pair")
    k, rec = s.fn(SPREAD_FN)
    if len(rec["inputs"]) != 7:
        raise Problem("anchor changed: %s" % k)
    names = ["belief", "max", "offer", "return", "spread", "offer_decimals", "return_decimals"]
    args = [s.it.fresh(t, mk("sym", n)) for t, n in zip(rec["inputs"], names)]
    r = s.call(SPREAD_FN, *args)
    c.ran(r, "assert_max_spread on arbitrary inputs")
    bp, ms, spread, o, q = args[0], args[1], args[4], args[5], args[6]
    accept, fits = spread_rules(fld(args[2], "amount"), fld(args[3], "amount"), spread, o, q, bp, ms)
    has, hasb = B.neg(isnone(ms)), B.neg(isnone(bp))
    for nm, g in (("no limit", B.neg(has)), ("limit only", B.conj(has, B.neg(hasb))), ("limit and belief price", B.conj(has, hasb))):
        for dn, h in (("offer has more decimals", X.lt(q, o)), ("offer has fewer decimals", X.lt(o, q)),
                      ("same decimals", X.inteq(o, q))):
            u = B.conj(g, h)
            c.live(r, "%s, %s" % (nm, dn), u)
            c.always(r, "limit", "%s, %s" % (nm, dn), accept, under=u)
            c.never_err(r, "within-limit", "%s, %s" % (nm, dn), B.conj(accept, fits, u))
    # 2. every successful swap is within the limits of its message, and no swap within them is rejected for its spread
    for kinds in TOKENPAIRS:
        s, r = swap_run(kinds)
        c.ran(r, "pair %s, Receive{Swap}" % kinds)
        bp, ms = s.hook["belief_price"], s.hook["max_spread"]
        has, hasb = B.neg(isnone(ms)), B.neg(isnone(bp))
        net, spread = num_attr(r, "return_amount"), num_attr(r, "spread_amount")
        over = B.disj(*[B.conj(g, h) for g, e in r.errs for h, x in X.alts(e) if "MaxSpreadAssertion" in X.show(x)[:60]])
        c.ob("limit-live", kinds, X.sat(over), "no swap is ever rejected for its spread", r.where())
        for i in (0, 1):
            if not X.sat(B.conj(r.ok, s.is_asset(i))):
                continue
            o, q = s.dec[i], s.dec[1 - i]
            accept, fits = spread_rules(s.a, net, spread, o, q, bp, ms)
            ideal_net, spreads = swap_spec(s, i)[2:4]
            both = B.T
            for sp in spreads:
                a, f = spread_rules(s.a, ideal_net, sp, o, q, bp, ms)
                both = B.conj(both, a, f)
            for nm, g in (("limit only", B.conj(has, B.neg(hasb))), ("limit and belief price", B.conj(has, hasb))):
                for dn, h in (("offer has more decimals", X.lt(q, o)), ("offer has fewer decimals", X.lt(o, q)),
                              ("same decimals", X.inteq(o, q))):
                    u = B.conj(s.is_asset(i), g, h)
                    inst = "%s offer %d, %s, %s" % (kinds, i, nm, dn)
                    c.live(r, inst, u)
                    c.always(r, "within-limit", inst, accept, under=u)
                    bad = B.conj(over, u, both)
                    c.ob("not-rejected", inst, not X.sat(bad, B.support(both)), lambda: "rejected for its spread although it is within the limit, when " + wit(bad), r.where())


def num_attr(r, key):
    """numeric value of a response attribute"""
    out = []
    for g, l in X.alts(r.attributes()):
        vs = [fld(x, "value") for x in l.args[0] if fld(x, "key") is STR(key)]
        if len(vs) != 1:
            raise Problem("attribute %s occurs %d times in %s" % (key, len(vs), r.where()))
        for h, v in X.alts(vs[0]):
            t = X.text_of(v)
            if t is None:
                raise Problem("attribute %s is not a number: %s" % (key, X.show(v)[:200]))
            out.append((B.conj(g, h), t))
    return X.mkgamma(out)


# ------------------------------------------------------------------------------------------------ provision checks

FUNDS = (0, 1, 2)


def C07(c):
    for kinds in ALL:
        for n in bounds.lengths(c, "halo_pair", FUNDS if "N" in kinds or c.thorough else (0, 1)):
            p = Provide(kinds, n)
            s, r = p.s, p.r
            inst = "%s, %d coins" % (kinds, n)
            c.ran(r, "pair %s, ProvideLiquidity with %d attached coins" % (kinds, n))
            if n >= kinds.count("N"):
                c.live(r, inst)
            c.always(r, "both-assets", inst, p.given)
            c.always(r, "native-exact", inst, p.native_ok())
            pulls = [s.submsg(s.m_exec(s.names[i], s.json("Cw20ExecuteMsg", "TransferFrom", owner=s.sender,
                                                          recipient=s.self_addr, amount=p.dep[i])))
                     for i in (0, 1) if kinds[i] == "T"]
            for g, mints, others in split_messages(s, r):
                k = B.conj(r.ok, g)
                if not X.sat(k):
                    continue
                c.ob("one-mint", inst, len(mints) == 1, lambda: "%d mints when %s" % (len(mints), wit(k)), r.where())
                c.listeq("collect", inst, others, pulls, k, r.where())
            c.store_only(r, "state", inst)


def C08(c):
    for kinds in ALL:
        for n in (kinds.count("N"),) if not c.thorough else FUNDS:
            for wl in bounds.lengths(c, "halo_pair", (0, 1, 2) if not c.thorough else (0, 1, 2, 3, 4)):
                p = Provide(kinds, n, [(r"^stored:pair_info\|requirements\.whitelist$", r"::Vec$", wl)])
                s, r = p.s, p.r
                inst = "%s, whitelist of %d" % (kinds, wl)
                c.ran(r, "pair %s, ProvideLiquidity, %d coins, whitelist of %d" % (kinds, n, wl))
                req = fld(s.raw, "requirements")
                first = X.lt(s.supply, ONE)
                members = fld(req, "whitelist")
                white = B.F
                for m in members.args[0]:
                    white = B.disj(white, X.streq(m, s.sender))
                if wl and n >= kinds.count("N"):
                    c.live(r, inst, first)
                c.always(r, "whitelist", inst, white, under=first)
                for j, o in enumerate(p.orders()):
                    u = B.conj(first, o)
                    for i, f in ((0, "first_asset_minimum"), (1, "second_asset_minimum")):
                        c.always(r, "minimum", "%s, order %d, asset %d" % (inst, j, i), X.le(fld(req, f), p.dep[i]), under=u)
                    minted(c, p, r, "first-share", "%s, order %d" % (inst, j), p.first_share(), u)
                    # an account on the list whose deposit meets the minimums gets in
                    if n >= kinds.count("N"):
                        meets = [X.le(fld(req, f), p.dep[i]) for i, f in enumerate(("first_asset_minimum", "second_asset_minimum"))]
                        c.never_err(r, "let-in", "%s, order %d" % (inst, j),
                                    B.conj(u, white, *meets, p.native_ok(), isnone(p.tol), nz(p.first_share()),
                                           X.le(ZERO, p.pool[0]), X.le(ZERO, p.pool[1])))
                    # once shares exist nothing depends on the gate
                    q = p.later_share()
                    free = B.conj(B.neg(first), o, p.native_ok(), isnone(p.tol), nz(q[0]), nz(q[1]), nz(p.pool[0]), nz(p.pool[1]))
                    if n >= kinds.count("N"):
                        c.live(r, "%s, order %d, later" % (inst, j), B.conj(B.neg(first), o, B.neg(white)))
                    c.never_err(r, "not-gated", "%s, order %d" % (inst, j), free)


def mint_amounts(p, r, under):
    """[(amount, condition)] of the mints"""
    out = []
    for g, mints, others in split_messages(p.s, r):
        k = B.conj(r.ok, g, under)
        if X.sat(k):
            for m in mints:
                for h, v in X.alts(fields(fields(fld(m, "msg").args[2])["msg"].args[1])["amount"]):
                    if B.conj(k, h) != B.F:
                        out.append((v, B.conj(k, h)))
    return out


def minted(c, p, r, rule, inst, share, under):
    """the amount of every mint is `share`"""
    s = p.s
    for g, mints, others in split_messages(s, r):
        k = B.conj(r.ok, g, under)
        if not X.sat(k):
            continue
        for m in mints:
            a = fields(fields(fld(m, "msg").args[2])["msg"].args[1])["amount"]
            c.same(r, rule, inst, a, share, under=k)
        c.ob(rule, inst + " once", len(mints) == 1, "%d mints" % len(mints), r.where())


def C09(c):
    for kinds in ALL:
        n = kinds.count("N")
        p = Provide(kinds, n)
        s, r = p.s, p.r
        c.ran(r, "pair %s, ProvideLiquidity with %d attached coins" % (kinds, n))
        later = nz(s.supply)
        c.live(r, kinds, later)
        for j, o in enumerate(p.orders()):
            u = B.conj(later, o)
            q = p.later_share()
            inst = "%s, order %d" % (kinds, j)
            c.live(r, inst, u)
            for v, k in mint_amounts(p, r, u):
                for i in (0, 1):
                    c.always(r, "share-at-most", "%s, side %d" % (inst, i), X.le(v, q[i]), under=k)
                c.always(r, "share-is-smaller-side", inst, B.disj(X.inteq(v, q[0]), X.inteq(v, q[1])), under=k)
        for v, k in mint_amounts(p, r, B.T):
            c.always(r, "non-zero", kinds, nz(v), under=k)
        for g, mints, others in split_messages(s, r):
            k = B.conj(r.ok, g)
            if not X.sat(k):
                continue
            c.ob("one-mint", kinds, len(mints) == 1, "%d mints" % len(mints), r.where())
            for m in mints:
                a = fields(fields(fld(m, "msg").args[2])["msg"].args[1])["amount"]
                want = s.submsg(s.m_exec(s.lp, s.json("Cw20ExecuteMsg", "Mint", recipient=p.to(), amount=a)))
                c.same(r, "mint", kinds, m, want, under=k)


def C10(c):
    for kinds in ALL:
        n = kinds.count("N")
        p = Provide(kinds, n)
        s, r = p.s, p.r
        c.ran(r, "pair %s, ProvideLiquidity with %d attached coins" % (kinds, n))
        t = someval(p.tol)
        given = B.neg(isnone(p.tol))
        c.always(r, "at-most-one", kinds, X.le(t, INT(E18)), under=given)
        for j, o in enumerate(p.orders()):
            inst = "%s, order %d" % (kinds, j)
            u = B.conj(given, o)
            c.live(r, inst, u)
            inside = X.le(t, INT(E18))
            for a, b in ((0, 1), (1, 0)):
                dr = X.div(X.scale(p.dep[a], E18), p.dep[b])
                pr = X.div(X.scale(p.pool[a], E18), p.pool[b])
                lim = X.le(X.div(X.mul(dr, X.sub(INT(E18), t)), INT(E18)), pr)
                c.always(r, "limit", "%s, ratio %d/%d" % (inst, a, b), lim, under=u)
                inside = B.conj(inside, lim)
            q = p.later_share()
            fine = B.conj(inside, u, p.native_ok(), nz(s.supply), nz(q[0]), nz(q[1]), nz(p.pool[0]), nz(p.pool[1]),
                          nz(p.dep[0]), nz(p.dep[1]))
            c.never_err(r, "within-limit", inst, fine)


# ------------------------------------------------------------------------------------------------ configuration, queries

PAIR_CELL = ("item", "pair_info")
VERSION_CELL = ("item", "contract_info")


def stored_value(r, cell):
    """value of a storage cell after the call"""
    v = r.store.get(cell)
    return v if v is not None else r.it.init_store(cell)


def same_parts(c, r, rule, inst, value, want, under=None):
    """each named field of a structure value"""
    for k, w in want.items():
        c.same(r, rule, "%s %s" % (inst, k), fld(value, k), w, under)


def pair_entries():
    """every way into a pair contract after instantiation: (label, run)"""
    for kinds in ALL:
        s = Pair(kinds)
        for vn in variants(s, "ExecuteMsg"):
            if vn == "Receive":
                for h in variants(s, "Cw20HookMsg"):
                    s2 = Pair(kinds, hook_shapes(h))
                    m, _, _, _ = cw20msg(s2)
                    yield "%s Receive/%s" % (kinds, h), s2, s2.entry("execute", m, s2.fresh("MessageInfo", s2.info_b))
            else:
                s2 = Pair(kinds, [(r"^sym:info\|funds$", r"::Vec$", kinds.count("N"))])
                yield "%s %s" % (kinds, vn), s2, s2.entry("execute", pick(s2, "execute", vn))
        for vn in variants(s, "QueryMsg"):
            s2 = Pair(kinds)
            yield "%s query %s" % (kinds, vn), s2, s2.entry("query", pick(s2, "query", vn))


def variants(s, ty):
    return [v[0] for v in s.it.T[s.type(ty)]["variants"]]


def pick(s, entry, vn, base="msg"):
    """arbitrary message of one variant of an entry point's message type"""
    k, rec = s.fn("contract::" + entry)
    v = s.it.fresh(rec["inputs"][-1], mk("sym", base))
    for g, x in X.alts(v):
        if vname(x) == vn:
            return x
    raise Problem("anchor missing: %s message %s" % (entry, vn))


def accepted_metadata(c, r, t):
    """name, symbol and decimals are ones the token contract's instantiation accepts (C34)"""
    c.same(r, "lp-metadata", "decimals", t["decimals"], INT(6))
    for f, top in (("name", 50), ("symbol", 12)):
        n = X.mklen(t[f])
        c.always(r, "lp-metadata", f + " length", B.conj(X.le(INT(3), n), X.le(n, INT(top))))
    for g, x in X.alts(t["symbol"]):
        if X.sat(B.conj(r.ok, g)):
            c.ob("lp-metadata", "symbol", x.op == "str" and all(ch.isascii() and ch.isalpha() or ch == "-" for ch in x.args[0]),
                 lambda: "symbol may be refused by the token contract: " + X.show(x)[:200], r.where())


def C11(c):
    # instantiation
    s = Scen("halo_pair")
    k, rec = s.fn("contract::instantiate")
    m = s.it.fresh(rec["inputs"][-1], mk("sym", "msg"))
    r = s.entry("instantiate", m)
    c.ran(r, "pair instantiate")
    c.live(r, "instantiate")
    v = stored_value(r, PAIR_CELL)
    infos = fld(m, "asset_infos").args[0]
    raw = [X.lift(lambda x: s.make("AssetInfoRaw", "Token", contract_addr=X.mkcanon(fields(x)["contract_addr"]))
                  if vname(x) == "Token" else s.make("AssetInfoRaw", "NativeToken", denom=fields(x)["denom"]), i) for i in infos]
    same_parts(c, r, "stored", "instantiate", under_ok(r, v), {
        "asset_infos": mk("list", tuple(raw)), "asset_decimals": fld(m, "asset_decimals"),
        "requirements": fld(m, "requirements"), "contract_addr": X.mkcanon(s.self_addr)})
    sm = only_message(c, r, "lp-token", "instantiate")
    rid = None
    if sm is not None:
        w = fld(sm, "msg")
        good = vname(w) == "Wasm" and vname(w.args[2]) == "Instantiate"
        if c.ob("lp-token", "instantiate message", good, "the message is not a contract instantiation", r.where()):
            f = fields(w.args[2])
            c.same(r, "lp-token", "code id", f["code_id"], fld(m, "token_code_id"))
            j = f["msg"]
            if c.ob("lp-token", "payload", j.op == "json" and j.args[0].endswith("token::InstantiateMsg"),
                    "payload is not a token instantiation: " + X.show(j)[:200], r.where()):
                t = fields(j.args[1])
                c.same(r, "lp-token", "minter", t["mint"], I.some(s.make("MinterResponse", minter=s.self_addr, cap=I.NONE)))
                c.same(r, "lp-token", "initial balances", t["initial_balances"], mk("list", ()))
                accepted_metadata(c, r, t)
        on = fld(sm, "reply_on")
        c.ob("lp-token", "reply requested", vname(on) in ("Success", "Always"), "no reply on success is requested: %s" % X.show(on), r.where())
        rid = fld(sm, "id")
    c.store_only(r, "state", "instantiate", (PAIR_CELL, VERSION_CELL))
    # reply
    for kinds in ALL:
        s = Pair(kinds)
        k, rec = s.fn("contract::reply")
        m = s.it.fresh(rec["inputs"][-1], mk("sym", "msg"))
        if rid is not None:
            m = setfld(m, "id", rid)
        r = s.entry("reply", m)
        c.ran(r, "pair %s reply" % kinds)
        c.live(r, "reply " + kinds)
        before = s.raw
        want = {f: fld(before, f) for f in ("asset_infos", "contract_addr", "asset_decimals", "requirements")}
        want["liquidity_token"] = X.mkcanon(mkfld(mk("sym", "instantiated"), "contract_address"))
        same_parts(c, r, "reply", kinds, under_ok(r, stored_value(r, PAIR_CELL)), want)
        c.store_only(r, "reply-state", kinds, (PAIR_CELL,))
        c.ob("reply-messages", kinds, r.messages().op == "list" and not r.messages().args[0], "reply sends messages", r.where())
        r = s.entry("migrate", s.it.fresh(s.fn("contract::migrate")[1]["inputs"][-1], mk("sym", "msg")))
        c.ran(r, "pair %s migrate" % kinds)
        c.store_only(r, "migrate-state", kinds, (VERSION_CELL,))
    for label, s, r in pair_entries():
        c.ran(r, "pair " + label)
        c.store_only(r, "state", label)


def setfld(v, name, x):
    fl = X.STRUCT[v.args[0]][v.args[1]][1]
    i = fl.index(name)
    return mk("agg", v.args[0], v.args[1], *(v.args[2:2 + i] + (x,) + v.args[3 + i:]))


def under_ok(r, v):
    """alternatives of v that are possible when the call succeeds"""
    out = [(g, x) for g, x in X.alts(v) if B.conj(g, r.ok) != B.F]
    if len(out) == 1:
        return out[0][1]
    return X.mkgamma([(B.conj(g, r.ok), x) for g, x in out])


def only_message(c, r, rule, inst):
    """the single submessage of the response"""
    l = under_ok(r, r.messages())
    good = l.op == "list" and len(l.args[0]) == 1 and l.args[0][0].op == "agg"
    c.ob(rule, inst + " one message", good, lambda: "expected exactly one message: " + X.show(l)[:300], r.where())
    return l.args[0][0] if good else None


def C12(c):
    for kinds in ALL:
        for i in (0, 1):
            s = Pair(kinds)
            a = mk("sym", "offer")
            X.RNG[a] = (0, (1 << 128) - 1)
            q = s.make("QueryMsg", "Simulation", offer_asset=s.make("Asset", info=s.infos[i], amount=a))
            r = s.entry("query", q)
            inst = "%s offer %d" % (kinds, i)
            c.ran(r, "pair %s, query Simulation of asset %d" % (kinds, i))
            c.live(r, inst)
            resp = payload(c, r, "SimulationResponse", inst)
            if resp is None:
                continue
            if kinds[i] == "T":
                # the swap of the same offer against the same reserves, i.e. with the offer already received
                s2, w = swap_run(kinds)
                c.ran(w, "pair %s, Receive{Swap}" % kinds)
                mp = {s.bal[i]: X.add(s.bal[i], a), s2.a: a, s.sender: s.names[i]}
                lim = B.conj(isnone(s2.hook["max_spread"]), isnone(s2.hook["belief_price"]), isnone(s2.hook["to"]))
                gs = X.substg(B.conj(w.ok, lim), mp)
                c.ob("reachable", inst + " swap", X.sat(gs), "no swap succeeds", w.where())
                for k in ("return_amount", "spread_amount", "commission_amount"):
                    v = X.substitute(num_attr(w, k), mp)
                    c.same(r, "agrees", inst + " " + k, fld(resp, k), v, under=gs)
                bad = B.conj(gs, r.nofail, B.neg(r.ok))
                c.ob("answers", inst, not X.sat(bad, B.support(r.ok)),
                     lambda: "the swap succeeds but its simulation fails when " + wit(bad), r.where())
            else:
                gross, com, net, spreads = formula(a, s.bal[i], s.bal[1 - i])
                for k, v in (("return_amount", net), ("spread_amount", spreads), ("commission_amount", com)):
                    c.same(r, "agrees", inst + " " + k, fld(resp, k), v)
        foreign(c, kinds, "Simulation", "offer_asset")


def foreign(c, kinds, vn, f):
    """an asset outside the pair is refused"""
    s = Pair(kinds)
    b = mk("sym", "asked")
    x = s.fresh("Asset", b)
    r = s.entry("query", s.make("QueryMsg", vn, **{f: x}))
    c.ran(r, "pair %s, query %s of an arbitrary asset" % (kinds, vn))
    mine = B.disj(*[X.eq(fld(x, "info"), i) for i in s.infos])
    c.always(r, "foreign-asset", kinds, mine)


def payload(c, r, ty, inst):
    """value inside the query's JSON answer"""
    v = under_ok(r, r.value)
    good = v.op == "json" and v.args[0].endswith("::" + ty)
    c.ob("answer-type", inst, good, lambda: "the answer is not a %s: %s" % (ty, X.show(v)[:200]), r.where())
    return v.args[1] if good else None


INV = 10 ** 36 // (10 ** 18 - 3 * 10 ** 15)


def C13(c):
    for kinds in ALL:
        for i in (0, 1):
            s = Pair(kinds)
            b = mk("sym", "ask")
            X.RNG[b] = (0, (1 << 128) - 1)
            r = s.entry("query", s.make("QueryMsg", "ReverseSimulation", ask_asset=s.make("Asset", info=s.infos[i], amount=b)))
            inst = "%s ask %d" % (kinds, i)
            c.ran(r, "pair %s, query ReverseSimulation of asset %d" % (kinds, i))
            c.live(r, inst)
            resp = payload(c, r, "ReverseSimulationResponse", inst)
            if resp is None:
                continue
            y, x = s.bal[i], s.bal[1 - i]
            subs = []
            for pre in (X.div(X.scale(b, INV), INT(E18)), X.div(X.scale(b, 1000), INT(997))):
                offer = X.sub(X.div(X.mul(x, y), X.sub(y, pre)), x)
                com = X.div(X.scale(pre, 3), INT(1000))
                sp = []
                for ideal in (X.div(X.mul(offer, X.div(X.scale(y, E18), x)), INT(E18)), X.div(X.mul(offer, y), x)):
                    low = X.lt(ideal, pre)
                    sp.append(X.mkgamma([(low, ZERO), (B.neg(low), X.sub(ideal, pre))]))
                sub = Check(c.pid)
                sub.same(r, "formula", inst + " offer_amount", fld(resp, "offer_amount"), offer)
                sub.same(r, "formula", inst + " commission_amount", fld(resp, "commission_amount"), com)
                sub.same(r, "formula", inst + " spread_amount", fld(resp, "spread_amount"), sp)
                subs.append(sub)
                if not sub.violations:
                    break
            c.absorb(next((z for z in subs if not z.violations), subs[0]))
        foreign(c, kinds, "ReverseSimulation", "ask_asset")


def C14(c):
    for kinds in ALL:
        s = Pair(kinds)
        r = s.entry("query", s.make("QueryMsg", "Pool"))
        c.ran(r, "pair %s, query Pool" % kinds)
        c.live(r, kinds)
        p = payload(c, r, "PoolResponse", kinds)
        if p is not None:
            same_parts(c, r, "pool", kinds, p, {
                "assets": mk("list", tuple(s.make("Asset", info=s.infos[i], amount=s.bal[i]) for i in (0, 1))),
                "total_share": s.supply})
        r = s.entry("query", s.make("QueryMsg", "Pair"))
        c.ran(r, "pair %s, query Pair" % kinds)
        c.live(r, kinds)
        p = payload(c, r, "PairInfo", kinds)
        if p is not None:
            same_parts(c, r, "pair", kinds, p, {
                "asset_infos": mk("list", tuple(s.infos)), "contract_addr": s.self_addr, "liquidity_token": s.lp,
                "asset_decimals": fld(s.raw, "asset_decimals"), "requirements": fld(s.raw, "requirements")})
        for vn in variants(s, "QueryMsg"):
            r = s.entry("query", pick(s, "query", vn))
            c.store_only(r, "read-only", "%s %s" % (kinds, vn))


# ------------------------------------------------------------------------------------------------ events

def text_parts(t):
    """a text as a sequence of constant pieces, numbers and opaque pieces"""
    out = []
    for p in (t.args if t.op == "cat" else (t,)):
        if isinstance(p, tuple):
            out += [z for q in p for z in text_parts(q)]
        elif p.op == "str":
            out += [INT(int(z)) if z.isdigit() and (z == "0" or z[0] != "0") else STR(z)
                    for z in re.split(r"(?<![0-9])([0-9]+)(?![0-9])", p.args[0]) if z]
        elif p.op == "inttext":
            out.append(p.args[0])
        else:
            out.append(p)
    return out


def text_same(c, r, rule, inst, got, want, under):
    """two texts agree piece by piece whenever the call succeeds under the condition"""
    for g1, x in X.expand(got, 256):
        a = B.conj(r.ok, under, g1)
        if a == B.F:
            continue
        for g2, y in X.expand(want, 256):
            b = B.conj(a, g2)
            if b == B.F or not X.sat(b):
                continue
            p, q = text_parts(x), text_parts(y)
            if len(p) != len(q):
                c.ob(rule, inst, False, lambda: "expected %s, found %s when %s" % (X.show(y)[:300], X.show(x)[:300], wit(b)), r.where())
                continue
            for u, v in zip(p, q):
                c.same(r, rule, inst, u, v, under=b)


def attr(r, key):
    """value of a response attribute that occurs exactly once"""
    out = []
    for g, l in X.alts(r.attributes()):
        if B.conj(g, r.ok) == B.F:
            continue
        vs = [fld(x, "value") for x in l.args[0] if fld(x, "key") is STR(key)]
        if len(vs) != 1:
            raise Problem("attribute %s occurs %d times in %s" % (key, len(vs), r.where()))
        out.append((g, vs[0]))
    return X.mkgamma(out)


def sent(s, r, j, to=None):
    """total of asset j leaving the pair in the response's messages (to anyone, or to `to`)"""
    def one(x):
        m = fld(x, "msg")
        v = m.args[2] if m.op == "agg" and len(m.args) > 2 else None
        if s.kinds[j] == "N" and vname(m) == "Bank" and vname(v) == "Send":
            f = fields(v)
            t = ZERO
            for cn in f["amount"].args[0]:
                t = X.add(t, when(X.streq(fld(cn, "denom"), s.names[j]), fld(cn, "amount")))
            return t if to is None else when(X.streq(f["to_address"], to), t)
        if s.kinds[j] == "T" and vname(m) == "Wasm" and vname(v) == "Execute":
            f = fields(v)
            jj = f["msg"]
            if jj.op == "json" and vname(jj.args[1]) in ("Transfer", "Send"):
                h = fields(jj.args[1])
                t = when(X.streq(f["contract_addr"], s.names[j]), h["amount"])
                return t if to is None else when(X.streq(h.get("recipient") or h.get("contract"), to), t)
        return ZERO

    def lists(l):
        t = ZERO
        for sm in l.args[0]:
            t = X.add(t, X.lift(one, sm))
        return t
    return X.lift(lists, r.messages())


def when(cond, v):
    return X.mkgamma([(cond, v), (B.neg(cond), ZERO)])


def execs(s, r, name):
    """[(condition, contract, message fields)] of the emitted token messages with the given name"""
    out = []
    for g, l in X.expand(r.messages(), 256):
        k = B.conj(r.ok, g)
        if k == B.F or not X.sat(k):
            continue
        for x in l.args[0]:
            m = fld(x, "msg")
            if vname(m) == "Wasm" and vname(m.args[2]) == "Execute":
                f = fields(m.args[2])
                if f["msg"].op == "json" and vname(f["msg"].args[1]) == name:
                    out.append((k, f["contract_addr"], fields(f["msg"].args[1])))
    return out


def C15(c):
    for kinds in TOKENPAIRS:
        s, r = swap_run(kinds)
        c.ran(r, "pair %s, Receive{Swap}" % kinds)
        for i in (0, 1):
            g = s.is_asset(i)
            if B.conj(g, r.ok) == B.F:
                continue
            inst = "%s, swap of asset %d" % (kinds, i)
            c.live(r, inst, g)
            c.same(r, "event", inst + " action", attr(r, "action"), STR("swap"), under=g)
            c.same(r, "event", inst + " sender", attr(r, "sender"), s.trader, under=g)
            c.same(r, "event", inst + " offer_asset", attr(r, "offer_asset"), s.names[i], under=g)
            c.same(r, "event", inst + " ask_asset", attr(r, "ask_asset"), s.names[1 - i], under=g)
            c.same(r, "event", inst + " offer_amount", num_attr(r, "offer_amount"), s.a, under=g)
            # what is reported as returned is what the response pays, to the account reported as the receiver
            c.same(r, "event", inst + " return_amount", num_attr(r, "return_amount"), sent(s, r, 1 - i, attr(r, "receiver")), under=g)
            c.same(r, "event", inst + " receiver", attr(r, "receiver"), receiver(s), under=g)
    for kinds in ALL:
        s, r = withdraw_run(kinds)
        c.ran(r, "pair %s, Receive{WithdrawLiquidity}" % kinds)
        inst = "%s, withdrawal" % kinds
        c.live(r, inst)
        c.same(r, "event", inst + " action", attr(r, "action"), STR("withdraw_liquidity"))
        c.same(r, "event", inst + " sender", attr(r, "sender"), s.trader)
        burns = execs(s, r, "Burn")
        for k, tok, f in burns:
            c.same(r, "event", inst + " withdrawn_share", num_attr(r, "withdrawn_share"), f["amount"], under=k)
        c.ob("event", inst + " burn", bool(burns), "nothing is burned", r.where())
        want = X.mkcat([inttext(sent(s, r, 0, s.trader)), s.names[0], STR(", "), inttext(sent(s, r, 1, s.trader)), s.names[1]])
        text_same(c, r, "event", inst + " refund_assets", attr(r, "refund_assets"), want, B.T)
    for kinds in ALL:
        p = Provide(kinds, kinds.count("N"))
        s, r = p.s, p.r
        c.ran(r, "pair %s, ProvideLiquidity" % kinds)
        inst = "%s, provision" % kinds
        c.live(r, inst)
        c.same(r, "event", inst + " action", attr(r, "action"), STR("provide_liquidity"))
        c.same(r, "event", inst + " sender", attr(r, "sender"), s.sender)
        c.same(r, "event", inst + " receiver", attr(r, "receiver"), p.to())
        mints = execs(s, r, "Mint")
        for k, tok, f in mints:
            c.same(r, "event", inst + " share", num_attr(r, "share"), f["amount"], under=k)
            c.same(r, "event", inst + " receiver of the mint", attr(r, "receiver"), f["recipient"], under=k)
        c.ob("event", inst + " mint", bool(mints), "nothing is minted", r.where())
        for j, o in enumerate(p.orders()):
            idx = (0, 1) if j == 0 else (1, 0)
            want = X.mkcat([inttext(p.amounts[0]), s.names[idx[0]], STR(", "), inttext(p.amounts[1]), s.names[idx[1]]])
            text_same(c, r, "event", "%s, order %d, assets" % (inst, j), attr(r, "assets"), want, o)
    for kinds in ALL:
        s = Pair(kinds)
        r = s.entry("reply", s.it.fresh(s.fn("contract::reply")[1]["inputs"][-1], mk("sym", "msg")))
        inst = "%s, registration of the LP token" % kinds
        c.ran(r, "pair %s reply" % kinds)
        c.live(r, inst)
        c.same(r, "event", inst, attr(r, "liquidity_token_addr"), mkfld(mk("sym", "instantiated"), "contract_address"))
