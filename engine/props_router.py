"""Properties of the router contract (C25-C29, C31, C32)."""
from scen import *
import bounds
from props_pair import KINDS, stored_value, same_parts, variants, pick, setfld, under_ok, only_message, payload, isnone, someval, nz
from props_factory import wasm_msgs

CONFIG = ("item", "config")
TWO = ("TT", "TN", "NT", "NN")


def hops_of(kinds):
    """'TN NT' = two operations, each offer then ask; '~TNT' = operations through three particular assets, one after the other,
    '~TNT!0' = the same where operation 0 asks another asset than operation 1 offers"""
    kinds = kinds.partition("!")[0]
    return [a + b for a, b in zip(kinds[1:], kinds[2:])] if kinds.startswith("~") else kinds.split()


def op_shapes(root, kinds):
    """an operation list with the given asset kinds"""
    ops = hops_of(kinds)
    sh = [(root + r".*operations$", r"::Vec$", len(ops))]
    for i, k in enumerate(ops):
        for j, side in enumerate(("offer_asset_info", "ask_asset_info")):
            at = root + r".*operations\.%d\.HaloSwap\.%s" % (i, side)
            if kinds.startswith("~"):
                stray = j and kinds.endswith("!%d" % i)
                sh.append((at + r"\.(Token\.contract_addr|NativeToken\.denom)$", r"::String$", STR("stray" if stray else "asset%d" % (i + j))))
            sh.append((at + "$", r"::AssetInfo$", KINDS[k[j]]))
    return sh


class Router(Scen):
    def __init__(self, shapes=(), **k):
        super().__init__("halo_router", shapes, **k)
        self.config = self.fresh("Config", mk("stored", STR("config")))
        self.factory = X.mkhuman(fld(self.config, "halo_factory"))
        X.ALIAS[self.sender] = "sender"
        X.ALIAS[self.self_addr] = "router"
        X.ALIAS[self.factory] = "factory"

    def balance(self, info, acct):
        def f(x):
            r = (self.r_cw20(fields(x)["contract_addr"], acct) if vname(x) == "Token" else
                 self.r_bank(acct, fields(x)["denom"]))
            X.RNG[r] = (0, (1 << 128) - 1)
            return r
        return X.lift(f, info)

    def pair_addr(self, a, b):
        q = self.q_smart(self.factory, self.json("factory::QueryMsg", "Pair", asset_infos=I.lst([a, b])))
        return mkfld(mk("resp", q), "contract_addr")

    def simulated(self, pair, vn, f, info, amount, out):
        q = self.q_smart(pair, self.json("pair::QueryMsg", vn, **{f: self.make("asset::Asset", info=info, amount=amount)}))
        r = mkfld(mk("resp", q), out)
        X.RNG[r] = (0, (1 << 128) - 1)
        return r

    def distinct_kinds(self, ops):
        """no denomination is spelled like a contract address"""
        infos = [x for o in ops for x in (fld(o, "offer_asset_info"), fld(o, "ask_asset_info"))]
        for a in infos:
            for b in infos:
                if vname(a) == "Token" and vname(b) == "NativeToken":
                    self.assume(B.neg(X.streq(a.args[2], b.args[2])))


def route(kinds, hook):
    """start of a route, directly or through a CW20 transfer: scenario, run, operations, starter, message fields"""
    if hook:
        s = Router(op_shapes(r"^decoded:.*router::Cw20HookMsg\|", kinds) +
                   [(r"^decoded:.*router::Cw20HookMsg\|$", r"::Cw20HookMsg$", "ExecuteSwapOperations")])
        m = pick(s, "execute", "Receive")
        b = mkfld(mk("sym", "msg"), "Receive")
        f = fields(m.args[2])
        d = mk("decoded", f["msg"], STR(s.tpath("router::Cw20HookMsg")))
        h = fields(s.it.fresh(s.type("router::Cw20HookMsg"), d))
        starter = f["sender"]
    else:
        s = Router(op_shapes(r"^sym:msg\|", kinds))
        m = pick(s, "execute", "ExecuteSwapOperations")
        h = fields(m)
        starter = s.sender
    ops = list(h["operations"].args[0]) if h["operations"].op == "list" else None
    if ops is None or len(ops) != len(hops_of(kinds)):
        raise Problem("anchor changed: the operations of a route are not a list")
    s.distinct_kinds(ops)
    return s, m, ops, starter, h


def kindsets(c, broken=False):
    yield ""
    for a in TWO:
        yield a
    if c.thorough:
        for a in TWO:
            for b in TWO:
                yield a + " " + b
        for a in itertools.product("TN", repeat=6):
            yield "%s%s %s%s %s%s" % a
    else:
        for k in ("TT TT", "NT TN", "TN NT", "NN NN", "TN TN", "TT TN TN", "NN NN NN", "TT TT TT", "NT TT TN"):
            yield k
    # long routes through particular assets: every length that the code can tell apart
    for n in bounds.lengths(c, "halo_router", (0, 1, 2, 3)) + [5]:
        if n > 3:
            yield "~" + ("TNNT" * n)[:n + 1]
            if broken:
                for i in range(n - 1):
                    yield "~%s!%d" % (("TNNT" * n)[:n + 1], i)


def C25(c):
    for k in TWO:
        s = Router(op_shapes(r"^sym:msg\|", k) + [(r"^sym:msg\|.*operation\.HaloSwap\.%s$" % side, r"::AssetInfo$", KINDS[k[j]])
                                                  for j, side in enumerate(("offer_asset_info", "ask_asset_info"))])
        r = s.entry("execute", pick(s, "execute", "ExecuteSwapOperation"))
        c.ran(r, "router ExecuteSwapOperation of %s" % k)
        c.live(r, k)
        c.always(r, "only-itself", k, X.streq(s.sender, s.self_addr))
    # no other message makes the router pay or swap by itself: everything it sends, it sends to itself
    for label, s, r in other_entries():
        c.ran(r, "router " + label)
        for g, l in X.alts(r.messages()):
            if B.conj(g, r.ok) == B.F:
                continue
            for sm in l.args[0]:
                for h, m in X.alts(fld(sm, "msg")):
                    u = B.conj(r.ok, g, h)
                    if u == B.F or not X.sat(u):
                        continue
                    if not c.ob("to-itself", label, vname(m) == "Wasm" and vname(m.args[2]) == "Execute",
                                lambda: "sends " + X.show(m)[:200], r.where()):
                        continue
                    c.same(r, "to-itself", label, fields(m.args[2])["contract_addr"], s.self_addr, under=u)


def other_entries():
    s0 = Router()
    for vn in variants(s0, "router::ExecuteMsg"):
        if vn == "ExecuteSwapOperation":
            continue
        if vn == "ExecuteSwapOperations":
            s, m, ops, st, h = route("TN NT", False)
        elif vn == "Receive":
            s, m, ops, st, h = route("TN NT", True)
        else:
            s = Router()
            m = pick(s, "execute", vn)
        yield vn, s, s.entry("execute", m)


def C26(c):
    for hook in (False, True):
        for kinds in kindsets(c):
            s, m, ops, starter, h = route(kinds, hook)
            r = s.entry("execute", m)
            inst = "%s route %s" % ("CW20" if hook else "direct", kinds or "empty")
            c.ran(r, "router " + inst)
            if not ops:
                continue
            c.live(r, inst)
            to = X.lift(lambda v: starter if v.args[1] == 0 else v.args[2], h["to"])
            hops = []
            for j, o in enumerate(ops):
                t = I.NONE if j + 1 < len(ops) else X.lift(I.some, to)
                hops.append(s.submsg(s.m_exec(s.self_addr, s.json("router::ExecuteMsg", "ExecuteSwapOperation", operation=o, to=t))))
            none = isnone(h["minimum_receive"])
            for g, l in X.expand(r.messages(), 256):
                u = B.conj(r.ok, g)
                if not X.sat(u):
                    continue
                if not c.ob("shape", inst, l.op == "list", "messages of unknown shape", r.where()):
                    continue
                ms = l.args[0]
                extra = len(ms) - len(hops)
                c.ob("hops", inst, extra in (0, 1), lambda: "%d messages for %d operations" % (len(ms), len(hops)), r.where())
                c.always(r, "hops", inst + " no check", none if extra == 0 else B.neg(none), under=u)
                for x, w in zip(ms, hops):
                    c.same(r, "hops", inst, x, w, under=u)
                for x in ms[len(hops):]:
                    good = is_check(x)
                    c.ob("nothing-else", inst, good, lambda: "the route also sends " + X.show(x)[:300], r.where())
            c.store_only(r, "state", inst)


def is_check(sm):
    m = fld(sm, "msg")
    if m.op == "agg" and vname(m) == "Wasm" and vname(m.args[2]) == "Execute":
        j = fields(m.args[2])["msg"]
        return j.op == "json" and vname(j.args[1]) == "AssertMinimumReceive"
    return False


def C27(c):
    for hook in (False, True):
        for kinds in kindsets(c):
            if not kinds:
                continue
            s, m, ops, starter, h = route(kinds, hook)
            s.assume(B.neg(isnone(h["minimum_receive"])))
            r = s.entry("execute", m)
            inst = "%s route %s" % ("CW20" if hook else "direct", kinds)
            c.ran(r, "router %s with a minimum" % inst)
            c.live(r, inst)
            to = X.lift(lambda v: starter if v.args[1] == 0 else v.args[2], h["to"])
            final = fld(ops[-1], "ask_asset_info")
            want = s.submsg(s.m_exec(s.self_addr, s.json(
                "router::ExecuteMsg", "AssertMinimumReceive", asset_info=final, prev_balance=s.balance(final, to) if to.op != "gamma" else
                X.lift(lambda t: s.balance(final, t), to), minimum_receive=someval(h["minimum_receive"]), receiver=to)))
            for g, l in X.expand(r.messages(), 256):
                u = B.conj(r.ok, g)
                if not X.sat(u):
                    continue
                if c.ob("last-message", inst, l.op == "list" and bool(l.args[0]), "no message is sent", r.where()):
                    c.same(r, "last-message", inst, l.args[0][-1], want, under=u)
    for k in ("Token", "NativeToken"):
        s = Router([(r"^sym:msg\|AssertMinimumReceive\.asset_info$", r"::AssetInfo$", k)])
        m = pick(s, "execute", "AssertMinimumReceive")
        f = fields(m)
        r = s.entry("execute", m)
        c.ran(r, "router AssertMinimumReceive of a " + k)
        c.live(r, k)
        now = s.balance(f["asset_info"], f["receiver"])
        gain = X.sub(now, f["prev_balance"])
        enough = X.le(f["minimum_receive"], gain)
        c.always(r, "enforced", k, enough)
        c.never_err(r, "accepted", k, enough)
        l = under_ok(r, r.messages())
        c.ob("no-message", k, l.op == "list" and not l.args[0], "the check sends messages", r.where())
        c.store_only(r, "state", k)


def leftover(ops):
    """condition under which exactly one produced asset is left over"""
    n = len(ops)
    offer = [fld(o, "offer_asset_info") for o in ops]
    ask = [fld(o, "ask_asset_info") for o in ops]
    left = []
    for k in range(n):
        g = B.T
        for j in range(k + 1, n):
            g = B.conj(g, B.neg(X.eq(offer[j], ask[k])), B.neg(X.eq(ask[j], ask[k])))
        left.append(g)
    one = B.F
    for k in range(n):
        one = B.disj(one, B.conj(*[left[j] if j == k else B.neg(left[j]) for j in range(n)]))
    return one


def C28(c):
    for hook in (False, True):
        for kinds in kindsets(c, True):
            s, m, ops, starter, h = route(kinds, hook)
            r = s.entry("execute", m)
            inst = "%s route %s" % ("CW20" if hook else "direct", kinds or "empty")
            c.ran(r, "router " + inst)
            if not ops:
                c.rejected(r, "empty", inst)
                continue
            one = leftover(ops)
            if "!" not in kinds:
                c.live(r, inst)
            c.always(r, "one-output", inst, one)
            c.never_err(r, "valid-accepted", inst, one)
    for vn in ("SimulateSwapOperations", "ReverseSimulateSwapOperations"):
        s = Router(op_shapes(r"^sym:msg\|", ""))
        r = s.entry("query", pick(s, "query", vn))
        c.ran(r, "router %s without operations" % vn)
        c.rejected(r, "empty", vn)


def C29(c):
    for k in TWO:
        s = Router([(r"^sym:msg\|.*operation\.HaloSwap\.%s$" % side, r"::AssetInfo$", KINDS[k[j]])
                    for j, side in enumerate(("offer_asset_info", "ask_asset_info"))])
        m = pick(s, "execute", "ExecuteSwapOperation")
        f = fields(m)
        offer, ask = fld(f["operation"], "offer_asset_info"), fld(f["operation"], "ask_asset_info")
        r = s.entry("execute", m)
        c.ran(r, "router ExecuteSwapOperation of %s" % k)
        c.live(r, k)
        amount = s.balance(offer, s.self_addr)
        pairs = [s.pair_addr(offer, ask), s.pair_addr(ask, offer)]
        sm = only_message(c, r, "one-message", k)
        if sm is None:
            continue
        for g, w in X.alts(fld(sm, "msg")):
            u = B.conj(r.ok, g)
            if not X.sat(u):
                continue
            if not c.ob("hop", k, vname(w) == "Wasm" and vname(w.args[2]) == "Execute", lambda: "sends " + X.show(w)[:200], r.where()):
                continue
            e = fields(w.args[2])
            j = e["msg"]
            if k[0] == "T":
                c.same(r, "hop", k + " token", e["contract_addr"], fields(offer)["contract_addr"], under=u)
                c.same(r, "hop", k + " no coins", e["funds"], I.lst([]), under=u)
                if not c.ob("hop", k + " send", j.op == "json" and vname(j.args[1]) == "Send", lambda: "not a CW20 send: " + X.show(j)[:200], r.where()):
                    continue
                sd = fields(j.args[1])
                c.same(r, "hop", k + " pair", sd["contract"], pairs, under=u)
                c.same(r, "hop", k + " amount", sd["amount"], amount, under=u)
                j = sd["msg"]
            else:
                c.same(r, "hop", k + " pair", e["contract_addr"], pairs, under=u)
                c.same(r, "hop", k + " coins", e["funds"], I.lst([s.coin(fields(offer)["denom"], amount)]), under=u)
            if c.ob("hop", k + " swap", j.op == "json" and vname(j.args[1]) == "Swap", lambda: "not a swap: " + X.show(j)[:200], r.where()):
                sw = fields(j.args[1])
                c.same(r, "hop", k + " recipient", sw["to"], f["to"], under=u)
                c.same(r, "hop", k + " belief price", sw["belief_price"], I.NONE, under=u)
                c.same(r, "hop", k + " spread limit", sw["max_spread"], I.NONE, under=u)
        c.same(r, "hop", k + " no reply", fld(sm, "reply_on"), s.make("ReplyOn", "Never"))
        c.store_only(r, "state", k)


def chain(s, ops, amount, order, back):
    for o in (reversed(ops) if back else ops):
        a, b = fld(o, "offer_asset_info"), fld(o, "ask_asset_info")
        p = s.pair_addr(a, b) if order == 0 else s.pair_addr(b, a)
        amount = (s.simulated(p, "ReverseSimulation", "ask_asset", b, amount, "offer_amount") if back else
                  s.simulated(p, "Simulation", "offer_asset", a, amount, "return_amount"))
    return amount


def C31(c):
    for back in (False, True):
        vn = "ReverseSimulateSwapOperations" if back else "SimulateSwapOperations"
        for kinds in kindsets(c):
            if not kinds:
                continue
            s = Router(op_shapes(r"^sym:msg\|", kinds))
            m = pick(s, "query", vn)
            f = fields(m)
            ops = list(f["operations"].args[0])
            amount = f["ask_amount" if back else "offer_amount"]
            r = s.entry("query", m)
            inst = "%s %s" % (vn, kinds)
            c.ran(r, "router query " + inst)
            c.live(r, inst)
            p = payload(c, r, "SimulateSwapOperationsResponse", inst)
            if p is not None:
                c.same(r, "chain", inst, fld(p, "amount"), [chain(s, ops, amount, o, back) for o in (0, 1)])


def C32(c):
    s = Router()
    m = s.it.fresh(s.fn("contract::instantiate")[1]["inputs"][-1], mk("sym", "msg"))
    r = s.entry("instantiate", m)
    c.ran(r, "router instantiate")
    c.live(r, "instantiate")
    same_parts(c, r, "stored", "instantiate", under_ok(r, stored_value(r, CONFIG)), {"halo_factory": X.mkcanon(fld(m, "halo_factory"))})
    s = Router()
    r = s.entry("query", pick(s, "query", "Config"))
    c.ran(r, "router query Config")
    c.live(r, "query Config")
    p = payload(c, r, "ConfigResponse", "query Config")
    if p is not None:
        c.same(r, "reported", "Config", fld(p, "halo_factory"), s.factory)
    for label, s, r in other_entries():
        c.ran(r, "router " + label)
        c.store_only(r, "state", label)
    for k in TWO:
        s = Router([(r"^sym:msg\|.*operation\.HaloSwap\.%s$" % side, r"::AssetInfo$", KINDS[k[j]])
                    for j, side in enumerate(("offer_asset_info", "ask_asset_info"))])
        r = s.entry("execute", pick(s, "execute", "ExecuteSwapOperation"))
        c.ran(r, "router ExecuteSwapOperation " + k)
        c.store_only(r, "state", "ExecuteSwapOperation " + k)
    for vn in variants(Router(), "router::QueryMsg"):
        s = Router(op_shapes(r"^sym:msg\|", "TN NT"))
        r = s.entry("query", pick(s, "query", vn))
        c.ran(r, "router query " + vn)
        c.store_only(r, "state", "query " + vn)
