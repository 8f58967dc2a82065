"""C45, C46, C48, C49, C51: consequences for holders, failures, events and the LP supply."""
from scen import *
from props_pair import (Pair, Provide, ALL, TOKENPAIRS, swap_run, withdraw_run, swap_spec, split_messages, mint_amounts, sent, nz,
                        refund, attr, num_attr, receiver, INV, text_same, pair_entries, variants, under_ok, payload)
from props_factory import Fac, create, reply_run, fac_entries, asset_shapes, page_shapes
from props_pair import pick
from props_cross import every_run, short, any_msg
from props_factory import changed, stored_value, VERSION_CELL
import os, tomllib, dump


def token_msgs(r, cond=B.T):
    """[(condition, submessage)] of every emitted message"""
    out = []
    for g, l in X.expand(r.messages(), 256) if r.ok != B.F else []:
        k = B.conj(r.ok, cond, g)
        if k == B.F or not X.sat(k):
            continue
        if l.op != "list":
            raise Problem("messages of unknown shape in %s" % r.where())
        for sm in l.args[0]:
            for h, x in X.expand(sm, 256):
                if B.conj(k, h) != B.F and X.sat(B.conj(k, h)):
                    out.append((B.conj(k, h), x))
    return out


def what(x):
    """(kind, contract or recipient, name of the token message, its fields, funds) of a submessage"""
    m = fld(x, "msg")
    v = m.args[2] if m.op == "agg" and len(m.args) > 2 else None
    if vname(m) == "Wasm" and vname(v) == "Execute":
        f = fields(v)
        j = f["msg"]
        if j.op == "json" and j.args[1].op == "agg":
            return "token", f["contract_addr"], vname(j.args[1]), fields(j.args[1]), f["funds"]
        return "contract", f["contract_addr"], None, {}, f["funds"]
    if vname(m) == "Bank":
        return "bank", None, vname(v), fields(v) if v is not None and v.op == "agg" else {}, None
    return vname(m) or "?", None, vname(v) if v is not None and v.op == "agg" else None, {}, None


def C45(c):
    for kinds in ALL:
        n = kinds.count("N")
        p = Provide(kinds, n)
        s, r = p.s, p.r
        c.ran(r, "pair %s, ProvideLiquidity with %d attached coins" % (kinds, n))
        later = nz(s.supply)
        q = p.later_share()
        for j, o in enumerate(p.orders()):
            u = B.conj(later, o)
            inst = "%s, order %d" % (kinds, j)
            c.live(r, inst, u)
            for v, k in mint_amounts(p, r, u):
                for i in (0, 1):
                    c.always(r, "shares-at-most", "%s, side %d" % (inst, i), X.le(v, q[i]), under=k)
        c.always(r, "collected", "%s native" % kinds, p.native_ok(), under=later)
        for g, mints, others in split_messages(s, r):
            k = B.conj(r.ok, g, later)
            if not X.sat(k):
                continue
            c.ob("one-mint", kinds, len(mints) <= 1, lambda: "%d mints when %s" % (len(mints), wit(k)), r.where())
            for i in (0, 1):
                if kinds[i] == "T":
                    t = ZERO
                    for x in others:
                        t = X.add(t, collected(s, x, i))
                    c.same(r, "collected", "%s asset %d" % (kinds, i), t, p.dep[i], under=k)
        for k, x in token_msgs(r, later):
            kd, to, nm, f, funds = what(x)
            good = kd == "token" and nm in ("TransferFrom", "Mint") and funds.op == "list" and not funds.args[0]
            if good and nm == "Mint":
                good = X.equal_under(to, s.lp, k) is None
            c.ob("nothing-leaves", kinds, good, lambda: "message %s when %s" % (X.show(x)[:300], wit(k)), r.where())
    for kinds in ALL:
        s, r = withdraw_run(kinds)
        c.ran(r, "pair %s, Receive{WithdrawLiquidity}" % kinds)
        inst = "%s, redemption" % kinds
        c.live(r, inst)
        for i in (0, 1):
            out, (low, exact) = sent(s, r, i), refund(s, i)
            # the rounded-down ratio pays no more than the exact one: P*floor(a*10^18/S)/10^18 <= P*a/S
            for g, v in X.alts(out):
                k = B.conj(r.ok, g)
                if k == B.F or not X.sat(k):
                    continue
                c.always(r, "refund-at-most", "%s, asset %d" % (inst, i), B.disj(X.le(v, exact), X.le(v, low)), under=k)
        burnt = ZERO
        for k, x in token_msgs(r):
            kd, to, nm, f, funds = what(x)
            if kd == "token" and nm in ("Transfer", "Burn"):
                good = funds.op == "list" and not funds.args[0]
                if nm == "Burn":
                    good = good and X.equal_under(to, s.lp, k) is None
                    c.same(r, "burned", inst, f["amount"], s.a, under=k)
                else:
                    good = good and any(kinds[i] == "T" and X.equal_under(to, s.names[i], k) is None for i in (0, 1))
            else:
                good = kd == "bank" and nm == "Send"
            c.ob("nothing-else-leaves", inst, good, lambda: "message %s when %s" % (X.show(x)[:300], wit(k)), r.where())
        for g, l in X.expand(r.messages(), 256):
            k = B.conj(r.ok, g)
            if k == B.F or not X.sat(k):
                continue
            burns = [x for x in l.args[0] if what(x)[2] == "Burn"]
            c.ob("burned", inst + " once", len(burns) == 1, lambda: "%d burns when %s" % (len(burns), wit(k)), r.where())


def collected(s, x, i):
    """amount of token i moved into the pair from the sender by the submessage"""
    def one(y):
        kd, to, nm, f, funds = what(y)
        if kd != "token" or nm != "TransferFrom":
            return ZERO
        k = B.conj(X.streq(to, s.names[i]), X.streq(f["recipient"], s.self_addr), X.streq(f["owner"], s.sender))
        return X.mkgamma([(k, f["amount"]), (B.neg(k), ZERO)])
    return X.lift(one, x)


def C46(c):
    for kinds in TOKENPAIRS:
        s, r = swap_run(kinds)
        c.ran(r, "pair %s, Receive{Swap}" % kinds)
        for i in (0, 1):
            g = s.is_asset(i)
            if g == B.F or B.conj(g, r.ok) == B.F:
                continue
            inst = "%s, offer of asset %d" % (kinds, i)
            c.live(r, inst, g)
            gross = swap_spec(s, i)[0]
            for h, v in X.alts(sent(s, r, 1 - i)):
                k = B.conj(g, h)
                if B.conj(k, r.ok) != B.F:
                    # (x + a) * (y - out) >= x * y  exactly if  out <= a*y / (x + a)
                    c.always(r, "product", inst, X.le(v, gross), under=k)
            c.same(r, "offer-stays", inst, sent(s, r, i), ZERO, under=g)
            for k, x in token_msgs(r, g):
                kd, to, nm, f, funds = what(x)
                good = kd == "bank" and nm == "Send" or kd == "token" and nm in ("Transfer", "Send") and funds.op == "list" and \
                    not funds.args[0] and any(kinds[j] == "T" and X.equal_under(to, s.names[j], k) is None for j in (0, 1))
                c.ob("nothing-else-leaves", inst, good, lambda: "message %s when %s" % (X.show(x)[:300], wit(k)), r.where())


def C47(c):
    """the quote is at least x*y/(y - pre) - x and a swap pays at least the formula's amount; DESIGN.md derives the
    property from these two inequalities (a swap pays more for a larger offer)"""
    for kinds in ALL:
        for i in (0, 1):
            s = Pair(kinds)
            b = mk("sym", "ask")
            X.RNG[b] = (0, (1 << 128) - 1)
            r = s.entry("query", s.make("QueryMsg", "ReverseSimulation", ask_asset=s.make("Asset", info=s.infos[i], amount=b)))
            inst = "%s ask %d" % (kinds, i)
            c.ran(r, "pair %s, query ReverseSimulation of asset %d" % (kinds, i))
            c.live(r, inst)
            resp = payload(c, r, "ReverseSimulationResponse", inst)
            if resp is None:
                continue
            y, x = s.bal[i], s.bal[1 - i]
            pres = (X.div(X.scale(b, INV), INT(10 ** 18)), X.div(X.scale(b, 1000), INT(997)))
            enough = B.disj(*[X.le(X.sub(X.div(X.mul(x, y), X.sub(y, p)), x), fld(resp, "offer_amount")) for p in pres])
            c.always(r, "quote-enough", inst, enough)
    for kinds in TOKENPAIRS:
        s, r = swap_run(kinds)
        c.ran(r, "pair %s, Receive{Swap}" % kinds)
        for i in (0, 1):
            g = s.is_asset(i)
            if g == B.F or B.conj(g, r.ok) == B.F:
                continue
            inst = "%s, offer of asset %d" % (kinds, i)
            c.live(r, inst, g)
            net = swap_spec(s, i)[2]
            for h, v in X.alts(sent(s, r, 1 - i, receiver(s))):
                k = B.conj(g, h)
                if B.conj(k, r.ok) != B.F:
                    c.always(r, "swap-pays", inst, X.le(net, v), under=k)


def C48(c):
    """no emitted message has a reply handler that could absorb its failure"""
    n = 0
    for label, s, r in every_run(queries=False):
        c.ran(r, label)
        for k, x in token_msgs(r):
            n += 1
            on = fld(x, "reply_on")
            bad = [vname(v) for g, v in X.alts(on) if vname(v) not in ("Never", "Success") and X.sat(B.conj(k, g))]
            c.ob("failure-propagates", label, not bad, lambda: "a failure of %s is delivered to the reply handler (%s) instead of "
                 "failing the transaction" % (X.show(fld(x, "msg"))[:300], ", ".join(map(str, bad))), r.where())
            gas = fld(x, "gas_limit")
            c.ob("no-gas-limit", label, not [1 for g, v in X.alts(gas) if v.args[1] == 1 and X.sat(B.conj(k, g))],
                 lambda: "gas of %s is limited" % X.show(fld(x, "msg"))[:300], r.where())
        c.ob("failure-propagates", label, True, where=r.where())
    c.extra["messages"] = n


def shown(s, info):
    """text of an asset"""
    return X.lift(lambda x: x.args[2], info)


def C49(c):
    for kinds in ALL:
        s, r = create(kinds)
        inst = "CreatePair " + kinds
        c.ran(r, "factory " + inst)
        c.live(r, inst)
        c.same(r, "event", inst + " action", attr(r, "action"), STR("create_pair"))
        a, b = [shown(s, x) for x in s.infos]
        text_same(c, r, "event", inst + " pair", attr(r, "pair"), X.mkcat([a, STR("-"), b]), B.T)
    s = Fac()
    r = s.entry("execute", pick(s, "execute", "UpdateConfig"))
    c.ran(r, "factory UpdateConfig")
    c.live(r, "UpdateConfig")
    c.same(r, "event", "UpdateConfig action", attr(r, "action"), STR("update_config"))
    s = Fac()
    m = pick(s, "execute", "AddNativeTokenDecimals")
    r = s.entry("execute", m)
    c.ran(r, "factory AddNativeTokenDecimals")
    c.live(r, "AddNativeTokenDecimals")
    c.same(r, "event", "AddNativeTokenDecimals action", attr(r, "action"), STR("add_allow_native_token"))
    c.same(r, "event", "AddNativeTokenDecimals denom", attr(r, "denom"), fields(m)["denom"])
    c.same(r, "event", "AddNativeTokenDecimals decimals", num_attr(r, "decimals"), fields(m)["decimals"])
    s, r = reply_run()
    c.ran(r, "factory reply")
    c.live(r, "reply")
    at = mkfld(mk("sym", "instantiated"), "contract_address")
    c.same(r, "event", "reply pair", attr(r, "pair_contract_addr"), at)
    q = mk("resp", s.q_smart(at, s.json("pair::QueryMsg", "Pair")))
    c.same(r, "event", "reply lp token", attr(r, "liquidity_token_addr"), mkfld(q, "liquidity_token"))


def C51(c):
    """shares are minted by provisions and burned by redemptions only"""
    for label, s, r in pair_entries():
        if " query " in label:
            continue
        c.ran(r, "pair " + label)
        prov, red = label.endswith(" ProvideLiquidity"), label.endswith("/WithdrawLiquidity")
        for k, x in token_msgs(r):
            kd, to, nm, f, funds = what(x)
            if kd == "bank":
                continue
            if kd == "token" and nm in ("Transfer", "TransferFrom", "Send"):
                # moves an asset of the pair, not shares
                good = any(s.kinds[i] == "T" and X.equal_under(to, s.names[i], k) is None for i in (0, 1))
            elif kd == "token" and nm == "Mint":
                good = prov and X.equal_under(to, s.lp, k) is None
            elif kd == "token" and nm == "Burn":
                good = red and X.equal_under(to, s.lp, k) is None
            else:
                good = False
            c.ob("shares", label, good, lambda: "message %s when %s" % (X.show(x)[:300], wit(k)), r.where())
        for g, l in X.expand(r.messages(), 256) if r.ok != B.F else []:
            k = B.conj(r.ok, g)
            if k == B.F or not X.sat(k):
                continue
            nm = [what(y)[2] for x in l.args[0] for h, y in X.expand(x, 64) if X.sat(B.conj(k, h))]
            c.ob("once", label, nm.count("Mint") + nm.count("Burn") == (1 if prov or red else 0),
                 lambda: "%s when %s" % (", ".join(map(str, nm)), wit(k)), r.where())
        c.ob("shares", label, True, where=r.where())
    for kinds in ALL:
        for e in ("reply", "migrate"):
            s = Pair(kinds)
            r = s.entry(e, s.it.fresh(s.fn("contract::" + e)[1]["inputs"][-1], mk("sym", "msg")))
            c.ran(r, "pair %s %s" % (kinds, e))
            c.ob("shares", "%s %s" % (kinds, e), not token_msgs(r), "messages are sent", r.where())


FOREIGN = re.compile(r"^<?(?:std::(?:time|env|fs|net|thread|process|os|io|collections::hash::(?:map|set)::RandomState|hash::random)|"
                     r"rand|rand_core|getrandom|chrono|core::arch|core::sync::atomic|std::sync)(?:::|$| as )")
NUMERIC_FLOAT = ("float",)


def leaves_of(v, seen, hit):
    """visit every term of a value, the conditions of its alternatives included"""
    stack = [v]
    while stack:
        t = stack.pop()
        if isinstance(t, tuple):
            stack += t
            continue
        if isinstance(t, int) or not isinstance(t, X.T) or t in seen:
            continue
        seen.add(t)
        if t.op == "gamma":
            for g, x in t.args[0]:
                stack += [B.atom(l) for l in B.support(g)]
                stack.append(x)
            continue
        n = hit(t)
        if n:
            yield n, t
        stack += [a for a in t.args if isinstance(a, (tuple, X.T))]


def foreign_input(t):
    if t.op == "fld":
        b, p = t, []
        while b.op == "fld":
            p.append(b.args[1])
            b = b.args[0]
        if b.op == "sym" and b.args[0] == "env":
            path = ".".join(reversed(p))
            if not path.startswith("contract"):
                return "env." + path
    if t.op == "opq" and t.args and t.args[0] == "hashorder":
        return "the iteration order of a hash table"
    return None


def C50(c):
    """results depend only on the call, the stored state and the answers to queries"""
    scanned, calls = set(), 0
    for label, s, r in every_run():
        c.ran(r, label)
        seen = set()
        bad = {}
        roots = [r.value] + list(r.store.values()) + [B.atom(l) for l in B.support(r.ok)]
        for n, t in leaves_of(tuple(roots), seen, foreign_input):
            bad.setdefault(n, t)
        c.ob("inputs", label, not bad, lambda: "the result depends on " + ", ".join(sorted(bad)), r.where())
        p = r.it.prog
        for k in sorted(r.it.visited):
            if (p.name, k) in scanned or k not in p.raw:
                continue
            scanned.add((p.name, k))
            b = p.raw[k]
            if b["krate"] not in REPO_CRATES:
                continue
            fl = sorted({p.types[t]["s"] for t in b["locals"] if p.types[t]["k"] == "float"})
            c.ob("no-floating-point", k, not fl, lambda: "uses " + ", ".join(fl), "%s:%s" % (b["file"], b["line"]))
            cs = callees(b)
            calls += len(cs)
            odd = sorted({x for x in cs if FOREIGN.match(x)})
            c.ob("no-outside-calls", k, not odd, lambda: "calls " + ", ".join(odd), "%s:%s" % (b["file"], b["line"]))
    c.extra["functions scanned"] = len(scanned)
    c.extra["call sites scanned"] = calls


REPO_CRATES = ("bignumber", "haloswap", "halo_pair", "halo_factory", "halo_router", "halo_token")


def callees(b):
    out = []
    for bl in b["blocks"]:
        t = bl and bl["t"]
        if t and t[0] == "call" and t[1][0] == "k" and t[1][1].get("k") == "fn":
            f = t[1][1]["fn"]
            out += [f["path"], f.get("rpath") or f["path"]]
    return out


CONTRACTS = (("halo_factory", "crates.io:halo-factory"), ("halo_pair", "crates.io:halo-pair"),
             ("halo_router", "crates.io:halo-router"), ("halo_token", "crates.io:cw20-base"))


def manifest_version(crate):
    with open(os.path.join(dump.REPO, "contracts", crate.replace("_", "-"), "Cargo.toml"), "rb") as f:
        v = tomllib.load(f)["package"]["version"]
        if isinstance(v, str):
            return v
    with open(os.path.join(dump.REPO, "Cargo.toml"), "rb") as f:
        return tomllib.load(f)["workspace"]["package"]["version"]


def C54(c):
    """the version record (cw2) written by every instantiation and migration"""
    for crate, name in CONTRACTS:
        for e, n in (("instantiate", 0), ("migrate", 0)) if crate != "halo_token" else (("instantiate", 0), ("instantiate", 2)):
            s = Scen(crate, [(r"^sym:msg\|initial_balances$", r"::Vec$", n)])
            r = s.entry(e, any_msg(s, e))
            inst = "%s %s" % (crate, e) + (" with %d initial balances" % n if crate == "halo_token" else "")
            c.ran(r, inst)
            c.live(r, inst)
            v = under_ok(r, stored_value(r, VERSION_CELL))
            for g, x in X.alts(v):
                if not X.sat(B.conj(r.ok, g)):
                    continue
                if not c.ob("recorded", inst, x.op == "agg", lambda: "not written: " + X.show(x)[:200], r.where()):
                    continue
                c.same(r, "name", inst, fld(x, "contract"), STR(name), under=g)
                c.same(r, "version", inst, fld(x, "version"), STR(manifest_version(crate)), under=g)
    for label, s, r in every_run():
        if {"instantiate", "migrate"} & set(label.split()):
            continue
        c.ran(r, label)
        c.ob("kept", label, VERSION_CELL not in r.store or not X.sat(B.conj(r.ok, changed(r, VERSION_CELL))),
             "the version record is changed", r.where())


def C55(c):
    """functions exported to the chain"""
    need = {k: {"instantiate", "execute", "query"} | ({"migrate"} if k != "halo_token" else set()) for k, _ in CONTRACTS}
    crate_of = {"pair": "halo_pair", "factory": "halo_factory", "router": "halo_router", "token": "halo_token"}
    for label, s, r in every_run(queries=False):
        c.ran(r, label)
        for k, x in token_msgs(r):
            on = [vname(v) for g, v in X.alts(fld(x, "reply_on")) if X.sat(B.conj(k, g))]
            if on != ["Never"]:
                need[crate_of[label.split()[0]]].add("reply")
    c.ob("replies", "pair and factory", "reply" in need["halo_pair"] and "reply" in need["halo_factory"],
         "no message of the pair or factory requests a reply")
    for crate, _ in CONTRACTS:
        s = Scen(crate)
        got = s.it.prog.d["exports"]
        for e in sorted(need[crate]):
            k, rec = s.fn("contract::" + e)
            c.ob("exported", "%s %s" % (crate, e), k in got, "%s is not exported to the chain" % k, "%s:%s" % (rec["file"], rec["line"]))
        c.ob("exported-once", crate, len({x.split("::")[-1] for x in got}) == len(got), "exports: " + ", ".join(got))


def instance(s, entry):
    k, rec = s.fn("contract::" + entry)
    return s.entry(entry, s.it.fresh(rec["inputs"][-1], mk("sym", "msg")))


def C56(c):
    """requests that the rules allow are accepted"""
    def run(label, r, cond=B.T):
        c.ran(r, label)
        c.live(r, label, cond)
        c.never_err(r, "accepted", label, cond)

    from props_router import Router, op_shapes, KINDS, kindsets
    from props_pair import setfld
    for crate, nm in (("halo_factory", "factory"), ("halo_pair", "pair"), ("halo_router", "router")):
        for e in ("instantiate", "migrate"):
            run("%s %s" % (nm, e), instance(Scen(crate), e))
    # factory
    s = Fac()
    run("factory MigratePair by the owner", s.entry("execute", pick(s, "execute", "MigratePair")), s.is_owner)
    run("factory UpdateConfig by the owner", s.entry("execute", pick(s, "execute", "UpdateConfig")), s.is_owner)
    s, r = reply_run()
    run("factory reply", r)
    s = Fac()
    run("factory query Config", s.entry("query", pick(s, "query", "Config")))
    m = pick(s, "query", "NativeTokenDecimals")
    run("factory query NativeTokenDecimals", s.entry("query", m),
        B.var(mk("exists", STR("allow_native_token"), fields(m)["denom"])))
    for kinds in ALL:
        q = Fac(asset_shapes(kinds))
        r = q.entry("query", pick(q, "query", "Pair"))
        run("factory query Pair of " + kinds, r, B.conj(*[a for a, k in exists_in(r)]))
    for start in ("",) + ALL:
        q = Fac(asset_shapes(start, f="start_after") + page_shapes("NT") if start else page_shapes("NT"))
        q.it.range_bound = 4
        m = pick(q, "query", "Pairs")
        m = setfld(m, "start_after", X.mkgamma([(B.T, x) for g, x in X.alts(fields(m)["start_after"]) if x.args[1] == (1 if start else 0)]))
        run("factory query Pairs from " + (start or "the beginning"), q.entry("query", m))
    # pair
    for kinds in ALL:
        s = Pair(kinds)
        for vn in ("Pool", "Pair"):
            run("pair %s query %s" % (kinds, vn), s.entry("query", s.make("QueryMsg", vn)))
        s = Pair(kinds)
        k, rec = s.fn("contract::reply")
        run("pair %s reply" % kinds, s.entry("reply", setfld(s.it.fresh(rec["inputs"][-1], mk("sym", "msg")), "id", lp_reply_id(c))))
    # router
    s = Router()
    run("router query Config", s.entry("query", pick(s, "query", "Config")))
    for k in ALL:
        s = Router([(r"^sym:msg\|.*operation\.HaloSwap\.%s$" % side, r"::AssetInfo$", KINDS[k[j]])
                    for j, side in enumerate(("offer_asset_info", "ask_asset_info"))])
        run("router hop %s by the router" % k, s.entry("execute", pick(s, "execute", "ExecuteSwapOperation")), X.eq(s.sender, s.self_addr))
    for vn in ("SimulateSwapOperations", "ReverseSimulateSwapOperations"):
        for kinds in kindsets(c):
            if kinds:
                s = Router(op_shapes(r"^sym:msg\|", kinds))
                run("router query %s %s" % (vn, kinds), s.entry("query", pick(s, "query", vn)))


def lp_reply_id(c):
    """the number under which the pair asks for the reply about its LP token"""
    r = instance(Scen("halo_pair"), "instantiate")
    for k, x in token_msgs(r):
        return fld(x, "id")
    raise Problem("the pair's instantiation sends no message")


def exists_in(r):
    """membership tests of the pair registry that the run depends on"""
    out = []
    for l in sorted(B.support(r.ok) | B.support(r.err)):
        a = B.atom(l)
        if a.op == "exists" and a.args[0] is STR("pair_info"):
            out.append((B.var(a), a.args[1]))
    return out
