"""Properties of the factory contract (C16-C24) and of migrations (C33)."""
from scen import *
from props_pair import (KINDS, ALL, stored_value, same_parts, variants, pick, setfld, under_ok, only_message, payload, isnone,
                        someval, nz, VERSION_CELL, Pair, when)

CONFIG = ("item", "config")
PENDING = ("item", "tmp_pair_info")
PAIRS = ("map", "pair_info")
DECIMALS = ("map", "allow_native_token")


class Fac(Scen):
    def __init__(self, shapes=(), **k):
        super().__init__("halo_factory", shapes, **k)
        self.config = self.fresh("Config", mk("stored", STR("config")))
        self.is_owner = X.streq(fld(self.config, "owner"), X.mkcanon(self.sender))
        X.ALIAS[self.sender] = "sender"
        X.ALIAS[self.self_addr] = "factory"


def asset_shapes(kinds, root=r"^sym:msg\|", f="asset_infos"):
    return [(root + r".*%s(\.Some)?\.%d$" % (f, i), r"::AssetInfo$", KINDS[kinds[i]]) for i in (0, 1)]


def raw_of(s, info):
    """stored form of an asset"""
    def f(x):
        if vname(x) == "Token":
            return s.make("AssetInfoRaw", "Token", contract_addr=X.mkcanon(fields(x)["contract_addr"]))
        return s.make("AssetInfoRaw", "NativeToken", denom=fields(x)["denom"])
    return X.lift(f, info)


def bytes_of(raw):
    return X.lift(lambda x: x.args[2], raw)


def changed(r, cell):
    """condition under which a successful call leaves a different value in the cell"""
    v = r.store.get(cell)
    if v is None:
        return B.F
    init = r.it.init_store(cell)
    return B.disj(*[B.conj(r.ok, g) for g, x in X.alts(v) if not (x is init or x.op == "mapst" and not x.args[1])])


def fac_entries():
    """every way into the factory after instantiation"""
    s0 = Fac()
    for vn in variants(s0, "ExecuteMsg"):
        ks = ALL if vn == "CreatePair" else ("",)
        for k in ks:
            s = Fac(asset_shapes(k) if k else ())
            yield "execute %s %s" % (vn, k), vn, s, s.entry("execute", pick(s, "execute", vn))
    s = Fac()
    yield "reply", None, s, s.entry("reply", s.it.fresh(s.fn("contract::reply")[1]["inputs"][-1], mk("sym", "msg")))
    s = Fac()
    yield "migrate", None, s, s.entry("migrate", s.it.fresh(s.fn("contract::migrate")[1]["inputs"][-1], mk("sym", "msg")))


def wasm_msgs(r, *names):
    """[(condition, fields)] of the emitted contract messages of the given kinds"""
    out = []
    for g, l in X.alts(r.messages()):
        k = B.conj(r.ok, g)
        if k == B.F:
            continue
        if l.op != "list":
            raise Problem("messages of unknown shape in %s" % r.where())
        for sm in l.args[0]:
            for h, m in X.alts(fld(sm, "msg")):
                if B.conj(k, h) != B.F and vname(m) == "Wasm" and vname(m.args[2]) in names:
                    out.append((B.conj(k, h), fields(m.args[2])))
    return out


OWNER_ONLY = ("UpdateConfig", "AddNativeTokenDecimals", "MigratePair")


def C16(c):
    seen = set()
    for label, vn, s, r in fac_entries():
        c.ran(r, "factory " + label)
        seen.add(vn)
        if vn in OWNER_ONLY:
            c.live(r, label)
            c.always(r, "owner-only", label, s.is_owner)
        for cell, nm in ((CONFIG, "configuration"), (DECIMALS, "decimals registry")):
            c.always(r, "protected-state", "%s %s" % (label, nm), s.is_owner, under=changed(r, cell))
            ok = {CONFIG: ("UpdateConfig",), DECIMALS: ("AddNativeTokenDecimals",)}[cell]
            if vn not in ok:
                c.ob("no-other-writer", "%s %s" % (label, nm), not X.sat(changed(r, cell)), "the %s is changed" % nm, r.where())
        for k, f in wasm_msgs(r, "Migrate", "UpdateAdmin", "ClearAdmin"):
            c.always(r, "migration", label, s.is_owner, under=k)
    for vn in OWNER_ONLY:
        c.ob("anchors", vn, vn in seen, "factory has no execute message %s" % vn)


def C17(c):
    s = Fac()
    m = s.it.fresh(s.fn("contract::instantiate")[1]["inputs"][-1], mk("sym", "msg"))
    r = s.entry("instantiate", m)
    c.ran(r, "factory instantiate")
    c.live(r, "instantiate")
    same_parts(c, r, "initial", "instantiate", under_ok(r, stored_value(r, CONFIG)), {
        "owner": X.mkcanon(s.sender), "token_code_id": fld(m, "token_code_id"), "pair_code_id": fld(m, "pair_code_id")})
    c.store_only(r, "initial-state", "instantiate", (CONFIG, VERSION_CELL))
    s = Fac()
    m = pick(s, "execute", "UpdateConfig")
    f = fields(m)
    r = s.entry("execute", m)
    c.ran(r, "factory execute UpdateConfig")
    after = under_ok(r, stored_value(r, CONFIG))
    for nm, conv in (("owner", X.mkcanon), ("token_code_id", None), ("pair_code_id", None)):
        none = isnone(f[nm])
        new = someval(f[nm])
        if conv:
            new = X.lift(conv, new)
        for lab, g, w in (("omitted", none, fld(s.config, nm)), ("supplied", B.neg(none), new)):
            c.live(r, "%s %s" % (nm, lab), g)
            c.same(r, "update", "%s %s" % (nm, lab), fld(after, nm), w, under=g)
    checks = [a for a in r.fails if a.args[0] == "validate" and a.args[1] is someval(f["owner"])] if r.fails else []
    good = B.disj(*[B.conj(r.fails[a][0], B.neg(B.var(a))) for a in checks])
    c.always(r, "valid-owner", "UpdateConfig", good, under=B.neg(isnone(f["owner"])))
    c.store_only(r, "update-state", "UpdateConfig", (CONFIG,))
    none = B.T
    for x in ("owner", "token_code_id", "pair_code_id"):
        none = B.conj(none, isnone(f[x]))
    c.never_err(r, "owner-may", "UpdateConfig", s.is_owner)
    s = Fac()
    r = s.entry("query", pick(s, "query", "Config"))
    c.ran(r, "factory query Config")
    c.live(r, "query Config")
    p = payload(c, r, "ConfigResponse", "query Config")
    if p is not None:
        same_parts(c, r, "query", "Config", p, {
            "owner": X.mkhuman(fld(s.config, "owner")), "token_code_id": fld(s.config, "token_code_id"),
            "pair_code_id": fld(s.config, "pair_code_id")})


def create(kinds):
    s = Fac(asset_shapes(kinds))
    m = pick(s, "execute", "CreatePair")
    s.infos = list(fields(m)["asset_infos"].args[0])
    s.req = fields(m)["requirements"]
    s.raws = [raw_of(s, i) for i in s.infos]
    s.b = [bytes_of(x) for x in s.raws]
    for i in (0, 1):
        X.ALIAS[s.b[i]] = "asset%d" % i
    r = s.entry("execute", m)
    return s, r


def exists_atoms(g, ns):
    """[(atom node, key)] of registry membership tests the condition depends on"""
    out = []
    for l in B.support(g):
        a = B.atom(l)
        if a.op == "exists" and a.args[0] is STR(ns):
            out.append((B.var(a), a.args[1]))
    return out


def C18(c):
    for kinds in ALL:
        s, r = create(kinds)
        c.ran(r, "factory CreatePair of %s" % kinds)
        c.live(r, kinds)
        c.always(r, "same-asset", kinds, B.neg(X.eq(s.raws[0], s.raws[1])))
        pend = stored_value(r, PENDING)
        key = fld(under_ok(r, pend), "pair_key")
        # the pending key's entry was looked up successfully and found absent
        free = []
        for g, k in X.expand(key):
            u = B.conj(r.ok, g)
            if not X.sat(u):
                continue
            there = mk("exists", STR("pair_info"), k)
            c.always(r, "already-registered", kinds, B.neg(B.var(there)), under=u)
            free.append(B.conj(g, B.neg(B.var(there))))
        c.never_err(r, "accepted", kinds, B.conj(B.neg(X.eq(s.infos[0], s.infos[1])), B.conj(B.neg(X.eq(s.raws[0], s.raws[1])), B.disj(*free))))
        # the other order of the same assets gives the same key
        mp = {s.b[0]: s.b[1], s.b[1]: s.b[0]}
        if kinds[0] == kinds[1]:
            swapped = swap_terms(key, s)
            c.same(r, "either-order", kinds, swapped, key)
        else:
            s2, r2 = create(kinds[::-1])
            c.ran(r2, "factory CreatePair of %s" % kinds[::-1])
            mp = rename(s2, s)
            k2 = X.substitute(fld(under_ok(r2, stored_value(r2, PENDING)), "pair_key"), mp)
            c.same(r, "either-order", kinds, k2, key, under=X.substg(r2.ok, mp))
        # lookup
        q = Fac(asset_shapes(kinds))
        m = pick(q, "query", "Pair")
        q.b = [bytes_of(raw_of(q, i)) for i in fields(m)["asset_infos"].args[0]]
        rq = q.entry("query", m)
        c.ran(rq, "factory query Pair of %s" % kinds)
        c.live(rq, "query Pair " + kinds)
        n = 0
        for a, (g, w) in rq.fails.items():
            if a.args[0] == "load" and len(a.args) > 2 and a.args[1] is STR("pair_info"):
                n += 1
                mp = rename(q, s)
                c.same(r, "lookup-key", kinds, X.substitute(a.args[2], mp), key, under=X.substg(g, mp))
        c.ob("lookup-key", kinds + " read", n > 0, "the lookup reads no registry entry", rq.where())
        p = payload(c, rq, "PairInfo", "query Pair " + kinds)
        if p is not None:
            c.ob("lookup-entry", kinds, reads_only(p, "pair_info"), lambda: "the answer is not the registered entry: " + X.show(p)[:300], rq.where())
    s, r = reply_run()
    c.ran(r, "factory reply")
    for k, v in written(r, PAIRS):
        c.same(r, "registration-key", "reply", v[0], fld(s.pending, "pair_key"), under=k)
    c.ob("registration-key", "reply writes", bool(written(r, PAIRS)), "nothing is registered", r.where())


def reads_only(v, ns):
    """every unknown of the value comes from one registry entry"""
    keys = set()

    def walk(t):
        if isinstance(t, tuple):
            for x in t:
                walk(x)
        elif isinstance(t, X.T):
            if t.op == "entry":
                keys.add((t.args[0], None))
                return
            if t.op in ("stored", "resp", "sym"):
                keys.add((t, None))
                return
            if t.op == "gamma":
                for g, x in t.args[0]:
                    walk(x)
                return
            for a in t.args:
                walk(a)
    walk(v)
    return {k[0] for k in keys} == {STR(ns)}


def swap_terms(v, s):
    """the value with the two assets exchanged"""
    tmp = [mk("sym", "exch%d" % i) for i in (0, 1)]
    base = [base_of(s.b[i]) for i in (0, 1)]
    v = X.substitute(v, {base[0]: tmp[0], base[1]: tmp[1]})
    return X.substitute(v, {tmp[0]: base[1], tmp[1]: base[0]})


def base_of(b):
    """the text an asset identifier is built from"""
    return b.args[0] if b.op == "canon" else b


def rename(a, b):
    """maps the assets of scenario a to the same-kind assets of scenario b"""
    mp = {}
    for x in a.b:
        for y in b.b:
            if x.op == y.op and base_of(y) not in mp.values():
                mp[base_of(x)] = base_of(y)
                break
    return mp


def written(r, cell):
    """[(condition, (key, value))] of the map writes of a successful call"""
    out = []
    v = r.store.get(cell)
    if v is None:
        return out
    for g, x in X.alts(v):
        k = B.conj(r.ok, g)
        if k != B.F and x.op == "mapst" and X.sat(k):
            out += [(k, kv) for kv in x.args[1]]
    return out


def reply_run():
    s = Fac()
    s.pending = s.fresh("TmpPairInfo", mk("stored", STR("tmp_pair_info")))
    r = s.entry("reply", s.it.fresh(s.fn("contract::reply")[1]["inputs"][-1], mk("sym", "msg")))
    return s, r


def C19(c):
    # the key must determine the unordered pair of assets (kind and identifier of both)
    for kinds in ("TT", "TN", "NN"):
        s, r = create(kinds)
        c.ran(r, "factory CreatePair of %s" % kinds)
        key = fld(under_ok(r, stored_value(r, PENDING)), "pair_key")
        for g, k in X.expand(key):
            u = B.conj(r.ok, g)
            if not X.sat(u):
                continue
            ps = key_parts(k)
            ids = [p for p in ps if any(p is b for b in s.b)]
            c.ob("identifies-both", kinds, all(any(p is b for p in ids) for b in s.b),
                 lambda: "the key does not contain the full identifier of both assets: " + X.show(k)[:300], r.where())
            c.ob("separable", kinds, separable(ps, s), lambda: "the key is a plain concatenation of identifiers of arbitrary length, "
                 "so different assets can give the same key: " + X.show(k)[:300], r.where())
            if kinds != "TT":
                c.ob("kind", kinds, tagged(ps, s), lambda: "the key does not tell a denomination from a contract address "
                     "with the same bytes: " + X.show(k)[:300], r.where())


def key_parts(k):
    return list(k.args[0]) if k.op == "cat" and len(k.args) == 1 and isinstance(k.args[0], tuple) else (
        list(k.args) if k.op == "cat" else [k])


def separable(ps, s):
    """the first identifier ends where the second starts: a length is part of the key, the first identifier has a fixed
    length (canonical addresses of one chain), or a constant separator stands between them"""
    pos = [i for i, p in enumerate(ps) if any(p is b for b in s.b)]
    if len(pos) < 2:
        return False
    if any(p.op in ("len", "inttext", "bytes", "be", "le") or p.op == "poly" for p in ps):
        return True
    if ps[pos[0]].op == "canon":
        return True
    return pos[1] > pos[0] + 1


def tagged(ps, s):
    return any(p.op in ("str", "bytes") for p in ps)


def C20(c):
    s, r = reply_run()
    c.ran(r, "factory reply")
    c.live(r, "reply")
    new = mkfld(mk("sym", "instantiated"), "contract_address")
    ans = mk("resp", s.q_smart(new, s.json("pair::QueryMsg", "Pair")))
    ws = written(r, PAIRS)
    c.ob("registered-once", "reply", bool(ws), "nothing is registered", r.where())
    total = B.disj(*[k for k, _ in ws])
    c.always(r, "registered-once", "every success", total)
    pi = s.fresh("::PairInfo" if False else "asset::PairInfo", ans)
    for k, (key, v) in ws:
        c.same(r, "entry", "key", key, fld(s.pending, "pair_key"), under=k)
        same_parts(c, r, "entry", "reply", v, {
            "contract_addr": X.mkcanon(new), "asset_infos": fld(s.pending, "asset_infos"),
            "asset_decimals": fld(s.pending, "asset_decimals"), "liquidity_token": X.mkcanon(fld(pi, "liquidity_token")),
            "requirements": fld(pi, "requirements")}, under=k)
    for g, x in X.alts(stored_value(r, PAIRS)):
        if x.op == "mapst" and X.sat(B.conj(r.ok, g)):
            c.ob("registered-once", "entries written", len(x.args[1]) == 1, "%d entries are written" % len(x.args[1]), r.where())
    c.store_only(r, "writes", "reply", (PAIRS,))
    for label, vn, s, r in fac_entries():
        if label == "reply":
            continue
        c.ran(r, "factory " + label)
        c.ob("only-reply-writes", label, not X.sat(changed(r, PAIRS)), "the registry is changed", r.where())
    s = Fac()
    r = s.entry("instantiate", s.it.fresh(s.fn("contract::instantiate")[1]["inputs"][-1], mk("sym", "msg")))
    c.ob("only-reply-writes", "instantiate", not X.sat(changed(r, PAIRS)), "the registry is changed", r.where())


def decimals_of(s, info):
    """admissible sources of an asset's decimals: [value, ...] (a native denomination may be read from the factory's own
    registry through a query or directly)"""
    if vname(info) == "Token":
        return [s.r_token_info(fields(info)["contract_addr"], "decimals")]
    d = fields(info)["denom"]
    q = s.q_smart(s.self_addr, s.json("factory::QueryMsg", "NativeTokenDecimals", denom=d))
    return [mkfld(mk("resp", q), "decimals"), mk("entry", STR("allow_native_token"), d)]


def C21(c):
    for kinds in ALL:
        s, r = create(kinds)
        c.ran(r, "factory CreatePair of %s" % kinds)
        c.live(r, kinds)
        sm = only_message(c, r, "instantiates-once", kinds)
        decs = [decimals_of(s, i) for i in s.infos]
        pend = under_ok(r, stored_value(r, PENDING))
        c.same(r, "remembered", kinds + " assets", fld(pend, "asset_infos"), mk("list", tuple(s.raws)))
        for i in (0, 1):
            c.same(r, "remembered", "%s decimals %d" % (kinds, i), fld(pend, "asset_decimals").args[0][i], decs[i])
        c.store_only(r, "state", kinds, (PENDING,))
        # the answers the decimals were taken from were obtained
        for i in (0, 1):
            got = [a for a in r.fails if a.args[0] in ("query", "load") and refers(a, s.infos[i].args[2]) and
                   not (len(a.args) > 1 and a.args[1] is STR("pair_info"))]
            c.always(r, "determined", "%s asset %d" % (kinds, i), B.disj(*[B.conj(r.fails[a][0], B.neg(B.var(a))) for a in got]))
        if sm is None:
            continue
        for g, w in X.alts(fld(sm, "msg")):
            u = B.conj(r.ok, g)
            if not X.sat(u):
                continue
            if not c.ob("instantiates-once", kinds + " kind", vname(w) == "Wasm" and vname(w.args[2]) == "Instantiate",
                        lambda: "the message is not an instantiation: " + X.show(w)[:200], r.where()):
                continue
            f = fields(w.args[2])
            c.same(r, "instantiation", kinds + " code", f["code_id"], fld(s.config, "pair_code_id"), under=u)
            c.same(r, "instantiation", kinds + " admin", f["admin"], I.some(s.self_addr), under=u)
            c.same(r, "instantiation", kinds + " funds", f["funds"], I.lst([]), under=u)
            j = f["msg"]
            if not c.ob("instantiation", kinds + " payload", j.op == "json" and j.args[0].endswith("pair::InstantiateMsg"),
                        lambda: "payload is not a pair instantiation: " + X.show(j)[:200], r.where()):
                continue
            p = fields(j.args[1])
            c.same(r, "instantiation", kinds + " assets", p["asset_infos"], mk("list", tuple(s.infos)), under=u)
            for i in (0, 1):
                c.same(r, "instantiation", "%s decimals %d" % (kinds, i), p["asset_decimals"].args[0][i], decs[i], under=u)
            c.same(r, "instantiation", kinds + " token code", p["token_code_id"], fld(s.config, "token_code_id"), under=u)
            c.same(r, "instantiation", kinds + " requirements", p["requirements"], s.req, under=u)
        on = fld(sm, "reply_on")
        for g, o in X.alts(on):
            if X.sat(B.conj(r.ok, g)):
                c.ob("instantiation", kinds + " reply", vname(o) in ("Success", "Always"), "no reply on success is requested", r.where())


def refers(t, x):
    if t is x:
        return True
    if isinstance(t, tuple):
        return any(refers(a, x) for a in t)
    return isinstance(t, X.T) and any(refers(a, x) for a in t.args)


def C22(c):
    s = Fac()
    m = pick(s, "execute", "AddNativeTokenDecimals")
    f = fields(m)
    r = s.entry("execute", m)
    c.ran(r, "factory AddNativeTokenDecimals")
    c.live(r, "AddNativeTokenDecimals")
    bal = s.r_bank(s.self_addr, f["denom"])
    X.RNG[bal] = (0, (1 << 128) - 1)
    c.always(r, "balance", "AddNativeTokenDecimals", nz(bal))
    ws = written(r, DECIMALS)
    c.always(r, "stored", "every success", B.disj(*[k for k, _ in ws]))
    for k, (key, v) in ws:
        c.same(r, "stored", "denomination", key, f["denom"], under=k)
        c.same(r, "stored", "decimals", v, f["decimals"], under=k)
    for g, x in X.alts(stored_value(r, DECIMALS)):
        if x.op == "mapst" and X.sat(B.conj(r.ok, g)):
            c.ob("stored", "entries", len(x.args[1]) == 1, "%d entries are written" % len(x.args[1]), r.where())
    c.store_only(r, "state", "AddNativeTokenDecimals", (DECIMALS,))
    l = under_ok(r, r.messages())
    c.ob("messages", "AddNativeTokenDecimals", l.op == "list" and not l.args[0], "messages are sent", r.where())
    c.never_err(r, "owner-may", "AddNativeTokenDecimals", B.conj(s.is_owner, nz(bal)))
    s = Fac()
    m = pick(s, "query", "NativeTokenDecimals")
    d = fields(m)["denom"]
    r = s.entry("query", m)
    c.ran(r, "factory query NativeTokenDecimals")
    c.live(r, "query")
    p = payload(c, r, "NativeTokenDecimalsResponse", "query")
    if p is not None:
        c.same(r, "query", "decimals", fld(p, "decimals"), mk("entry", STR("allow_native_token"), d))
    got = [a for a in r.fails if a.args[0] == "load" and a.args[1] is STR("allow_native_token")]
    there = B.var(mk("exists", STR("allow_native_token"), d))
    c.always(r, "query", "registered", B.disj(there, *[B.conj(r.fails[a][0], B.neg(B.var(a))) for a in got]))


def C23(c):
    s = Fac()
    m = pick(s, "execute", "MigratePair")
    f = fields(m)
    r = s.entry("execute", m)
    c.ran(r, "factory MigratePair")
    code = X.lift(lambda v: fld(s.config, "pair_code_id") if v.args[1] == 0 else v.args[2], f["code_id"])
    for lab, g in (("code given", B.neg(isnone(f["code_id"]))), ("default code", isnone(f["code_id"]))):
        c.live(r, lab, g)
    sm = only_message(c, r, "one-message", "MigratePair")
    if sm is not None:
        for g, w in X.alts(fld(sm, "msg")):
            u = B.conj(r.ok, g)
            if not X.sat(u):
                continue
            if c.ob("migrate", "kind", vname(w) == "Wasm" and vname(w.args[2]) == "Migrate", lambda: "not a migrate message: " + X.show(w)[:200], r.where()):
                h = fields(w.args[2])
                c.same(r, "migrate", "contract", h["contract_addr"], f["contract"], under=u)
                c.same(r, "migrate", "code", h["new_code_id"], code, under=u)
                c.ob("migrate", "payload", h["msg"].op == "json" and h["msg"].args[0].endswith("pair::MigrateMsg"),
                     lambda: "payload is not a pair migration: " + X.show(h["msg"])[:200], r.where())
    c.store_only(r, "state", "MigratePair")


# ------------------------------------------------------------------------------------------------ listing

def page_shapes(k):
    return ([(r"^range:pair_info\|.*asset_infos\.%d$" % i, r"::AssetInfoRaw$", KINDS[k[i]]) for i in (0, 1)] +
            [(r"^range:pair_info\|.*whitelist$", r"::Vec$", 1)])


def ranges_in(v):
    out = {}
    seen = set()

    def walk(t):
        if isinstance(t, tuple):
            for x in t:
                walk(x)
        elif isinstance(t, X.T):
            if t in seen:
                return
            seen.add(t)
            if t.op == "range":
                out[t] = 1
            for a in t.args:
                walk(a)
    walk(v)
    return list(out)


def entry_info(s, rg, i):
    """the listed form of the i-th entry of a range"""
    raw = s.fresh("PairInfoRaw", mkfld(rg, "%d" % i, "value"))
    infos = []
    for a in fld(raw, "asset_infos").args[0]:
        infos.append(s.make("AssetInfo", "Token", contract_addr=X.mkhuman(a.args[2])) if vname(a) == "Token"
                     else s.make("AssetInfo", "NativeToken", denom=a.args[2]))
    return s.make("asset::PairInfo", asset_infos=I.lst(infos), contract_addr=X.mkhuman(fld(raw, "contract_addr")),
                  liquidity_token=X.mkhuman(fld(raw, "liquidity_token")), asset_decimals=fld(raw, "asset_decimals"),
                  requirements=fld(raw, "requirements"))


def C24(c):
    for start in ("",) + ALL:
        for stored in ("NT",) if start and not c.thorough else ALL:
            for order in ((0, 1, 2) if c.thorough else (0, 1)) if start else (0,):
                # entries of other kinds only differ in how one entry is turned into its listed form
                listing(c, start, stored, order, 33 if c.thorough or stored == "NT" else 4)


def listing(c, start, stored, order, entries):
    s = Fac(asset_shapes(start, f="start_after") + page_shapes(stored) if start else page_shapes(stored))
    s.it.range_bound = entries
    m = pick(s, "query", "Pairs")
    f = fields(m)
    lim, sa = f["limit"], f["start_after"]
    sa = X.mkgamma([(B.T, x) for g, x in X.alts(sa) if x.args[1] == (1 if start else 0)])
    m = setfld(m, "start_after", sa)
    key = None
    inst = "start %s, stored %s" % (start or "none", stored)
    if start:
        b = [bytes_of(raw_of(s, i)) for i in sa.args[2].args[0]]
        s.assume((M.slt(b[0], b[1]), M.slt(b[1], b[0]), X.streq(b[0], b[1]))[order])
        key = X.mkcat([b[1], b[0]] if order == 1 else [b[0], b[1]])
        inst += ", " + ("in order", "reversed", "equal")[order]
    r = s.entry("query", m)
    c.ran(r, "factory query Pairs, %s" % inst)
    for lab, g in (("limit given", B.neg(isnone(lim))), ("no limit", isnone(lim))):
        c.live(r, "%s, %s" % (inst, lab), g)
    p = payload(c, r, "PairsResponse", inst)
    if p is None:
        return
    pairs = fld(p, "pairs")
    want = X.mkgamma([(isnone(lim), INT(10)), (B.neg(isnone(lim)), someval(lim))])
    want = X.lift(lambda x: X.mkgamma([(X.lt(x, INT(30)), x), (B.neg(X.lt(x, INT(30))), INT(30))]), want)
    sizes, done = set(), {}
    rgs = ranges_in(pairs)
    c.ob("reads-registry", inst, bool(rgs) and all(x.args[0] is STR("pair_info") for x in rgs),
         "the listing does not read the pair registry", r.where())
    for g, l in X.alts(pairs):
        u = B.conj(r.ok, g)
        if not X.sat(u):
            continue
        if not c.ob("shape", inst, l.op == "list", lambda: "listing of unknown shape: " + X.show(l)[:200], r.where()):
            continue
        items = l.args[0]
        sizes.add(len(items))
        rs = ranges_in(items)
        if not items:
            # empty only if the limit is zero or the registry has nothing there
            c.always(r, "page-size", inst + " empty", B.disj(X.lt(want, ONE), *[X.lt(rlen(x), ONE) for x in rgs]), under=u)
            continue
        if not c.ob("one-range", inst, len(rs) == 1, "entries come from %d ranges" % len(rs), r.where()):
            continue
        rg = rs[0]
        n = rlen(rg)
        c.always(r, "page-size", "%s %d" % (inst, len(items)), B.disj(
            B.conj(X.inteq(want, INT(len(items))), X.le(INT(len(items)), n)),
            B.conj(X.inteq(n, INT(len(items))), X.lt(n, want))), under=u)
        lo, hi, direction = rg.args[1].args[2:]
        c.ob("ascending", inst, vname(direction) == "Ascending", "entries are not in ascending order", r.where())
        c.ob("to-the-end", inst, hi is I.NONE, lambda: "the listing stops early at " + X.show(hi)[:200], r.where())
        if not start:
            c.ob("from-start", inst, lo is I.NONE, lambda: "the listing starts at " + X.show(lo)[:200], r.where())
        else:
            starts_after(c, r, inst, lo, key, u)
        for a, (fg, fw) in r.fails.items():
            i = next((i for i in range(len(items)) if a.args[0] == "range" and a.args[1] is mk("fld", rg, "%d" % i)), None)
            if i is not None:
                h = B.conj(u, fg, B.var(a))
                c.ob("unreadable-entry", "%s %d #%d" % (inst, len(items), i), h == B.F or not X.sat(h),
                     lambda: "entry %d is listed although it could not be read" % i, r.where())
        for i, x in enumerate(items):
            k = (id(x), rg, i)
            if k not in done:
                w = entry_info(s, rg, i)
                done[k] = (x, X.equal_under(x, w, B.T) is None)
            if done[k][1]:
                c.ob("entry", "%s #%d" % (inst, i), True, where=r.where())
            else:
                c.same(r, "entry", "%s #%d" % (inst, i), x, entry_info(s, rg, i), under=u)
    c.ob("page-size", inst + " sizes", sizes == set(range(0, min(entries, 30) + 1)), "page sizes produced: %s" % sorted(sizes), r.where())


def rlen(rg):
    return mk("len", rg)


def starts_after(c, r, inst, lo, key, u):
    """the range begins right after the given key"""
    k = lo.args[2] if lo.op == "agg" and lo.args[0] == I.OPT and lo.args[1] == 1 else lo
    if not c.ob("starts-after", inst, k.op == "agg" and k.args[0] == "bound", lambda: "start of the range: " + X.show(lo)[:300], r.where()):
        return
    incl, at = k.args[1] == 0, k.args[2]
    # the least byte string above K is K followed by a zero byte
    want = X.lift(lambda x: X.mkcat([x, I.lst([INT(0)])]), key) if incl else key
    c.same(r, "starts-after", inst, at, want, under=u)


# ------------------------------------------------------------------------------------------------ migrations

def C33(c):
    for crate in ("halo_factory", "halo_pair", "halo_router"):
        s = Scen(crate)
        rec = s.fn("contract::migrate")[1]
        r = s.entry("migrate", s.it.fresh(rec["inputs"][-1], mk("sym", "msg")))
        c.ran(r, crate + " migrate")
        c.live(r, crate)
        c.store_only(r, "state", crate, (VERSION_CELL,))
        l = under_ok(r, r.messages())
        c.ob("messages", crate, l.op == "list" and not l.args[0], lambda: "migration sends messages: " + X.show(l)[:200], r.where())
        v = under_ok(r, stored_value(r, VERSION_CELL))
        for g, x in X.alts(v):
            if not X.sat(B.conj(r.ok, g)):
                continue
            good = x.op == "agg" and fld(x, "contract").op == "str" and fld(x, "version").op == "str"
            c.ob("version", crate, good and "halo-" + crate.split("_")[1] in fld(x, "contract").args[0],
                 lambda: "recorded version: " + X.show(x)[:200], r.where())
