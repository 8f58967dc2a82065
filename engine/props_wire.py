"""C30: every message, hook and query one contract sends is understood by the contract that receives it."""
from scen import *
from props_pair import ALL, pick, setfld, KINDS, Pair, under_ok
from props_factory import Fac, wasm_msgs
from props_cross import every_run, short, Router

TEXT = ("alloc::string::String", "cosmwasm_std::addresses::Addr")
NUMTEXT = ("Uint64", "Uint128", "Uint256", "Uint512", "Decimal", "Decimal256")
CRATE = {"pair": "halo_pair", "factory": "halo_factory", "router": "halo_router", "token": "halo_token"}
CW20 = {"Balance": "BalanceResponse", "TokenInfo": "TokenInfoResponse", "Minter": "MinterResponse", "Allowance": "AllowanceResponse",
        "AllAllowances": "AllAllowancesResponse", "AllAccounts": "AllAccountsResponse", "MarketingInfo": "MarketingInfoResponse",
        "DownloadLogo": "DownloadLogoResponse"}
BANK = {"Balance": "BalanceResponse", "AllBalances": "AllBalanceResponse", "Supply": "SupplyResponse"}


def snake(n):
    return re.sub(r"(?<!^)(?=[A-Z])", "_", n).lower()


class Names:
    """names on the wire, from the code serde generated for the repository's own types"""

    def __init__(self):
        self.p = prog("haloswap")
        self.it = interp("haloswap")
        self.c = {}

    def const(self, path, what):
        k = (path, what)
        if k not in self.c:
            key = "const:%s::_::<impl serde::de::Deserialize<'de> for %s>::deserialize::%s" % (path.rsplit("::", 1)[0], path, what)
            v = None
            if key in self.p.raw:
                st = I.State(B.T)
                x = self.it.deref(st, self.it.run_body(key, [], st))
                if x.op == "list" and all(e.op == "str" for e in x.args[0]):
                    v = [e.args[0] for e in x.args[0]]
                else:
                    raise Problem("wire names of %s not understood: %s" % (path, X.show(x)[:200]))
            self.c[k] = v
        return self.c[k]

    def variants(self, t):
        declared = [v[0] for v in t["variants"]]
        w = self.const(t["path"], "VARIANTS")
        return dict(zip(declared, w)) if w and len(w) == len(declared) else {d: snake(d) for d in declared}

    def fields(self, t):
        declared = [f[0] for f in t["variants"][0][2]]
        w = self.const(t["path"], "FIELDS")
        return dict(zip(declared, w)) if w and len(w) == len(declared) else {d: d for d in declared}


def kind(t):
    """shape of a type's JSON"""
    if t["k"] == "int":
        return "number"
    if t["k"] in ("bool", "str"):
        return {"str": "text"}.get(t["k"], t["k"])
    if t["k"] == "adt":
        p = t["path"]
        if p in TEXT:
            return "text"
        if p.split("::")[-1] in NUMTEXT and ("cosmwasm_std" in p or "bignumber" in p):
            return "numeric text"
        if p.endswith("::Binary") or p.endswith("::CanonicalAddr"):
            return "base64"
        if p == I.OPT:
            return "option"
        if p.endswith("::Vec"):
            return "list"
        if t.get("variants") and len(t["variants"]) >= 1:
            return "struct" if len(t["variants"]) == 1 and t["variants"][0][0] == p.split("::")[-1] else "enum"
    return t["k"]


class Wire:
    def __init__(self):
        self.names = Names()

    def compat(self, pa, a, pb, b, vn=None, seen=()):
        """None when JSON written from type a (variant vn) can be read as type b, otherwise the reason"""
        ta, tb = pa.types[a], pb.types[b]
        while ta["k"] == "ref":
            ta = pa.types[ta["to"]]
        if ta["s"] == tb["s"] and vn is None:
            return None
        if (ta["s"], tb["s"]) in seen:
            return None
        seen += ((ta["s"], tb["s"]),)
        ka, kb = kind(ta), kind(tb)
        if kb == "option":
            return self.compat(pa, ta["args"][0] if ka == "option" else a, pb, tb["args"][0], None, seen)
        if ka == "option":
            return "%s may be absent but is required" % tb["s"]
        if ka != kb:
            return "%s is written as %s but read as %s (%s)" % (ta["s"], ka, kb, tb["s"])
        if ka in ("text", "numeric text", "base64", "bool", "number"):
            return None
        if ka == "list":
            return self.compat(pa, ta["args"][0], pb, tb["args"][0], None, seen)
        if ka == "array" or ka == "slice":
            return self.compat(pa, ta["elem"], pb, tb["elem"], None, seen) if "elem" in ta and "elem" in tb else None
        if ka == "struct":
            return self.record(pa, ta["variants"][0][2], pb, tb["variants"][0][2], self.names.fields(ta), self.names.fields(tb), tb["s"], seen)
        if ka == "enum":
            na, nb = self.names.variants(ta), {v: k for k, v in self.names.variants(tb).items()}
            for v in ([vn] if vn else list(na)):
                if na[v] not in nb:
                    return "%s has no message %s" % (tb["s"], na[v])
                fa = [x for x in ta["variants"] if x[0] == v][0][2]
                fb = [x for x in tb["variants"] if x[0] == nb[na[v]]][0][2]
                r = self.record(pa, fa, pb, fb, {f[0]: f[0] for f in fa}, {f[0]: f[0] for f in fb}, "%s::%s" % (tb["s"], nb[na[v]]), seen)
                if r:
                    return r
            return None
        return "cannot compare %s and %s" % (ta["s"], tb["s"])

    def record(self, pa, fa, pb, fb, na, nb, what, seen):
        have = {na[f]: t for f, t in fa}
        want = {nb[f]: t for f, t in fb}
        for n, t in want.items():
            if n not in have:
                if kind(pb.types[t]) != "option":
                    return "%s needs the field %s" % (what, n)
                continue
            r = self.compat(pa, have[n], pb, t, None, seen)
            if r:
                return "%s.%s: %s" % (what, n, r)
        for n in have:
            if n not in want:
                return "%s does not accept the field %s" % (what, n)
        return None


def role(s, a):
    """which contract an address term denotes"""
    if a is s.self_addr:
        return {v: k for k, v in CRATE.items()}[s.crate]
    while a.op in ("human", "canon", "valid", "humanize", "canonicalize") or a.op == "opq" and len(a.args) == 2 and isinstance(a.args[1], X.T):
        a = a.args[-1] if isinstance(a.args[-1], X.T) else a.args[0]
    if a is s.self_addr:
        return {v: k for k, v in CRATE.items()}[s.crate]
    if a.op == "fld":
        b, n = a.args
        n = n.split(".")
        if n[-1] == "liquidity_token":
            return "token"
        if n[-1] == "halo_factory":
            return "factory"
        if len(n) > 1 and n[-2] == "Token":         # identifier of a token asset
            return "token"
        if n[-1] == "contract_addr":
            if b.op == "resp" or b.op in ("entry",):
                return "pair"                          # a registered pair
            if b.op == "fld" and b.args[1].split(".")[-1].isdigit() or "Token" in b.args[1:2] or b.op == "fld" and "asset" in basepath(b):
                return "token"
            if b.op in ("stored", "range") or b.op == "fld":
                return "pair"
        if n[-1] == "contract_address" and b.op == "sym":   # address reported by an instantiation reply
            return {"halo_factory": "pair", "halo_pair": "token"}.get(s.crate)
        if n == ["MigratePair", "contract"] or n[-1] == "contract" and s.crate == "halo_factory":
            return "pair"
    return None


def code_role(c):
    if c.op == "fld":
        n = c.args[1].split(".")
        for k, r in (("pair_code_id", "pair"), ("token_code_id", "token")):
            if k in n:
                return r
        if s_migrate(n):
            return "pair"
    return None


def s_migrate(n):
    return "code_id" in n


class Receivers:
    def __init__(self):
        self.live = {}          # (crate, entry, variant, hook) -> can succeed
        self.hooks = {}         # crate -> types its receive message decodes its payload as
        self.answers = {}       # (crate, variant) -> types of the answers

    def saw(self, label, s, r):
        w = label.split()
        if "query" in w:
            vn = w[w.index("query") + 1]
            k = (s.crate, "query", vn, None)
            self.live[k] = self.live.get(k, False) or X.sat(r.ok)
            for g, v in X.alts(r.value):
                if v.op == "json" and X.sat(B.conj(g, r.ok)):
                    self.answers.setdefault((s.crate, vn), set()).add(v.args[0])
            return
        for e in ("instantiate", "migrate", "reply"):
            if e in w:
                k = (s.crate, e, None, None)
                self.live[k] = self.live.get(k, False) or X.sat(r.ok)
                return
        if s.crate == "halo_pair":
            vn, _, h = w[2].partition("/")
        elif s.crate == "halo_factory":
            vn, h = w[2], ""
        else:
            vn, h = w[1], ""
        for k in ((s.crate, "execute", vn, h or None), (s.crate, "execute", vn, None)):
            self.live[k] = self.live.get(k, False) or X.sat(r.ok)
        for a in r.fails:
            if a.args[0] == "decode" and vn == "Receive":
                self.hooks.setdefault(s.crate, set()).add(a.args[1].args[0])


def entry_type(crate, entry):
    f = prog(crate).fns.get("%s::contract::%s" % (crate, entry))
    if f is None:
        raise Problem("anchor missing: %s::contract::%s" % (crate, entry))
    return f["inputs"][-1]


def C30(c):
    w = Wire()
    rec = Receivers()
    runs = []
    for label, s, r in every_run():
        c.ran(r, label)
        rec.saw(label, s, r)
        runs.append((label, s, r))
    seen = set()

    def deliver(inst, s, j, to, entry, where):
        """payload j of crate s is delivered to a contract of the given role"""
        if j.op == "gamma":
            for _, x in X.alts(j):
                deliver(inst, s, x, to, entry, where)
            return
        if not c.ob("payload", inst, j.op == "json", lambda: "payload is not a message: " + X.show(j)[:200], where):
            return
        tstr, v = j.args
        for _, x in X.alts(v):
            vn = vname(x)
            k = (s.crate, tstr, vn, to, entry)
            pb = prog(CRATE[to])
            ta = s.it.prog.bystr.get(tstr)
            if ta is None:
                raise Problem("type %s not found" % tstr)
            isenum = kind(s.it.prog.types[ta]) == "enum"
            tb = entry_type(CRATE[to], entry)
            if k not in seen:
                seen.add(k)
                why = w.compat(s.it.prog, ta, pb, tb, vn if isenum else None)
                name = "%s sends %s%s to a %s" % (s.crate, "::".join(tstr.split("::")[-2:]), "::" + vn if isenum else "", to)
                if not c.ob("decodes", name + (" (query)" if entry == "query" else ""), why is None, lambda: "the receiver cannot decode it: %s" % why, where):
                    continue
                if to != "token":
                    rv = w_variant(w, s.it.prog.types[ta], pb.types[tb], vn) if isenum else None
                    c.ob("handled", name, rec.live.get((CRATE[to], entry, rv, None), False), "the receiver never accepts it", where)
            # tokens sent along with a hook are delivered to the named contract
            if to == "token" and entry == "execute" and vn in ("Send", "SendFrom"):
                f = fields(x)
                for _, a in X.alts(f["contract"]):
                    hook(inst, s, f["msg"], a, where)

    def hook(inst, s, j, a, where):
        to = role(s, a)
        if not c.ob("receiver", inst + " hook", to in CRATE and to != "token", lambda: "unknown receiver of tokens " + X.show(a)[:200], where):
            return
        for _, x in X.alts(j):
            if not c.ob("payload", inst + " hook", x.op == "json", lambda: "hook payload is not a message: " + X.show(x)[:200], where):
                continue
            for _, v in X.alts(x.args[1]):
                vn = vname(v)
                k = (s.crate, x.args[0], vn, to, "hook")
                if k in seen:
                    continue
                seen.add(k)
                name = "%s sends tokens to a %s with %s::%s" % (s.crate, to, "::".join(x.args[0].split("::")[-2:]), vn)
                pb = prog(CRATE[to])
                hs = rec.hooks.get(CRATE[to], set())
                whys = [w.compat(s.it.prog, s.it.prog.bystr[x.args[0]], pb, pb.bystr[h], vn) for h in hs]
                good = any(y is None for y in whys)
                if c.ob("decodes", name, good, lambda: "the receiver cannot decode it: %s" % "; ".join(map(str, whys)), where):
                    h = [h for h, y in zip(hs, whys) if y is None][0]
                    rv = w_variant(w, s.it.prog.types[s.it.prog.bystr[x.args[0]]], pb.types[pb.bystr[h]], vn)
                    c.ob("handled", name, rec.live.get((CRATE[to], "execute", "Receive", rv), False), "the receiver never accepts it", where)

    for label, s, r in runs:
        where = r.where()
        # messages
        for g, v in X.alts(r.value):
            if not (v.op == "agg" and vname(v) == "Response"):
                continue
            for h, l in X.alts(fld(v, "messages")):
                if B.conj(r.ok, g, h) == B.F:
                    continue
                if not c.ob("payload", label, l.op == "list", "messages of unknown shape", where):
                    continue
                for sm in l.args[0]:
                    for _, on in X.alts(fld(sm, "reply_on")):
                        if vname(on) != "Never":
                            replies(c, s, r, fld(sm, "id"), label, seen)
                    for _, m in X.alts(fld(sm, "msg")):
                        if vname(m) == "Bank":
                            c.ob("bank", label, vname(m.args[2]) in ("Send", "Burn"), "unknown bank message", where)
                            continue
                        if not c.ob("message", label, vname(m) == "Wasm", lambda: "unknown message " + X.show(m)[:200], where):
                            continue
                        e = m.args[2]
                        f = fields(e)
                        if vname(e) in ("Instantiate", "Instantiate2"):
                            for _, code in X.alts(f["code_id"]):
                                to = code_role(code)
                                if c.ob("receiver", label, to is not None, lambda: "unknown code " + X.show(code)[:200], where):
                                    deliver(label, s, f["msg"], to, "instantiate", where)
                        elif vname(e) in ("Execute", "Migrate"):
                            for _, a in X.alts(f["contract_addr"]):
                                to = role(s, a)
                                if c.ob("receiver", label, to is not None, lambda: "unknown receiver " + X.show(a)[:300], where):
                                    deliver(label, s, f["msg"], to, vname(e).lower(), where)
        # queries
        for a in r.fails:
            if a.args[0] != "query":
                continue
            q, ty = a.args[1], a.args[2].args[0]
            for _, x in X.alts(q):
                if vname(x) == "Bank":
                    vn = vname(x.args[2])
                    c.ob("answer", "%s bank %s" % (s.crate, vn), ty.split("::")[-1] == BANK.get(vn), "the bank's answer to %s is read as %s" % (vn, ty), where)
                    continue
                if not c.ob("query", label, vname(x) == "Wasm" and vname(x.args[2]) == "Smart", lambda: "unknown query " + X.show(x)[:200], where):
                    continue
                f = fields(x.args[2])
                for _, ad in X.alts(f["contract_addr"]):
                    to = role(s, ad)
                    if not c.ob("receiver", label + " query", to is not None, lambda: "unknown contract asked: " + X.show(ad)[:300], where):
                        continue
                    deliver(label, s, f["msg"], to, "query", where)
                    for _, j in X.alts(f["msg"]):
                        if j.op != "json":
                            continue
                        for _, m in X.alts(j.args[1]):
                            answer(c, w, rec, s, to, vname(m), ty, seen, where)


def w_variant(w, ta, tb, vn):
    n = w.names.variants(ta)[vn]
    return {v: k for k, v in w.names.variants(tb).items()}.get(n)


def answer(c, w, rec, s, to, vn, ty, seen, where):
    k = (s.crate, to, vn, ty, "answer")
    if k in seen:
        return
    seen.add(k)
    inst = "%s asks a %s for %s" % (s.crate, to, vn)
    if to == "token":
        c.ob("answer", inst, ty.split("::")[-1] == CW20.get(vn), "the answer is read as %s" % ty, where)
        return
    got = rec.answers.get((CRATE[to], vn), set())
    if not c.ob("answer", inst, bool(got), "the receiver never answers", where):
        return
    for t in got:
        why = None if t == ty else w.compat(prog(CRATE[to]), prog(CRATE[to]).bystr[t], s.it.prog, s.it.prog.bystr[ty])
        c.ob("answer", inst, why is None, lambda: "the answer %s is read as %s: %s" % (t, ty, why), where)


def replies(c, s, r, ident, label, seen):
    for _, i in X.alts(ident):
        k = (s.crate, i, "reply")
        if k in seen:
            continue
        seen.add(k)
        ok = False
        for kinds in ALL if s.crate == "halo_pair" else ("",):
            s2 = Pair(kinds) if kinds else Fac() if s.crate == "halo_factory" else Scen(s.crate)
            f = s2.it.prog.fns.get("%s::contract::reply" % s.crate)
            if f is None:
                break
            m = setfld(s2.it.fresh(f["inputs"][-1], mk("sym", "msg")), "id", i)
            r2 = s2.entry("reply", m)
            c.ran(r2, "%s reply %s" % (s.crate, X.show(i)))
            ok = ok or X.sat(r2.ok)
        c.ob("reply", "%s reply %s" % (s.crate, X.show(i)), ok, "a reply is requested with an id the contract does not handle", r.where())
