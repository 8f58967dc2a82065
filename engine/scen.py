"""Scenarios: one entry point of one contract analysed for a family of inputs (fixed shapes, symbolic contents),
and the obligations a property places on the result."""
import itertools, json, re
import bounds
from run import *
import interp as I


class Problem(Exception):
    """an anchor is missing or the analysis cannot establish the property (fail closed)"""


def vname(x):
    return X.STRUCT[x.args[0]][x.args[1]][0] if x.op == "agg" and x.args[0] in X.STRUCT else None


def fields(x):
    info = X.STRUCT[x.args[0]][x.args[1]]
    return dict(zip(info[1], x.args[2:]))


def fld(v, name):
    """field of a structure value (alternative-wise)"""
    def f(x):
        if x.op != "agg" or x.args[0] not in X.STRUCT:
            raise Problem("expected a structure with field %s, found %s" % (name, X.show(x)[:120]))
        fl = X.STRUCT[x.args[0]][x.args[1]][1]
        if name not in fl:
            raise Problem("%s has no field %s" % (x.args[0], name))
        return x.args[2 + fl.index(name)]
    return X.lift(f, v)


def basepath(base):
    """'root|a.b.c' for the base term of an unknown value"""
    fs = []
    while base.op == "fld":
        fs.append(base.args[1])
        base = base.args[0]
    op = base.op
    if op == "sym":
        r = "sym:" + base.args[0]
    elif op in ("stored", "entry", "range"):
        r = op + ":" + (base.args[0].args[0] if base.args[0].op == "str" else "?")
    elif op == "decoded":
        r = "decoded:" + base.args[1].args[0]
    else:
        r = op
    return r + "|" + ".".join(reversed(fs))


class Run:
    """result of analysing one entry point"""

    def __init__(self, scen, key, st, ret):
        it = scen.it
        self.scen, self.it, self.key = scen, it, key
        self.guard, self.store = st.guard, st.store
        self.reverts = list(it.reverts)
        self.fails = dict(it.fails)
        self.ret = ret
        self.ok, self.err, outs = B.F, B.F, []
        self.errs = []
        for g, v in X.alts(ret):
            g = B.conj(g, st.guard)
            if g == B.F:
                continue
            if v.op == "agg" and v.args[0] == I.RES:
                if v.args[1] == 0:
                    self.ok = B.disj(self.ok, g)
                    outs.append((g, v.args[2]))
                else:
                    self.err = B.disj(self.err, g)
                    self.errs.append((g, v.args[2]))
            else:
                self.ok = B.disj(self.ok, g)
                outs.append((g, v))
        self.value = X.mkgamma(outs) if outs else UNDEF

    @property
    def nofail(self):
        """no host operation (storage, query, address conversion, (de)coding) fails"""
        r = B.T
        for a in self.fails:
            r = B.conj(r, B.neg(B.var(a)))
        return r

    def at(self, mp):
        """the same run for particular values of some inputs"""
        r = Run.__new__(Run)
        r.__dict__.update(self.__dict__)
        memo = {}
        for k in ("ok", "err", "guard"):
            setattr(r, k, X.substg(getattr(self, k), mp, memo))
        r.reverts = [(X.substg(g, mp, memo),) + tuple(x) for g, *x in self.reverts]
        r.fails = {X.substitute(a, mp, memo): v for a, v in self.fails.items()}
        return r

    def messages(self):
        """list value of the submessages of the response"""
        return fld(self.value, "messages")

    def attributes(self):
        return fld(self.value, "attributes")

    def where(self):
        b = self.it.prog.raw.get(self.key, {})
        return "%s (%s:%s)" % (self.key, b.get("file"), b.get("line"))


class Scen:
    def __init__(self, crate, shapes=(), vec_bound=None, label="", models=None):
        self.crate = crate
        self.rules = [(re.compile(a), re.compile(b), c) for a, b, c in shapes]
        self.label = label
        self.it = interp(crate, vec_bound=bounds.default(crate) if vec_bound is None else vec_bound)
        self.it.shape = self._shape
        if models:
            self.it.models = M.Models()
            self.it.models.extra = dict(models)
        self.guard = B.T
        self.info_b, self.env_b = mk("sym", "info"), mk("sym", "env")
        self.sender = mk("fld", self.info_b, "sender")
        self.self_addr = mk("fld", mk("fld", self.env_b, "contract"), "address")
        X.NORMALIZED.add(self.sender)
        X.NORMALIZED.add(self.self_addr)
        self._types = {}

    def _shape(self, base, ty):
        s = basepath(base)
        for a, b, c in self.rules:
            if b.search(ty["path"]) and a.search(s):
                return c(base, ty) if callable(c) else c
        return None

    def assume(self, *conds):
        self.guard = B.conj(self.guard, *conds)

    # ---- building values
    def fn(self, key):
        k = key if key.startswith("<") or "::" in key and key.split("::")[0] in ("haloswap", "bignumber") else "%s::%s" % (self.crate, key)
        r = self.it.prog.fns.get(k)
        if r is None:
            raise Problem("anchor missing: function %s" % k)
        return k, r

    def type(self, suffix):
        if suffix not in self._types:
            c = [i for i, t in enumerate(self.it.T) if t["k"] == "adt" and
                 (t["path"] == suffix or t["path"].endswith("::" + suffix)) and t.get("variants")]
            ps = {self.it.T[i]["path"] for i in c}
            if len(ps) != 1:
                raise Problem("anchor missing or ambiguous: type %s in %s (%s)" % (suffix, self.crate, ", ".join(sorted(ps))))
            self._types[suffix] = c[0]
        return self._types[suffix]

    def tpath(self, suffix):
        return self.it.T[self.type(suffix)]["path"]

    def make(self, suffix, vn=None, **f):
        f = {k.lstrip("_") if k.startswith("_") and k[1:].isdigit() else k: v for k, v in f.items()}
        return self.it.variant(self.type(suffix), vn, **f)

    def fresh(self, suffix, base):
        if isinstance(base, str):
            base = mk("sym", base)
        return self.it.fresh(self.type(suffix), base)

    def json(self, suffix, vn=None, **f):
        return mk("json", self.it.ts(self.type(suffix)), self.make(suffix, vn, **f))

    def opt(self, x):
        return I.NONE if x is None else I.some(x)

    def info(self, sender=None, funds=None):
        return self.make("MessageInfo", sender=sender or self.sender,
                         funds=funds if funds is not None else I.lst([]))

    # ---- running
    def call(self, key, *args):
        k, r = self.fn(key)
        if len(args) != len(r["inputs"]):
            raise Problem("anchor changed: %s takes %d arguments" % (k, len(r["inputs"])))
        st = I.State(self.guard)
        v = self.it.run_body(k, list(args), st)
        return Run(self, k, st, v)

    def entry(self, name, msg, info=None):
        k, r = self.fn("contract::" + name)
        ins = r["inputs"]
        ctx = [self.it.fresh(t, mk("sym", n)) for t, n in zip(ins[:-1], ["deps", "env", "info"])]
        if len(ins) == 4 and info is not None:
            ctx[2] = info
        st = I.State(self.guard)
        v = self.it.run_body(k, ctx + [msg], st)
        return Run(self, k, st, v)

    def zoo_arg(self, i, t):
        """the i-th argument of a function, symbolic (development tool tools/zoo.py)"""
        return self.it.fresh(t, mk("sym", "arg%d_%d" % (i, t)))

    # ---- requests
    def q_smart(self, addr, msg):
        return self.make("QueryRequest", "Wasm", _0=self.make("WasmQuery", "Smart", contract_addr=addr, msg=msg))

    def q_bank(self, addr, denom):
        return self.make("QueryRequest", "Bank", _0=self.make("BankQuery", "Balance", address=addr, denom=denom))

    def r_bank(self, addr, denom):
        return mkfld(mk("resp", self.q_bank(addr, denom)), "amount", "amount")

    def r_cw20(self, token, addr):
        return mkfld(mk("resp", self.q_smart(token, self.json("Cw20QueryMsg", "Balance", address=addr))), "balance")

    def r_token_info(self, token, f):
        return mkfld(mk("resp", self.q_smart(token, self.json("Cw20QueryMsg", "TokenInfo"))), f)

    # ---- messages
    def submsg(self, m, id=0, on="Never"):
        return self.make("SubMsg", id=INT(id), msg=m, gas_limit=I.NONE, reply_on=self.make("ReplyOn", on))

    def m_exec(self, contract, payload, funds=None):
        return self.make("CosmosMsg", "Wasm", _0=self.make("WasmMsg", "Execute", contract_addr=contract, msg=payload,
                                                           funds=funds if funds is not None else I.lst([])))

    def m_bank(self, to, denom, amount):
        return self.make("CosmosMsg", "Bank", _0=self.make("BankMsg", "Send", to_address=to,
                                                           amount=I.lst([self.coin(denom, amount)])))

    def coin(self, denom, amount):
        return self.make("Coin", denom=denom, amount=amount)

    def m_transfer(self, token, to, amount):
        return self.m_exec(token, self.json("Cw20ExecuteMsg", "Transfer", recipient=to, amount=amount))


def mkfld(base, *path):
    for p in path:
        base = mk("fld", base, p)
    return base


# ------------------------------------------------------------------------------------------------ obligations

class Check:
    """obligations of one property"""

    def __init__(self, pid, thorough=False):
        self.pid = pid
        self.thorough = thorough
        self.obs = 0
        self.violations = []    # (key, text)
        self.samples = []
        self.scens = []
        self.fnset = set()
        self.runs = 0
        self.calls = 0
        self.steps = 0
        self.extra = {}
        self.rules = {}

    def absorb(self, o):
        """take over the obligations of another check object"""
        self.obs += o.obs
        self.violations += o.violations
        self.samples += o.samples
        for k, n in o.rules.items():
            self.rules[k] = self.rules.get(k, 0) + n

    def ran(self, r, label=""):
        self.runs += 1
        self.calls += r.it.calls
        self.steps += r.it.steps
        self.fnset |= {k for k in r.it.visited}
        if label:
            self.scens.append(label)
        if r.ok == B.F and not getattr(r, "allow_reject", False):
            pass
        return r

    def ob(self, rule, inst, good, why="", where=""):
        self.obs += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if len(self.samples) < 400:
            self.samples.append((rule, inst, bool(good), where))
        if not good:
            w = why() if callable(why) else why
            self.violations.append(("%s:%s:%s" % (self.pid, rule, inst), w, where))
        return good

    # ---- obligations on runs
    def live(self, r, inst, cond=None):
        """the scenario has a successful outcome (guards against vacuous passes)"""
        g = r.ok if cond is None else B.conj(r.ok, cond)
        return self.ob("reachable", inst, X.sat(g), "no successful outcome is possible", r.where())

    def always(self, r, rule, inst, cond, under=None):
        """success implies cond"""
        g = B.conj(r.ok, B.neg(cond))
        if under is not None:
            g = B.conj(g, under)
        bad = X.sat(g, B.support(cond))
        return self.ob(rule, inst, not bad, lambda: "succeeds although the condition does not hold, e.g. when " + wit(g), r.where())

    def same(self, r, rule, inst, got, want, under=None):
        """got equals want (or one of the wants) whenever the call succeeds"""
        wants = want if isinstance(want, (list, tuple)) else [want]
        g = r.ok if under is None else B.conj(r.ok, under)
        first = None
        for w in wants:
            d = X.equal_under(got, w, g)
            if d is None:
                return self.ob(rule, inst, True, where=r.where())
            first = first or d
        return self.ob(rule, inst, False, lambda: "expected %s, found %s when %s" % (
            X.show(first[2])[:600], X.show(first[1])[:600], wit(first[0])), r.where())

    def never_err(self, r, rule, inst, cond):
        """under cond (and no failing host operation) the call does not return an error or panic in contract code"""
        c = B.conj(cond, r.nofail, B.neg(r.it.unfit))   # like the overflows below, a ratio that does not fit its type
        g = B.conj(r.err, c)
        bad = X.sat(g)
        ok = self.ob(rule, inst, not bad, lambda: "rejected although it should not be, when " + wit(g), r.where())
        for rg, kind, text, wh in r.reverts:
            if not (contract_site(wh) and "verflow" not in kind or "zero" in (kind + text).lower()):
                continue        # overflows of the number library are bounded by C51, not here
            h = B.conj(rg, c)
            ok &= self.ob(rule, inst + ":" + wh[0].split("::")[-1], not X.sat(h), lambda: "aborts (%s) when %s" % (text, wit(h)),
                          "%s %s:%s" % wh[:3])
        return ok

    def rejected(self, r, rule, inst, cond=B.T):
        """the call never succeeds under cond"""
        return self.always(r, rule, inst, B.neg(cond))

    def store_only(self, r, rule, inst, allowed=()):
        """nothing but the allowed cells is written"""
        for k, v in r.store.items():
            if k in allowed:
                continue
            init = r.it.init_store(k)
            if v is init or v.op == "mapst" and not v.args[1]:
                continue
            g = r.ok
            for h, x in X.alts(v):
                if x is init or x.op == "mapst" and not x.args[1]:
                    continue
                gg = B.conj(g, h)
                self.ob(rule, "%s:%s" % (inst, "/".join(map(str, k))), not X.sat(gg),
                        lambda: "state %s is changed: %s when %s" % ("/".join(map(str, k)), X.show(x)[:300], wit(gg)), r.where())
        self.ob(rule, inst, True, where=r.where())

    def msgs(self, r, rule, inst, want, ordered=False, under=None):
        """the emitted messages are exactly `want` (gamma over lists of SubMsg)"""
        got = r.messages()
        g0 = r.ok if under is None else B.conj(r.ok, under)
        for g1, gl in X.alts(got):
            a = B.conj(g0, g1)
            if a == B.F:
                continue
            for g2, wl in X.alts(want):
                b = B.conj(a, g2)
                if b == B.F or not X.sat(b):
                    continue
                if gl.op != "list":
                    self.ob(rule, inst, False, "messages of unknown shape " + X.show(gl)[:200], r.where())
                    continue
                gs, ws = gl.args[0], wl.args[0]
                if len(gs) != len(ws):
                    self.ob(rule, inst, False, lambda: "%d messages instead of %d: %s when %s" % (
                        len(gs), len(ws), "; ".join(X.show(x)[:300] for x in gs), wit(b)), r.where())
                    continue
                perms = [tuple(range(len(ws)))] if ordered else itertools.permutations(range(len(ws)))
                best = None
                for p in perms:
                    diffs = []
                    for x, j in zip(gs, p):
                        d = X.equal_under(x, ws[j], b)
                        if d is not None:
                            diffs.append(d)
                            break
                    if not diffs:
                        best = None
                        break
                    best = best or diffs[0]
                self.ob(rule, inst, best is None, lambda: "message differs: expected %s, found %s when %s" % (
                    X.show(best[2])[:500], X.show(best[1])[:500], wit(best[0])), r.where())

    def listeq(self, rule, inst, gs, ws, g, where):
        """two collections of values are equal up to order whenever g"""
        if len(gs) != len(ws):
            return self.ob(rule, inst, False, lambda: "%d messages instead of %d: %s when %s" % (
                len(gs), len(ws), "; ".join(X.show(x)[:300] for x in gs), wit(g)), where)
        best = None
        for p in itertools.permutations(range(len(ws))):
            d = None
            for x, j in zip(gs, p):
                d = X.equal_under(x, ws[j], g)
                if d is not None:
                    break
            if d is None:
                best = None
                break
            best = best or d
        return self.ob(rule, inst, best is None, lambda: "expected %s, found %s when %s" % (
            X.show(best[2])[:500], X.show(best[1])[:500], wit(best[0])), where)

    def attrs(self, r, rule, inst, want, under=None):
        """each named attribute is present exactly once with the given value; want: {key: value or [values]}"""
        got = r.attributes()
        g0 = r.ok if under is None else B.conj(r.ok, under)
        for g1, gl in X.alts(got):
            a = B.conj(g0, g1)
            if a == B.F or not X.sat(a):
                continue
            if gl.op != "list":
                self.ob(rule, inst, False, "attributes of unknown shape", r.where())
                continue
            have = {}
            for at in gl.args[0]:
                k = fld(at, "key")
                if k.op == "str":
                    have.setdefault(k.args[0], []).append(fld(at, "value"))
            for k, w in want.items():
                h = have.get(k, [])
                if len(h) != 1:
                    self.ob(rule, inst + ":" + k, False, "attribute %s occurs %d times" % (k, len(h)), r.where())
                    continue
                ok, first = False, None
                for ww in (w if isinstance(w, list) else [w]):
                    d = X.equal_under(h[0], ww, a)
                    if d is None:
                        ok = True
                        break
                    first = first or d
                self.ob(rule, inst + ":" + k, ok, lambda: "attribute %s: expected %s, found %s when %s" % (
                    k, X.show(first[2])[:400], X.show(first[1])[:400], wit(first[0])), r.where())


def contract_site(wh):
    """a source location inside the repository's contract or package code (not the number library)"""
    return wh != "?" and not wh[0].startswith(("bignumber", "<bignumber", "bigint", "<bigint", "core", "<core", "cosmwasm",
                                               "<cosmwasm")) and "bigint" not in (wh[1] or "")


WIT = int(__import__("os").environ.get("WIT", "1200"))


def wit(g):
    """one way the condition can hold, readable"""
    if X.RESIDUE is not None and B.conj(X.RESIDUE, g) != B.F:
        g = B.conj(X.RESIDUE, g)
    for c in B.cubes(g, 30):
        if X.feasible(B.from_lits(c)):
            parts = [("" if v else "not ") + X.show(B.atom(l)) for l, v in sorted(c.items()) if not (
                B.atom(l).op == "fail" and not v)]
            return " and ".join(parts)[:WIT]
    return gshow(g)[:1200]


inttext = M.inttext


def _unused(v):
    return X.lift(lambda x: mk("inttext", x), v)
