"""C52, C53: the JSON interface and the stored state, from the code serde generated for the repository's types."""
import json, os
from scen import *
from props_wire import Receivers, entry_type, CRATE
from props_cross import every_run

SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "interface.json")
NUM = {"cosmwasm_std::math::uint128::Uint128": "number text (128 bits)", "cosmwasm_std::math::uint64::Uint64": "number text (64 bits)",
       "cosmwasm_std::math::decimal::Decimal": "decimal text", "cosmwasm_std::math::uint256::Uint256": "number text (256 bits)"}
TEXT = ("alloc::string::String", "cosmwasm_std::addresses::Addr", "str")
BYTES = ("&[u8]", "alloc::vec::Vec<u8>", "&str", "alloc::string::String", "&alloc::string::String", "&alloc::vec::Vec<u8>")
PENDING = ("tmp_pair_info",)    # written and read within one transaction
SELF = re.compile(r"<impl serde::(ser::Serialize|de::Deserialize<'de>) for (.*?)>::(?:serialize|deserialize)")


def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<[(":
            d += 1
        if ch in ">])":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + ([cur.strip()] if cur.strip() else [])


class Derived:
    """what the derived serde code of one type writes and accepts"""

    def __init__(self, name):
        self.name = name
        self.ser = None         # ("struct", [(field, type)]) or ("enum", [(tag, kind, content)]) or ("newtype", type)
        self.accepts = []       # per record (struct, or struct variant in order): the field names accepted
        self.strict = []        # per record: unknown fields are refused
        self.required = []      # per record: fields whose absence is an error (or None for an optional one)
        self.read = []          # per record: types read, in order
        self.tags = None        # enum: tags accepted
        self.odd = []           # anything else
        self.where = ""


class Serde:
    def __init__(self, crates):
        self.t = {}
        self.fields = {}
        seen = set()
        for cr in crates:
            p = prog(cr)
            for x in p.d["wire"]:
                k = (x["path"], x["line"], x["file"], json.dumps(x["calls"]))
                m = SELF.search(x["path"])
                if not m:
                    continue
                d = self.t.setdefault(m.group(2), Derived(m.group(2)))
                d.where = "%s:%s" % (x["file"], x["line"])
                self.add(d, x)
            for t in p.types:
                if t["k"] == "adt" and t.get("variants"):
                    self.fields[t["path"]] = {tuple([v[0] for v in t["variants"]]): t}

    def add(self, d, x):
        path, calls = x["path"], x["calls"]
        texts = lambda c: [k["v"] for k in c[2] if k["k"] == "str"]
        if x["trait"].endswith("::Serialize") and path.endswith("::serialize"):
            self.ser(d, calls)
            return
        inner = path[path.rindex("::deserialize"):]
        if x["trait"].endswith("::Deserialize"):
            if "__Field as" in path:
                return
            for c in calls:
                f = c[0].split("::")[-1]
                if f not in ("deserialize_struct", "deserialize_enum", "deserialize_newtype_struct"):
                    d.odd.append("is read with " + c[0])
            return
        meth = path.rsplit("::", 1)[1]
        field = "__FieldVisitor as" in path
        nested = "visit_enum::" in path
        if field and meth == "visit_str":
            names = [t for c in calls if c[0].endswith("PartialEq::eq") for t in texts(c)]
            strict = any(c[0].endswith(("Error::unknown_field", "Error::unknown_variant")) for c in calls)
            if any(c[0].endswith("Error::unknown_variant") for c in calls) or self.is_enum(d) and not nested:
                d.tags = names
                if not strict:
                    d.odd.append("accepts unknown tags")
            else:
                d.accepts.append(names)
                d.strict.append(strict)
        elif not field and meth == "visit_map":
            read = [c[1][-1] for c in calls if c[0].endswith("MapAccess::next_value")]
            d.read.append([t for t in read if not t.endswith("IgnoredAny")])
            d.required.append([t for c in calls if c[0].endswith("missing_field") for t in texts(c)])
            for c in calls:
                f = c[0].split("::")[-1]
                if f not in ("next_key", "next_value", "is_some", "is_none", "missing_field", "duplicate_field", "from_residual", "branch", "map"):
                    d.odd.append("is read with " + c[0])
        elif not field and meth == "visit_enum":
            for c in calls:
                f = c[0].split("::")[-1]
                if f not in ("variant", "struct_variant", "newtype_variant", "unit_variant", "tuple_variant", "map", "from_residual", "branch"):
                    d.odd.append("is read with " + c[0])
        elif meth.startswith("visit_") and not field and meth not in ("visit_seq", "visit_newtype_struct"):
            d.odd.append("is read with " + meth)

    def is_enum(self, d):
        return d.ser is not None and d.ser[0] == "enum"

    def ser(self, d, calls):
        cur = None
        for c in calls:
            f = c[0].split("::")[-1]
            ks = [k.get("v") for k in c[2]]
            if f == "serialize_struct":
                d.ser = ("struct", [])
                cur = d.ser[1]
            elif f == "serialize_struct_variant":
                d.ser = d.ser or ("enum", [])
                cur = []
                d.ser[1].append([int(ks[1]), ks[2], "fields", cur])
            elif f == "serialize_newtype_variant":
                d.ser = d.ser or ("enum", [])
                d.ser[1].append([int(ks[1]), ks[2], "value", c[1][-1]])
            elif f == "serialize_unit_variant":
                d.ser = d.ser or ("enum", [])
                d.ser[1].append([int(ks[1]), ks[2], "unit", None])
            elif f == "serialize_newtype_struct":
                d.ser = ("newtype", c[1][-1])
            elif f == "serialize_field" and cur is not None:
                cur.append((ks[-1], c[1][-1]))
            elif f in ("end", "from_residual", "branch"):
                pass
            else:
                d.odd.append("is written with " + c[0])

    # ---- the JSON shape of a type
    def shape(self, s, stack=()):
        s = re.sub(r"&'?[a-z_]* ?(mut )?", "", s).strip()
        if s in TEXT:
            return "text"
        if s in NUM:
            return NUM[s]
        if re.fullmatch(r"[ui](8|16|32|64|128|size)", s):
            return "number (%s)" % s
        if s == "bool":
            return "true or false"
        m = re.fullmatch(r"\[(.*); (\d+)\]", s)
        if m:
            return {"list of exactly %s" % m.group(2): self.shape(m.group(1), stack)}
        for p, nm in (("alloc::vec::Vec<", "list"), ("core::option::Option<", "optional"), ("alloc::boxed::Box<", None)):
            if s.startswith(p):
                a = self.shape(split_args(s[len(p):-1])[0], stack)
                return a if nm is None else {nm: a}
        d = self.t.get(s)
        if d is None or d.ser is None:
            return "as " + s
        if s in stack:
            return "recursive " + s
        stack += (s,)
        if d.ser[0] == "newtype":
            return self.shape(d.ser[1], stack)
        if d.ser[0] == "struct":
            r = self.record(d, d.ser[1], 0, stack)
        else:
            r, k = {}, 0
            for i, tag, kd, cn in sorted(d.ser[1], key=lambda v: v[0]):
                if kd == "fields":
                    r[tag] = self.record(d, cn, k, stack)
                    k += 1
                else:
                    r[tag] = "no content" if kd == "unit" else self.shape(cn, stack)
            r = {"one of": r}
            extra = sorted(set(d.tags or []) - {v[1] for v in d.ser[1]})
            if extra:
                r["also accepted"] = extra
        if d.odd:
            r["irregular"] = sorted(set(d.odd))
        return r

    def record(self, d, fs, k, stack):
        r = {n: self.shape(t, stack) for n, t in fs}
        if k < len(d.accepts):
            extra = sorted(set(d.accepts[k]) - {n for n, t in fs})
            if extra:
                r["(also accepted)"] = extra
            if not d.strict[k]:
                r["(unknown fields)"] = "accepted"
            opt = sorted(n for n, t in fs if k < len(d.required) and n not in d.required[k])
            if opt:
                r["(defaulted when absent)"] = opt
        return r


def repository_types():
    return Serde(("bignumber", "haloswap", "halo_pair", "halo_factory", "halo_router", "halo_token"))


def interface(c=None):
    """the JSON shapes of every entry point's message, hook and answer, and of the storage cells"""
    sd = repository_types()
    rec = Receivers()
    cells = {}
    for label, s, r in every_run():
        if c is not None:
            c.ran(r, label)
        rec.saw(label, s, r)
        if s.crate == "halo_token":
            continue
        for kd, ns, kt, vt in r.it.cells:
            cells.setdefault((s.crate, kd, ns), set()).add((
                "bytes" if re.sub(r"'[a-z_]+ ", "", kt) in BYTES else kt, vt))
    out = {"messages": {}, "hooks": {}, "answers": {}, "storage": {}}
    sd.where = {}

    def at(k, *ts):
        sd.where[k] = ", ".join("%s (%s)" % (t, sd.t[t].where) if t in sd.t else t for t in ts)
    for role, cr in sorted(CRATE.items()):
        for e in ("instantiate", "execute", "query", "migrate"):
            if "%s::contract::%s" % (cr, e) in prog(cr).fns:
                t = prog(cr).types[entry_type(cr, e)]["s"]
                out["messages"]["%s %s" % (role, e)] = sd.shape(t)
                at("%s %s" % (role, e), t)
    for cr, hs in sorted(rec.hooks.items()):
        out["hooks"][cr] = [sd.shape(h) for h in sorted(hs)]
        at(cr, *sorted(hs))
    for (cr, vn), ts in sorted(rec.answers.items()):
        tags = [v[1] for v in sorted(sd.t[prog(cr).types[entry_type(cr, "query")]["s"]].ser[1], key=lambda v: v[0])]
        names = [v[0] for v in prog(cr).types[entry_type(cr, "query")]["variants"]]
        k = "%s %s" % (cr, dict(zip(names, tags)).get(vn, vn))
        out["answers"][k] = [sd.shape(t) for t in sorted(ts)]
        at(k, *sorted(ts))
    for (cr, kd, ns), ts in sorted(cells.items()):
        if ns in PENDING:
            continue
        at("%s %s %s" % (cr, kd, ns), *[v for k, v in sorted(ts)])
        out["storage"]["%s %s %s" % (cr, kd, ns)] = [dict({"value": sd.shape(v)}, **({"key": k} if k else {})) for k, v in sorted(ts)]
    return out, sd


def diff(a, b, path=""):
    """first differences between the specified shape and the one in the code"""
    if type(a) is not type(b):
        return ["%s: specified %s, the code has %s" % (path, brief(a), brief(b))]
    if isinstance(a, dict):
        r = []
        for k in a:
            if k not in b:
                r.append("%s: %s is missing" % (path, k))
            else:
                r += diff(a[k], b[k], path + "/" + k)
        for k in b:
            if k not in a:
                r.append("%s: %s is new (%s)" % (path, k, brief(b[k])))
        return r
    if isinstance(a, list):
        if len(a) != len(b):
            return ["%s: specified %s, the code has %s" % (path, brief(a), brief(b))]
        return [x for i, (p, q) in enumerate(zip(a, b)) for x in diff(p, q, "%s/%d" % (path, i))]
    return [] if a == b else ["%s: specified %s, the code has %s" % (path, brief(a), brief(b))]


def brief(x):
    return json.dumps(x)[:160]


def leaves(x):
    if isinstance(x, dict):
        return sum(leaves(v) for v in x.values()) or 1
    if isinstance(x, list):
        return sum(map(leaves, x)) or 1
    return 1


def compare(c, parts):
    want = json.load(open(SPEC))
    got, sd = interface(c)
    for part in parts:
        for k, w in want[part].items():
            if not c.ob(part, k, k in got[part], "no longer present"):
                continue
            ds = diff(w, got[part][k])
            for _ in range(leaves(w)):
                c.ob(part, k, True)
            c.ob(part, k, not ds, lambda: "; ".join(ds[:4]), sd.where.get(k, ""))
    return got, sd


def C52(c):
    got, sd = compare(c, ("messages", "hooks", "answers"))
    c.extra["types with derived encodings"] = len(sd.t)


def C53(c):
    got, sd = compare(c, ("storage",))
    for n, d in sorted(sd.t.items()):
        if d.ser is None:
            continue
        recs = []
        if d.ser[0] == "struct":
            recs = [(n, d.ser[1])]
        elif d.ser[0] == "enum":
            vs = sorted(d.ser[1], key=lambda v: v[0])
            recs = [("%s %s" % (n, v[1]), v[3]) for v in vs if v[2] == "fields"]
            if d.tags is not None:
                for v in vs:
                    c.ob("read-back", "%s %s" % (n, v[1]), v[1] in d.tags, "the tag %s that is written is not accepted" % v[1], d.where)
        odd = {o for o in d.odd if not o.endswith("Default::default")}      # a default only matters for what was never written
        if "is written with core::option::Option::<T>::is_none" in odd and any(o.endswith("Default::default") for o in d.odd):
            odd -= {"is written with core::option::Option::<T>::is_none", "is written with serde::ser::SerializeStruct::skip_field"}
        c.ob("regular", n, not odd, lambda: "; ".join(sorted(odd)), d.where)
        if not d.accepts and not d.read:
            continue        # only written
        if not c.ob("read-back", n + " records", len(recs) == len(d.accepts) == len(d.read),
                    "the written and the read form have different structure", d.where):
            continue
        for (inst, fs), acc, req, rd in zip(recs, d.accepts, d.required, d.read):
            for f, t in fs:
                c.ob("read-back", "%s.%s" % (inst, f), f in acc, "the field %s is written but not accepted" % f, d.where)
            for f in req:
                c.ob("read-back", "%s.%s" % (inst, f), f in [x for x, _ in fs], "the field %s is required but never written" % f, d.where)
            c.ob("read-back", inst + " types", sorted(t for _, t in fs) == sorted(rd),
                 lambda: "fields are written as %s and read as %s" % (sorted(t for _, t in fs), sorted(rd)), d.where)
            t = STRUCT_FIELDS(n, inst, d)
            if t is not None:
                c.ob("complete", inst, len(fs) == t, "%d of %d fields are written" % (len(fs), t), d.where)


def STRUCT_FIELDS(n, inst, d):
    """number of fields the type declares"""
    p = X.STRUCT.get(n)
    if p is None:
        return None
    if d.ser[0] == "struct":
        return len(p[0][1])
    tag = inst.rsplit(" ", 1)[1]
    for i, tg, kd, cn in d.ser[1]:
        if tg == tag and i in p:
            return len(p[i][1])
    return None
