"""Which list lengths have to be analysed: the constants that the code compares list lengths and positions with.

A list is only inspected through its length, positions and its elements. If no comparison, slice operation or iterator adaptor in
the code of a function mentions a number above k, lists longer than k+1 run through the same branches as shorter ones, so the rules
analyse lengths around every such number."""
import json, os, re
import dump

WS = ("halo_pair", "halo_factory", "halo_router", "halo_token", "haloswap")
TEXT = re.compile(r"\bstr>::|\bstr::|String|alloc::string|char")
ADAPT = re.compile(r"(::iter::|::slice::|Vec::<|vec_deque|BTreeMap|HashMap|BTreeSet|HashSet)")
ARITH = re.compile(r"cmp::Ord|cmp::Partial|cmp::min|cmp::max|impl usize|num::<impl usize|ops::arith")
CMP = ("Lt", "Le", "Gt", "Ge", "Eq", "Ne", "Cmp")
CAP = 12
_c = {}


def thresholds(crate):
    """{constant: [(function, file, line)]} for the workspace code that the contract can reach"""
    if crate in _c:
        return _c[crate]
    d = json.load(open(os.path.join(dump.TGT, "mir", crate + ".json")))
    T = d["types"]

    def ty(i):
        return T[i]["s"] if i is not None and i < len(T) and "s" in T[i] else ""

    out = {}
    for name, b in d["bodies"].items():
        if b["krate"] not in WS or re.search(r"::(testing|mock_querier|integration_test|env_setup)::|_::<impl|serde|schemars", name):
            continue
        b["blocks"] = [x for x in b["blocks"] if x]
        loc = [ty(i) for i in b["locals"]]
        text, const, size = set(), {}, {i for i, t in enumerate(loc) if t == "usize"}
        stmts = [(s, bl) for bl in b["blocks"] if bl.get("s") is not None for s in bl["s"]]
        calls = [bl["t"] for bl in b["blocks"] if bl.get("t") and bl["t"][0] == "call"]

        def src(op):
            """local an operand reads as a whole"""
            return op[1][0] if op[0] in "mc" and not op[1][1] else None

        def lit(op):
            if op[0] == "k" and op[1].get("k") == "int":
                return int(op[1]["v"])
            s = src(op)
            return const.get(s) if s is not None else None
        defs = {}
        for s, bl in stmts:
            if s[0] == "=" and not s[1][1]:
                defs.setdefault(s[1][0], []).append(s[2])
        for c in calls:
            if not c[3][1]:
                defs.setdefault(c[3][0], []).append(c)
        for l, ds in defs.items():
            if len(ds) == 1 and ds[0][0] == "use" and ds[0][1][0] == "k" and ds[0][1][1].get("k") == "int":
                const[l] = int(ds[0][1][1]["v"])
        for _ in range(4):
            for l, ds in defs.items():
                for r in ds:
                    if r[0] == "call":
                        fn = r[1][1].get("fn", {}) if r[1][0] == "k" else {}
                        p = fn.get("rpath", "")
                        if TEXT.search(p) or p.endswith("::len") and [ty(i) for i in fn.get("rargs", [])][:1] == ["u8"]:
                            text.add(l)
                    else:
                        for op in r[1:]:
                            if isinstance(op, list) and op and op[0] in ("m", "c"):
                                s = src(op)
                                if s in text:
                                    text.add(l)
                                if r[0] == "cast" and s in size and loc[l] not in ("", "usize"):
                                    size.add(l)
                                elif r[0] == "cast" and s is not None and s not in size and loc[l] == "usize":
                                    text.add(l)     # a number from elsewhere (a page limit), not a length
                        if r[0] in ("len", "ptrmeta", "un") and any(x in str(r) for x in ("u8",)):
                            text.add(l)

        def note(k, line):
            out.setdefault(k, []).append((name, b["file"], line))
        for s, bl in stmts:
            if s[0] == "=" and s[2][0] == "bin" and s[2][1] in CMP:
                t = bl.get("t")
                if t and t[0] == "assert" and src(t[1]) == s[1][0]:
                    continue        # index check of a fixed-size array
                for x, y in ((s[2][2], s[2][3]), (s[2][3], s[2][2])):
                    k, v = lit(y), src(x)
                    if k is not None and v in size and v not in text and v not in const:
                        note(k, s[3] if len(s) > 3 else bl.get("l"))
            elif s[0] == "=" and s[2][0] == "bin":      # arithmetic on a length or position
                k, v = lit(s[2][3]), src(s[2][2])
                if k is not None and v in size and v not in text and v not in const:
                    note(k, s[3] if len(s) > 3 else bl.get("l"))
        for bl in b["blocks"]:
            t = bl.get("t")
            if t and t[0] == "switch":
                v = src(t[1])
                if v in size and v not in text and v not in const:
                    for k, _ in t[2]:
                        note(int(k), bl.get("l"))
            if t and t[0] == "call" and t[1][0] == "k":
                fn = t[1][1].get("fn", {})
                p = fn.get("rpath", "") + " " + fn.get("path", "")
                if ARITH.search(p) and [ty(i) for i in (fn.get("rargs") or fn.get("targs") or [])][:1] in (["usize"], []) and t[2] and \
                        any(src(o) in size and src(o) not in text and src(o) not in const for o in t[2]):
                    for op in t[2]:
                        if lit(op) is not None:
                            note(lit(op), bl.get("l"))
                if ADAPT.search(p) and not re.search(r"with_capacity|reserve", fn.get("rpath", "")):
                    for op in t[2]:
                        if op[0] == "k" and op[1].get("k") == "int" and ty(op[1]["t"]) == "usize" or src(op) in const and loc[src(op)] == "usize":
                            note(lit(op), bl.get("l"))
    _c[crate] = out
    return out


def lengths(c, crate, usual):
    """the usual lengths and those around every threshold in the code; a threshold beyond what can be analysed is a violation"""
    ls = set(usual)
    for k, ws in sorted(thresholds(crate).items()):
        if k <= max(usual) - 1 and all(x in ls for x in (k, k + 1)):
            continue
        if k > CAP:
            w = ws[0]
            c.ob("list-length", "%s compares a length or position with %d" % (w[0], k), False,
                 "lists that long are not analysed", "%s %s:%s" % w)
            continue
        ls |= {k, k + 1} | ({k - 1} if k else set())
    return sorted(ls)


def default(crate, usual=2):
    """longest list to assume where a rule does not fix a length"""
    return max([usual] + [k + 1 for k in thresholds(crate) if usual <= k <= CAP])


if __name__ == "__main__":
    for cr in WS:
        print(cr, thresholds(cr))
