"""Meaning of library functions whose bodies are not analysed (allocation, collections, fmt, storage, querier, api,
serialisation, wide integers)."""
import re
import bdd as B
import terms as X
from terms import T, mk, INT, STR, BOOL, ZERO, ONE, UNIT, UNDEF, TRUE, FALSE, mkgamma, lift, liftb, alts
import interp as I_
from interp import (AnalysisError, some, NONE, ok, err, tup, lst, OPT, RES, ORD, INTTYPES, TEXTTYPES, TRANSPARENT,
                    proj, index, subslice, strip_generics, Call, State, FN)

EXACT = {}
PATS = []


def model(*names):
    def d(f):
        for n in names:
            EXACT[n] = f
        return f
    return d


def pat(rx):
    def d(f):
        PATS.append((re.compile(rx), f))
        return f
    return d


class Models:
    def __init__(self):
        self.cache = {}
        self.extra = {}

    def lookup(self, path, rpath, rec):
        k = (path, rpath)
        if k in self.cache:
            return self.cache[k]
        m = None
        for p in (rpath, path):
            m = self.extra.get(p) or EXACT.get(p) or EXACT.get(strip_generics(p))
            if m:
                break
        if m is None:
            for p in (rpath, path):
                for rx, f in PATS:
                    mm = rx.fullmatch(p)
                    if mm:
                        m = (lambda c, f=f, mm=mm: f(c, mm))
                        break
                if m:
                    break
        self.cache[k] = m
        return m

    def default(self, c):
        r = by_trait(c)
        if r is not NotImplemented:
            return r
        return unknown(c)


def unknown(c):
    rp = c.rec.get("rpath") or c.rec["path"]
    c.I.note("unmodelled", rp)
    for i, a in enumerate(c.args):
        for g, x in alts(a):
            if x.op == "mref":
                c.set(i, mk("opq", "havoc", rp, c.arg(i)))
                break
    vals = [c.arg(i) for i in range(len(c.args))]
    r = X.opaque("opq", "call:" + rp, *vals)
    if c.dty is not None:
        return c.I.fresh(c.dty, r)
    return r


# ------------------------------------------------------------------------------------------------ helpers

def isopt(t, path, vi):
    """condition: value t is variant vi of enum path"""
    def f(x):
        if x.op == "agg":
            return B.T if x.args[1] == vi else B.F
        raise AnalysisError("not an enum value: " + X.show(x)[:200])
    return liftb(f, t)


def split(c_or_I, st, v, fn):
    """run fn(alternative, state) per gamma alternative and join"""
    return c_or_I.per_alt(v, st, fn)


def branch(I, st, cond, f, g):
    """if cond {f} else {g} as an effectful join"""
    cond = X.decide(cond, st.guard) if cond > 1 else cond
    if cond == B.T:
        return f(st)
    if cond == B.F:
        return g(st)
    outs = []
    for c, fn in ((cond, f), (B.neg(cond), g)):
        s = st.copy()
        s.guard = B.conj(st.guard, c)
        if s.guard == B.F:
            continue
        r = fn(s)
        if s.guard != B.F:
            outs.append((r, s))
    return I.join_into(outs, st)


def result(c, failcond, okval, errval=None):
    e = errval if errval is not None else mk("opq", "error")
    return mkgamma([(failcond, err(e)), (B.neg(failcond), ok(okval))])


def newcell(I, st, v):
    I.heap += 1
    k = ("h", I.heap)
    st.env[k] = v
    return mk("mref", k, ())


def callf(c, f, args, st=None):
    st = st or c.st
    return c.I.call_value(f, args, st)


def elems(v):
    """python list of the elements of a gamma-free list"""
    if v.op == "list":
        return list(v.args[0])
    if v.op == "str":
        return [INT(b) for b in v.args[0].encode()]
    raise AnalysisError("elements of a sequence of unknown shape: " + X.show(v)[:160])


# ------------------------------------------------------------------------------------------------ panics

@pat(r"core::panicking::.*|std::panicking::.*|std::rt::begin_panic.*|core::option::(unwrap_failed|expect_failed)|"
     r"core::result::unwrap_failed.*|alloc::(raw_vec|alloc)::.*(error|overflow).*|core::slice::index::.*fail.*|"
     r"core::str::slice_error_fail.*|std::process::abort|core::intrinsics::abort")
def m_panic(c, m):
    kind = "unwrap" if "unwrap" in m.group(0) or "expect" in m.group(0) else "panic"
    txt = ""
    for a in c.args:
        if a.op in ("str", "cat"):
            txt = X.show(a)[:80]
    c.I.revert(c.st, B.T, kind, txt)
    c.st.guard = B.F
    return UNDEF


# ------------------------------------------------------------------------------------------------ identities

IDENT = """core::hint::must_use core::hint::black_box alloc::string::String::as_str alloc::string::String::as_bytes
alloc::string::String::into_bytes alloc::string::String::as_mut_str
core::str::<impl str>::as_bytes alloc::vec::Vec::<T, A>::as_slice alloc::vec::Vec::<T, A>::as_mut_slice
alloc::slice::<impl [T]>::to_vec
alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned alloc::slice::<impl alloc::borrow::ToOwned for [T]>::to_owned
alloc::boxed::Box::<T>::new alloc::slice::<impl [T]>::into_vec alloc::str::<impl str>::to_string
core::str::<impl str>::to_owned core::mem::drop alloc::vec::Vec::<T, A>::into_boxed_slice
core::array::<impl [T; N]>::as_slice core::slice::<impl [T]>::as_ref core::array::<impl [T; N]>::as_mut_slice
cosmwasm_std::binary::Binary::as_slice cosmwasm_std::binary::Binary::to_vec
alloc::borrow::Cow::<'_, B>::into_owned alloc::borrow::Cow::<'_, B>::to_mut core::str::<impl str>::as_ptr
core::convert::identity cosmwasm_std::addresses::Addr::unchecked
cosmwasm_std::addresses::Addr::into_string cosmwasm_std::addresses::Addr::as_str cosmwasm_std::addresses::Addr::as_bytes
cosmwasm_std::addresses::CanonicalAddr::as_slice core::slice::<impl [T]>::to_vec
core::intrinsics::likely core::intrinsics::unlikely alloc::rc::Rc::<T>::new alloc::vec::Vec::<T, A>::leak
alloc::boxed::Box::<T, A>::into_inner core::any::type_name_of_val""".split("\n")


def _ident():
    names = []
    for l in IDENT:
        cur = ""
        depth = 0
        for ch in l + " ":
            if ch in "<[(":
                depth += 1
            elif ch in ">])":
                depth -= 1
            if ch == " " and depth == 0:
                if cur:
                    names.append(cur)
                cur = ""
            else:
                cur += ch
    for n in names:
        EXACT[n] = lambda c: c.args[0]


_ident()


@pat(r"<.* as core::ops::deref::Deref(Mut)?>::deref(_mut)?")
def m_deref(c, m):
    if c.rec.get("key") and not any(x in m.group(0) for x in ("alloc::", "std::")):
        return NotImplemented
    if "QuerierWrapper" in m.group(0):
        return NotImplemented
    return c.args[0]


@pat(r"<.* as core::clone::Clone>::clone(_from)?|core::clone::impls::<impl core::clone::Clone for .*>::clone|"
     r"core::array::<impl core::clone::Clone for .*>::clone|core::clone::Clone::clone")
def m_clone(c, m):
    if c.rec.get("krate") in WS:
        pass
    return c.arg(0)


WS = ("halo_factory", "halo_pair", "halo_router", "halo_token", "haloswap", "bignumber")


@pat(r"<(alloc::string::String|alloc::vec::Vec<.*>|alloc::boxed::Box<.*>|alloc::collections::vec_deque::VecDeque<.*>|.*Cow.*) as core::(convert::(AsRef|AsMut|From|Into|TryFrom)|borrow::Borrow(Mut)?)<.*>>::(as_ref|as_mut|from|into|borrow|borrow_mut)|"
     r"alloc::.*<impl core::convert::(From|AsRef|Into)<.*> for .*>::(from|as_ref|into)|"
     r"core::(str|slice|array|borrow|convert)::.*<impl core::(convert::AsRef|borrow::Borrow|convert::AsMut|borrow::BorrowMut)<.*> for .*>::(as_ref|borrow|as_mut|borrow_mut)|"
     r"<(&'?\w* ?(mut )?)?(str|\[T\]|\[T; N\]|T) as core::(convert::AsRef|borrow::Borrow)<.*>>::(as_ref|borrow)|"
     r"<T as core::convert::(From|Into)<T>>::(from|into)|<T as alloc::borrow::ToOwned>::to_owned|"
     r"<(core::result::Result|core::option::Option).*Infallible.*")
def m_conv(c, m):
    if c.rec.get("key") and c.rec.get("krate") in WS:
        return NotImplemented
    if "impl core::convert::From<core::num::ParseIntError>" in m.group(0):
        return NotImplemented
    if re.search(r"HashMap|HashSet|BTreeMap|BTreeSet", m.group(0)):
        return m_hash_from(c, m) if m.group(0).endswith("::from") and "From<[" in m.group(0) else NotImplemented
    if c.rec.get("key"):
        return NotImplemented
    return c.args[0]


@pat(r"core::convert::num::<impl core::convert::From<(\w+)> for (\w+)>::from|<(\w+) as core::convert::From<(\w+)>>::from")
def m_intfrom(c, m):
    v = c.arg(0)
    if any(x.op == "bool" for _, x in alts(v)):
        n = X.asnode(v)
        return mkgamma([(n, ONE), (B.neg(n), ZERO)])
    return v


PRIM = {"u8": (8, 0), "u16": (16, 0), "u32": (32, 0), "u64": (64, 0), "u128": (128, 0), "usize": (64, 0),
        "i8": (8, 1), "i16": (16, 1), "i32": (32, 1), "i64": (64, 1), "i128": (128, 1), "isize": (64, 1)}


def limits(bits, signed=0):
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)


def outside(v, bits, signed=0):
    lo, hi = limits(bits, signed)
    return B.disj(X.lt(v, INT(lo)), X.lt(INT(hi), v))


@pat(r".*<impl core::convert::TryFrom<(\w+)> for (\w+)>::try_from|<(\w+) as core::convert::TryFrom<(\w+)>>::try_from")
def m_tryfrom(c, m):
    t = m.group(2) or m.group(3)
    if t not in PRIM:
        return NotImplemented
    v = c.arg(0)
    bad = X.decide(outside(v, *PRIM[t]), c.st.guard)
    return result(c, bad, v)


# ------------------------------------------------------------------------------------------------ integers

ARITH = {"add": "add", "sub": "sub", "mul": "mul", "div": "div", "rem": "rem"}


def arith(op, a, b):
    if op == "add":
        return X.add(a, b)
    if op == "sub":
        return X.sub(a, b)
    if op == "mul":
        return X.mul(a, b)
    if op == "div":
        return X.div(a, b)
    if op == "rem":
        return X.mod(a, b)
    if op == "pow":
        return X.power(a, b)
    raise AnalysisError(op)


def bad_arith(op, a, b, r, bits, signed=0):
    if op in ("div", "rem"):
        return X.inteq(b, ZERO)
    return outside(r, bits, signed)


def int_method(c, meth, bits, signed, wrap_err=None, typ=None):
    """methods shared by the primitive and the wide integer types; NotImplemented when unknown"""
    a = c.arg(0) if c.args else None
    b = c.arg(1) if len(c.args) > 1 else None
    st = c.st
    base = re.sub(r"^(checked|wrapping|saturating|overflowing|strict|unchecked)_", "", meth)
    mode = meth[:-len(base) - 1] if base != meth else ""
    if base in ("add", "sub", "mul", "div", "rem", "pow", "div_euclid", "rem_euclid"):
        base = base.replace("_euclid", "")
        if b is None:
            return NotImplemented
        safe_b = b
        if base in ("div", "rem"):
            z = X.decide(X.inteq(b, ZERO), st.guard)
            if mode == "checked":
                r = arith(base, a, nonzero(b, st.guard))
                return (mkgamma([(z, NONE), (B.neg(z), some(r))]) if wrap_err is None
                        else mkgamma([(z, err(wrap_err(base, a, b))), (B.neg(z), ok(r))]))
            c.revert(z, "divzero", typ or "")
            if st.guard == B.F:
                return UNDEF
            return arith(base, a, nonzero(b, st.guard))
        r = arith(base, a, b)
        if base == "pow" and any(x.op != "int" for _, x in alts(b)):
            # an exponent of zero gives one, whatever the exponent is called
            z = X.decide(X.inteq(b, ZERO), st.guard)
            if z != B.F:
                r = mkgamma([(z, ONE), (B.neg(z), r)])
        bad = X.decide(outside(r, bits, signed), st.guard)
        if mode == "checked":
            return (mkgamma([(bad, NONE), (B.neg(bad), some(r))]) if wrap_err is None
                    else mkgamma([(bad, err(wrap_err(base, a, b))), (B.neg(bad), ok(r))]))
        if mode == "wrapping":
            if bad != B.F:
                c.I.note("wrapping", meth)
            return c.I.wrap(st, r, bits, bool(signed))
        if mode == "saturating":
            if bad != B.F:
                c.I.note("saturating", meth)
            lo, hi = limits(bits, signed)
            l, h = X.lt(r, INT(lo)), X.lt(INT(hi), r)
            c.I.lose(B.conj(st.guard, h), "clipped at the maximum of %d bits" % bits)
            return mkgamma([(l, INT(lo)), (h, INT(hi)), (B.conj(B.neg(l), B.neg(h)), r)])
        if mode == "overflowing":
            if bad != B.F and base in ("add", "sub", "mul", "pow"):
                c.I.note("overflowing", meth)
            return tup(c.I.wrap(st, r, bits, bool(signed)), BOOL(bad))
        c.revert(bad, "overflow", base)
        if st.guard == B.F:
            return UNDEF
        return r
    if meth == "div_ceil" and not signed:
        z = X.decide(X.inteq(b, ZERO), st.guard)
        c.revert(z, "divzero", typ or "")
        if st.guard == B.F:
            return UNDEF
        d = nonzero(b, st.guard)
        return arith("div", X.sub(X.add(a, d), ONE), d)
    if meth == "abs_diff":
        l = X.lt(a, b)
        return mkgamma([(l, X.sub(b, a)), (B.neg(l), X.sub(a, b))])
    if meth in ("min", "max"):
        l = X.lt(b, a)
        return mkgamma([(l, b), (B.neg(l), a)]) if meth == "min" else mkgamma([(l, a), (B.neg(l), b)])
    if meth in ("is_zero",):
        return BOOL(X.inteq(a, ZERO))
    if meth in ("max_value", "MAX"):
        return INT(limits(bits, signed)[1])
    if meth in ("min_value", "MIN"):
        return INT(limits(bits, signed)[0])
    if meth in ("zero",):
        return ZERO
    if meth in ("cmp",):
        return c.I.ordering(X.lt(a, b), X.inteq(a, b))
    if meth == "partial_cmp":
        return some_of(c.I.ordering(X.lt(a, b), X.inteq(a, b)))
    if meth == "clamp":
        hi = c.arg(2)
        l, h = X.lt(a, b), X.lt(hi, a)
        return mkgamma([(l, b), (B.conj(B.neg(l), h), hi), (B.conj(B.neg(l), B.neg(h)), a)])
    if meth in ("to_be_bytes", "to_le_bytes"):
        return X.opaque("bytes_of", a, INT(bits))
    if meth == "leading_zeros":
        r = X.opaque("clz", a)
        return r
    return NotImplemented


def some_of(v):
    return lift(lambda x: some(x), v)


def nonzero(b, guard):
    """drop zero alternatives of a divisor"""
    if b.op == "gamma":
        xs = [(g, x) for g, x in b.args[0] if not (x.op == "int" and x.args[0] == 0)]
        return mkgamma(xs) if xs else ONE
    if b.op == "int" and b.args[0] == 0:
        return ONE
    return b


@pat(r"core::num::<impl (\w+)>::(\w+)")
def m_num(c, m):
    t, meth = m.group(1), m.group(2)
    if t not in PRIM:
        return NotImplemented
    if meth == "from_str_radix":
        return NotImplemented
    if meth in ("is_ascii_digit", "is_ascii_alphabetic", "is_ascii_uppercase", "is_ascii_lowercase",
                "is_ascii_alphanumeric", "to_ascii_lowercase", "to_ascii_uppercase", "is_ascii_punctuation",
                "is_ascii"):
        return ascii_method(c, meth)
    if meth in ("isqrt",):
        return X.sqrt(c.arg(0))
    r = int_method(c, meth, *PRIM[t], typ=t)
    return r


def between(v, lo, hi):
    return B.conj(B.neg(X.lt(v, INT(lo))), X.lt(v, INT(hi + 1)))


def ascii_method(c, meth):
    v = c.arg(0)
    up, lo, dg = between(v, 65, 90), between(v, 97, 122), between(v, 48, 57)
    if meth == "is_ascii_digit":
        return BOOL(dg)
    if meth == "is_ascii_alphabetic":
        return BOOL(B.disj(up, lo))
    if meth == "is_ascii_uppercase":
        return BOOL(up)
    if meth == "is_ascii_lowercase":
        return BOOL(lo)
    if meth == "is_ascii_alphanumeric":
        return BOOL(B.disj(up, lo, dg))
    if meth == "is_ascii":
        return BOOL(X.lt(v, INT(128)))
    if meth == "to_ascii_lowercase":
        return mkgamma([(up, X.add(v, INT(32))), (B.neg(up), v)])
    if meth == "to_ascii_uppercase":
        return mkgamma([(lo, X.sub(v, INT(32))), (B.neg(lo), v)])
    return NotImplemented


@pat(r"core::char::methods::<impl char>::(\w+)")
def m_char(c, m):
    return ascii_method(c, m.group(1))


def overflow_error(op, a, b):
    return mk("opq", "OverflowError", STR(op))


WIDE = "|".join(re.escape(t) for t in INTTYPES if "Decimal" not in t and "bignumber" not in t and "Timestamp" not in t)
RXOP = re.compile(r"(add|sub|mul|div|rem)(_assign)?")


@pat(r"(?:<(?:&'?\w* ?)?(%s) as core::(?:ops::arith|ops::bit|cmp|default|iter::traits::accum)::(\w+)(?:<.*>)?>|"
     r"cosmwasm_std::math::\w+::<impl core::ops::arith::(\w+)(?:<.*>)? for (?:&'?\w* ?)?(%s)>)::(\w+)" % (WIDE, WIDE))
def m_wide_op(c, m):
    t = m.group(1) or m.group(4)
    bits = INTTYPES[t]
    meth = m.group(5)
    mm = RXOP.fullmatch(meth)
    if mm and "Decimal" in c.rec.get("rpath", ""):
        return NotImplemented
    if mm:
        asg = bool(mm.group(2))
        a, b = c.arg(0), c.arg(1)
        op = mm.group(1)
        if op in ("div", "rem"):
            c.revert(X.decide(X.inteq(b, ZERO), c.st.guard), "divzero", t)
            if c.st.guard == B.F:
                return UNDEF
            r = arith(op, a, nonzero(b, c.st.guard))
        else:
            r = arith(op, a, b)
            c.revert(X.decide(outside(r, bits), c.st.guard), "overflow", t + " " + op)
            if c.st.guard == B.F:
                return UNDEF
        if asg:
            c.set(0, r)
            return UNIT
        return r
    if meth in ("eq", "ne", "lt", "le", "gt", "ge"):
        return compare(meth, c.arg(0), c.arg(1))
    if meth in ("cmp", "partial_cmp", "min", "max", "clamp"):
        return int_method(c, meth, bits, 0)
    if meth == "default":
        return ZERO
    if meth == "sum":
        return m_sum(c)
    if meth in ("shl", "shr"):
        r = c.I.shift("Shl" if meth == "shl" else "Shr", c.arg(0), c.arg(1))
        if meth == "shl":
            c.revert(X.decide(outside(r, bits), c.st.guard), "overflow", "shl")
        return r
    return NotImplemented


@pat(r"(%s)(?:::<.*>)?::(\w+)" % WIDE)
def m_wide_method(c, m):
    t, meth = m.group(1), m.group(2)
    bits = INTTYPES[t]
    short = t.split("::")[-1]
    st = c.st
    if meth in ("new", "u128", "u64", "from_u128", "from_u64", "from_uint128", "from_uint256"):
        return c.arg(0)
    if meth == "one":
        return ONE
    if meth in ("checked_multiply_ratio", "multiply_ratio"):
        a = c.arg(0)
        n, d = c.arg(1), c.arg(2)
        z = X.decide(X.inteq(d, ZERO), st.guard)
        r = X.div(X.mul(a, n), nonzero(d, st.guard))
        if meth == "multiply_ratio":
            c.revert(z, "divzero", "multiply_ratio")
            if st.guard == B.F:
                return UNDEF
            c.revert(X.decide(outside(r, bits), st.guard), "overflow", "multiply_ratio")
            return r
        over = X.decide(B.conj(B.neg(z), outside(r, bits)), st.guard)
        c.I.unfit = B.disj(c.I.unfit, B.conj(st.guard, over))
        bad = X.decide(B.disj(z, outside(r, bits)), st.guard)
        return result(c, bad, r, mk("opq", "CheckedMultiplyRatioError"))
    if meth == "full_mul":
        return X.mul(c.arg(0), c.arg(1))
    if meth in ("isqrt", "integer_sqrt"):
        return X.sqrt(c.arg(0))
    if meth == "exp10":
        r = X.power(INT(10), c.arg(0))
        c.revert(X.decide(outside(r, bits), st.guard), "overflow", "exp10")
        return r
    if meth in ("as_u64", "as_u32", "as_u128", "as_usize"):
        n = {"as_u64": 64, "as_u32": 32, "as_u128": 128, "as_usize": 64}[meth]
        c.revert(X.decide(outside(c.arg(0), n), st.guard), "overflow", meth)
        return c.arg(0)
    if meth in ("low_u64", "low_u32", "low_u128"):
        n = int(meth[5:])
        r = c.I.wrap(st, c.arg(0), n, False)
        if r is not c.arg(0):
            c.I.note("narrow", meth)
        return r
    if t.startswith("bigint") and meth in ("overflowing_add", "overflowing_sub", "overflowing_mul", "saturating_sub",
                                           "saturating_add", "pow", "overflowing_pow", "checked_add", "checked_sub",
                                           "checked_mul", "checked_div"):
        return int_method(c, meth, bits, 0, None, short)
    if meth in ("from_dec_str",):
        return parse_dec(c, bits)
    if meth == "checked_pow" or meth.startswith("checked_"):
        return int_method(c, meth, bits, 0, overflow_error, short)
    if meth in ("to_string",):
        return X.opaque("inttext", c.arg(0))
    if meth in ("to_be_bytes", "to_le_bytes", "from_be_bytes", "from_le_bytes"):
        return NotImplemented
    r = int_method(c, meth, bits, 0, None, short)
    return r


@pat(r"(?:<(%s) as core::convert::(?:From|TryFrom)<(.*)>>|.*<impl core::convert::(?:From|TryFrom)<(.*)> for (%s|u\d+|usize)>)::(from|try_from)" % (WIDE, WIDE))
def m_wide_from(c, m):
    t = m.group(1) or m.group(4)
    src = m.group(2) or m.group(3)
    bits = INTTYPES.get(t) or PRIM.get(t, (None,))[0]
    src = src.lstrip("&")
    if c.rec.get("krate") in WS or "bignumber" in (c.rec.get("rpath") or "") or "Decimal" in src:
        return NotImplemented
    if src in ("&str", "str", "alloc::string::String"):
        return NotImplemented
    v = c.arg(0)
    if any(x.op == "list" for _, x in alts(v)):
        r = ZERO
        for i, l in enumerate(elems(v)):
            r = X.add(r, X.scale(l, 1 << (64 * i)))
        return r
    if m.group(5) == "from":
        if src.startswith("i"):
            c.revert(X.decide(X.lt(v, ZERO), c.st.guard), "overflow", "from negative")
        sb = INTTYPES.get(src) or PRIM.get(src, (None,))[0]
        if sb is None:
            return NotImplemented
        if sb > bits:
            c.revert(X.decide(outside(v, bits), c.st.guard), "overflow", "narrowing from " + src)
        return v
    bad = X.decide(outside(v, bits), c.st.guard)
    return result(c, bad, v, mk("opq", "ConversionOverflowError"))


def compare(meth, a, b):
    if meth == "eq":
        return BOOL(X.eq(a, b))
    if meth == "ne":
        return BOOL(B.neg(X.eq(a, b)))
    if meth == "lt":
        return BOOL(X.lt(a, b))
    if meth == "gt":
        return BOOL(X.lt(b, a))
    if meth == "le":
        return BOOL(X.le(a, b))
    return BOOL(X.le(b, a))


@pat(r"core::cmp::impls::<impl core::cmp::(?:PartialOrd|Ord|PartialEq)(?:<.*>)? for (\w+)>::(\w+)")
def m_primcmp(c, m):
    t, meth = m.group(1), m.group(2)
    if t in PRIM or t == "char":
        if meth in ("eq", "ne", "lt", "le", "gt", "ge"):
            return compare(meth, c.arg(0), c.arg(1))
        return int_method(c, meth, *PRIM.get(t, (32, 0)))
    if t == "bool" and meth in ("eq", "ne"):
        n = X.eq(c.arg(0), c.arg(1))
        return BOOL(n if meth == "eq" else B.neg(n))
    return NotImplemented


@pat(r"<.* as cosmwasm_std::(?:math::)?(?:isqrt::)?Isqrt>::isqrt")
def m_isqrt2(c, m):
    return X.sqrt(c.arg(0))


@pat(r"<?integer_sqrt::IntegerSquareRoot.*::integer_sqrt|<.* as integer_sqrt::IntegerSquareRoot>::integer_sqrt(_checked)?")
def m_isqrt(c, m):
    v = X.sqrt(c.arg(0))
    return some_of(v) if "checked" in m.group(0) else v


@model("core::intrinsics::integer_min")
def m_imin(c):
    return int_method(c, "min", 64, 0)


# ------------------------------------------------------------------------------------------------ equality / order

slt = X.slt


def anyseq(v):
    return any(x.op in ("list", "str", "cat", "bytes") or (x.op not in ("agg", "bool") and not X.intish(x))
               for _, x in alts(v))


@pat(r"<alloc::string::String as core::cmp::(PartialEq|PartialOrd|Ord|Eq).*>::(\w+)|"
     r"alloc::(string|vec|borrow)::.*<impl core::cmp::(PartialEq|PartialOrd|Ord).*>::(\w+)|"
     r"<alloc::vec::Vec<.*> as core::cmp::(PartialEq|PartialOrd|Ord).*>::(\w+)|"
     r"core::(str|slice|array)::(traits|cmp|equality|iter)?:?:?<impl core::cmp::(PartialEq|PartialOrd|Ord).*>::(\w+)|"
     r"<.*\[.*\] as core::cmp::.*>::(\w+)|<str as core::cmp::.*>::(\w+)|"
     r"<(alloc::borrow::Cow|alloc::boxed::Box)<.*> as core::cmp::(PartialEq|PartialOrd|Ord).*>::(\w+)")
def m_seqcmp(c, m):
    if c.rec.get("key"):
        return NotImplemented
    meth = (c.rec.get("rpath") or "").rsplit("::", 1)[-1]
    a, b = c.arg(0), c.arg(1)
    if meth in ("eq", "ne"):
        n = seq_eq(c, a, b)
        return BOOL(n if meth == "eq" else B.neg(n))
    if meth == "cmp":
        return c.I.ordering(slt(a, b), X.eq(a, b))
    if meth == "partial_cmp":
        return some_of(c.I.ordering(slt(a, b), X.eq(a, b)))
    if meth == "lt":
        return BOOL(slt(a, b))
    if meth == "gt":
        return BOOL(slt(b, a))
    if meth == "le":
        return BOOL(B.neg(slt(b, a)))
    if meth == "ge":
        return BOOL(B.neg(slt(a, b)))
    if meth in ("max", "min"):
        l = slt(a, b)
        return mkgamma([(l, b if meth == "max" else a), (B.neg(l), a if meth == "max" else b)])
    return NotImplemented


def seq_eq(c, a, b):
    return X.eq(a, b)


@pat(r"<.* as core::cmp::PartialEq(<.*>)?>::(eq|ne)")
def m_structeq(c, m):
    """derived equality is structural; hand-written ones in the workspace are analysed"""
    if c.rec.get("key") and c.rec.get("krate") != "core":
        k = c.rec["key"]
    if c.rec.get("key"):
        return NotImplemented
    n = X.eq(c.arg(0), c.arg(1))
    return BOOL(n if m.group(2) == "eq" else B.neg(n))


@pat(r"core::cmp::(PartialEq::ne|PartialOrd::(lt|le|gt|ge)|Ord::(min|max)|min|max)(::<.*>)?")
def m_cmp_default(c, m):
    a, b = c.arg(0), c.arg(1)
    if all(X.intish(x) for _, x in alts(a)) and all(X.intish(x) for _, x in alts(b)):
        meth = m.group(0).split("::<")[0].rsplit("::", 1)[-1]
        if meth in ("min", "max"):
            return int_method(c, meth, 128, 0)
        if "bignumber::" in (c.rec.get("key") or ""):      # its own ordering, derived or not
            return NotImplemented
        return compare(meth, a, b)
    return NotImplemented


# ------------------------------------------------------------------------------------------------ collections

@pat(r"alloc::vec::Vec(?:::<.*>)?::(new|with_capacity)|alloc::string::String::(new|with_capacity)|"
     r"<(alloc::vec::Vec<.*>|alloc::string::String) as core::default::Default>::default|"
     r"<(&str|&\[T\]) as core::default::Default>::default")
def m_vecnew(c, m):
    if "String" in m.group(0) or "str" in m.group(0):
        return STR("")
    if c.dty is not None:
        ty = c.I.T[c.I.strip(c.dty)]
        if ty["k"] == "adt" and ty.get("args") and c.I.T[ty["args"][0]].get("bits") == 8:
            return lst([])
    return lst([])


def append(v, items):
    def f(x, *ys):
        if x.op == "str" and x.args[0] == "" and not ys:
            return x
        return X.mkcat([x] + [lst([y]) for y in ys])
    return lift(lambda x: X.mkcat([x, lst(items)]), v) if items else v


@pat(r"alloc::vec::Vec(?:::<.*>)?::(\w+)|core::slice::<impl \[T\]>::(\w+)|alloc::slice::<impl \[T\]>::(\w+)|"
     r"core::array::<impl \[T; N\]>::(\w+)|alloc::string::String::(\w+)|core::str::<impl str>::(\w+)|"
     r"alloc::str::<impl str>::(\w+)|alloc::slice::<impl \[V\]>::(\w+)|"
     r"core::slice::ascii::<impl \[u8\]>::(\w+)|<\[.*\] as alloc::slice::(?:Concat|Join)<.*>>::(\w+)")
def m_seq(c, m):
    meth = [g for g in m.groups() if g][-1]
    f = globals().get("seq_" + meth)
    if f is None:
        return NotImplemented if c.rec.get("key") else unknown(c)
    return f(c)


def seq_push(c):
    v = c.args[1]
    if (c.rec.get("rpath") or c.rec["path"]).startswith("alloc::string::String") and v.op == "int" and 0 < v.args[0] < 128:
        c.set(0, X.cat(c.arg(0), STR(chr(v.args[0]))))
        return UNIT
    c.set(0, lift(lambda x: X.mkcat([x, lst([v])]), c.arg(0)))
    return UNIT


def seq_push_str(c):
    c.set(0, X.cat(c.arg(0), c.arg(1)))
    return UNIT


seq_extend_from_slice = seq_push_str


def seq_append(c):
    c.set(0, X.cat(c.arg(0), c.arg(1)))
    c.set(1, lst([]))
    return UNIT


def seq_pop(c):
    v = c.arg(0)

    def f(x):
        xs = elems(x)
        return tup(lst(xs[:-1]), some(xs[-1])) if xs else tup(lst([]), NONE)
    r = lift(f, v)
    c.set(0, proj(r, ["f", 0]))
    return proj(r, ["f", 1])


def seq_len(c):
    return X.mklen(c.arg(0))


def seq_is_empty(c):
    return BOOL(X.inteq(X.mklen(c.arg(0)), ZERO))


def seq_capacity(c):
    return mk("opq", "capacity")


def seq_reserve(c):
    return UNIT


def seq_first(c):
    v = c.arg(0)
    n = X.inteq(X.mklen(v), ZERO)
    return mkgamma([(n, NONE), (B.neg(n), some_of(index(v, ZERO)))])


def seq_last(c):
    v = c.arg(0)
    n = X.inteq(X.mklen(v), ZERO)
    return mkgamma([(n, NONE), (B.neg(n), some_of(index(v, X.sub(X.mklen(v), ONE))))])


def split_first(c, firstn):
    v = c.arg(0)

    def f(x):
        xs = elems(x)
        if not xs:
            return NONE
        return some(tup(xs[0], lst(xs[1:]))) if firstn else some(tup(xs[-1], lst(xs[:-1])))
    return lift(f, v)


def seq_split_first(c):
    return split_first(c, True)


def seq_split_last(c):
    return split_first(c, False)


def seq_clear(c):
    v = c.arg(0)
    c.set(0, STR("") if any(x.op == "str" for _, x in alts(v)) else lst([]))
    return UNIT


def seq_truncate(c):
    n = c.arg(1)
    v = c.arg(0)

    def f(x, k):
        if x.op == "list" and k.op == "int":
            return lst(x.args[0][:k.args[0]])
        return mkgamma([(X.inteq(k, INT(i)), lst(elems(x)[:i])) for i in range(len(elems(x)))] +
                       [(X.le(INT(len(elems(x))), k), x)])
    c.set(0, lift(f, v, n))
    return UNIT


def seq_reverse(c):
    c.set(0, lift(lambda x: lst(list(reversed(elems(x)))), c.arg(0)))
    return UNIT


def seq_swap(c):
    v, i, j = c.arg(0), c.arg(1), c.arg(2)

    def f(x, p, q):
        xs = elems(x)
        if p.op != "int" or q.op != "int":
            raise AnalysisError("swap at unknown index")
        xs[p.args[0]], xs[q.args[0]] = xs[q.args[0]], xs[p.args[0]]
        return lst(xs)
    c.set(0, lift(f, v, i, j))
    return UNIT


def seq_insert(c):
    v, i, e = c.arg(0), c.arg(1), c.args[2]

    def f(x, p):
        if p.op != "int":
            raise AnalysisError("insert at unknown index")
        if x.op == "str" or e.op in ("str",):
            return X.mkcat([subslice(x, ZERO, p), e, subslice(x, p, X.mklen(x))])
        xs = elems(x)
        xs.insert(p.args[0], e)
        return lst(xs)
    c.set(0, lift(f, v, i))
    return UNIT


def seq_remove(c):
    v, i = c.arg(0), c.arg(1)
    n = X.mklen(v)
    c.revert(X.decide(X.le(n, i), c.st.guard), "bounds", "remove")
    if c.st.guard == B.F:
        return UNDEF

    def f(x, p):
        xs = elems(x)
        if p.op != "int":
            raise AnalysisError("remove at unknown index")
        if p.args[0] >= len(xs):
            return UNDEF
        e = xs.pop(p.args[0])
        return tup(lst(xs), e)
    r = lift(f, v, i)
    c.set(0, proj(r, ["f", 0]))
    return proj(r, ["f", 1])


def seq_swap_remove(c):
    v, i = c.arg(0), c.arg(1)

    def f(x, p):
        xs = elems(x)
        if p.op != "int" or p.args[0] >= len(xs):
            return UNDEF
        e = xs[p.args[0]]
        last = xs.pop()
        if p.args[0] < len(xs):
            xs[p.args[0]] = last
        return tup(lst(xs), e)
    r = lift(f, v, i)
    c.set(0, proj(r, ["f", 0]))
    return proj(r, ["f", 1])


def contains_cond(c, v, e):
    def f(x):
        if x.op in ("list", "str"):
            return B.disj(*[X.eq(y, e) for y in elems(x)])
        return B.var(mk("contains", x, e))
    return liftb(f, v)


def seq_contains(c):
    if "str>" in (c.rec.get("rpath") or ""):
        return str_pred(c, "contains")
    return BOOL(contains_cond(c, c.arg(0), c.arg(1)))


def str_pred(c, name):
    a, p = c.arg(0), c.arg(1)

    def f(x, y):
        if x.op == "str" and y.op == "str":
            s, t = x.args[0], y.args[0]
            r = {"contains": t in s, "starts_with": s.startswith(t), "ends_with": s.endswith(t)}[name]
            return B.T if r else B.F
        if x.op == "str" and y.op == "int":
            s, t = x.args[0], chr(y.args[0])
            r = {"contains": t in s, "starts_with": s.startswith(t), "ends_with": s.endswith(t)}[name]
            return B.T if r else B.F
        if x.op == "list" and y.op == "int":
            xs = x.args[0]
            if name == "contains":
                return B.disj(*[X.eq(e, y) for e in xs])
            if not xs:
                return B.F
            return X.eq(xs[0] if name == "starts_with" else xs[-1], y)
        return B.var(mk(name, x, y))
    return BOOL(liftb(f, a, p))


def seq_starts_with(c):
    return str_pred(c, "starts_with")


def seq_ends_with(c):
    return str_pred(c, "ends_with")


def strip_end(c, front):
    def f(x, y):
        if y.op == "int" and 0 < y.args[0] < 128:
            y = STR(chr(y.args[0]))
        if y.op == "str" and isinstance(y.args[0], str) and y.args[0]:
            p = y.args[0]
            ps = list(x.args[0]) if x.op == "cat" else [x]
            e = ps[0 if front else -1]
            if e.op == "str" and isinstance(e.args[0], str) and (x.op == "str" or len(e.args[0]) >= len(p)):
                s = e.args[0]
                if not (s.startswith(p) if front else s.endswith(p)):
                    return NONE
                ps[0 if front else -1] = STR(s[len(p):] if front else s[:-len(p)])
                return some_of(X.mkcat(ps))
        return unknown(c)
    return lift(f, c.arg(0), c.arg(1))


def seq_strip_prefix(c):
    return strip_end(c, True)


def seq_strip_suffix(c):
    return strip_end(c, False)


def seq_get(c):
    v, i = c.arg(0), c.arg(1)
    if any(x.op == "agg" for _, x in alts(i)):
        a, b, oob = range_of(c, v, i)
        oob = X.decide(oob, c.st.guard)
        return mkgamma([(oob, NONE), (B.neg(oob), some_of(slice_of(v, a, b)))])
    inb = X.decide(X.lt(i, X.mklen(v)), c.st.guard)
    return mkgamma([(inb, some_of(index(v, i))), (B.neg(inb), NONE)])


def seq_get_mut(c):
    v, i = c.arg(0), c.arg(1)
    inb = X.decide(X.lt(i, X.mklen(v)), c.st.guard)
    return mkgamma([(inb, some_of(sub_mref(c.args[0], ("i", i)))), (B.neg(inb), NONE)])


def sub_mref(m, e):
    return lift(lambda x: mk("mref", x.args[0], x.args[1] + (e,)), m)


def seq_first_mut(c):
    inb = X.decide(X.lt(ZERO, X.mklen(c.arg(0))), c.st.guard)
    return mkgamma([(inb, some_of(sub_mref(c.args[0], ("i", ZERO)))), (B.neg(inb), NONE)])


def seq_last_mut(c):
    n = X.mklen(c.arg(0))
    inb = X.decide(X.lt(ZERO, n), c.st.guard)
    return mkgamma([(inb, some_of(sub_mref(c.args[0], ("i", X.sub(n, ONE))))), (B.neg(inb), NONE)])


def seq_concat(c):
    return lift(lambda x: X.mkcat(list(elems(x))), c.arg(0))


def seq_join(c):
    sep = c.arg(1)

    def f(x, s):
        out = []
        for i, e in enumerate(elems(x)):
            if i:
                out.append(s)
            out.append(e)
        return X.mkcat(out) if out else STR("")
    return lift(f, c.arg(0), sep)


def seq_repeat(c):
    def f(x, n):
        if x.op == "str" and n.op == "int":
            return STR(x.args[0] * n.args[0])
        if x.op == "list" and n.op == "int":
            return lst(list(x.args[0]) * n.args[0])
        return mk("opq", "repeat", x, n)
    n = c.arg(1)
    if n.op != "int" and n.op != "gamma":
        hi = X.rng(n)[1]
        f2 = X.facts(c.st.guard)
        n = X.norm(n, f2)
    return lift(f, c.arg(0), n)


def seq_trim_end_matches(c):
    def f(x, y):
        p = y.args[0] if y.op == "str" else chr(y.args[0]) if y.op == "int" else None
        if x.op == "str" and p:
            s = x.args[0]
            while s.endswith(p):
                s = s[:-len(p)]
            return STR(s)
        if x.op == "list" and p and len(p) == 1:
            # last position that differs from the pattern byte
            xs = list(x.args[0])
            out = []
            g = B.T
            for n in range(len(xs), 0, -1):
                e = X.eq(xs[n - 1], INT(ord(p)))
                out.append((B.conj(g, B.neg(e)), lst(xs[:n])))
                g = B.conj(g, e)
            out.append((g, lst([])))
            return mkgamma(out)
        return X.opaque("trim_end", x, y)
    return lift(f, c.arg(0), c.arg(1))


def seq_to_lowercase(c):
    return X.opaque("lower", c.arg(0))


seq_to_ascii_lowercase = seq_to_lowercase


def seq_to_uppercase(c):
    return X.opaque("upper", c.arg(0))


seq_to_ascii_uppercase = seq_to_uppercase


def seq_trim(c):
    return X.opaque("trim", c.arg(0))


def seq_copy_from_slice(c):
    c.set(0, c.arg(1))
    return UNIT


seq_clone_from_slice = seq_copy_from_slice


def seq_fill(c):
    v, e = c.arg(0), c.arg(1)
    c.set(0, lift(lambda x: lst([e] * len(elems(x))), v))
    return UNIT


def seq_to_vec(c):
    return c.arg(0)


def seq_into_vec(c):
    return c.arg(0)


def seq_parse(c):
    t = c.targs[-1] if c.targs else None
    return parse_as(c, t)


def seq_from_utf8(c):
    return ok(c.arg(0))


def seq_from_utf8_lossy(c):
    return c.arg(0)


def seq_is_char_boundary(c):
    return TRUE


def seq_split_at(c):
    v, n = c.arg(0), c.arg(1)
    c.revert(X.decide(X.lt(X.mklen(v), n), c.st.guard), "bounds", "split_at")
    if c.st.guard == B.F:
        return UNDEF
    return tup(slice_of(v, ZERO, n), slice_of(v, n, X.mklen(v)))


def seq_split_at_mut(c):
    v, n = c.arg(0), c.arg(1)
    k = X.mklen(v)
    c.revert(X.decide(X.lt(k, n), c.st.guard), "bounds", "split_at")
    if c.st.guard == B.F:
        return UNDEF
    if n.op != "int" or k.op != "int" or c.args[0].op != "mref":
        raise AnalysisError("mutable sub-slice")
    return tup(sub_mref(c.args[0], ("s", 0, n.args[0], False)), sub_mref(c.args[0], ("s", n.args[0], k.args[0], False)))


def split_first_mut(c, firstn):
    k = X.mklen(c.arg(0))
    if k.op != "int" or c.args[0].op != "mref":
        raise AnalysisError("mutable sub-slice")
    n = k.args[0]
    if n == 0:
        return NONE
    return some(tup(sub_mref(c.args[0], ("i", INT(0 if firstn else n - 1))),
                    sub_mref(c.args[0], ("s", 1, n, False) if firstn else ("s", 0, n - 1, False))))


def seq_split_first_mut(c):
    return split_first_mut(c, True)


def seq_split_last_mut(c):
    return split_first_mut(c, False)


def seq_split_off(c):
    v, n = c.arg(0), c.arg(1)
    r = slice_of(v, n, X.mklen(v))
    c.set(0, slice_of(v, ZERO, n))
    return r


def seq_iter(c):
    return mkiter(c.arg(0))


def seq_bytes(c):
    return mkiter(c.arg(0))


def seq_chars(c):
    def f(x):
        if x.op in ("list", "str"):
            return mkiter(x)
        return mk("agg", "it", 0, mk("chars", x), ZERO, X.mklen(x))
    return lift(f, c.arg(0))


def seq_char_indices(c):
    return mkiter(lift(lambda x: lst([tup(INT(i), e) for i, e in enumerate(elems(x))]), c.arg(0)))


def seq_drain(c):
    v = c.arg(0)
    a, b, oob = range_of(c, v, c.arg(1))
    r = slice_of(v, a, b)
    c.set(0, X.cat(slice_of(v, ZERO, a), slice_of(v, b, X.mklen(v))))
    return mkiter(r)


def seq_iter_mut(c):
    v = c.arg(0)
    m = c.args[0]

    def f(x, mm):
        return mkiter(lst([mk("mref", mm.args[0], mm.args[1] + (("i", INT(i)),)) for i in range(len(elems(x)))]))
    return lift(f, v, m)


def seq_retain(c):
    f = c.args[1]

    def g(x, st):
        out = lst([])
        for e in elems(x):
            n = X.asnode(c.I.call_value(f, [e], st))
            if st.guard == B.F:
                return UNDEF
            out = mkgamma([(n, lift(lambda y: X.mkcat([y, lst([e])]), out)), (B.neg(n), out)])
        return out
    c.set(0, c.I.per_alt(c.arg(0), c.st, g))
    return UNIT


def seq_dedup(c):
    def g(x):
        out, prev = lst([]), None
        for e in elems(x):
            n = B.F if prev is None else X.eq(prev, e)
            out = mkgamma([(B.neg(n), lift(lambda y: X.mkcat([y, lst([e])]), out)), (n, out)])
            prev = e
        return out
    c.set(0, lift(g, c.arg(0)))
    return UNIT


def seq_resize(c):
    v, n, e = c.arg(0), c.arg(1), c.arg(2)
    if n.op != "int" or n.args[0] > 256:
        raise AnalysisError("resize to an unknown length")
    k = n.args[0]
    c.set(0, lift(lambda x: lst((elems(x) + [e] * k)[:k]), v))
    return UNIT


def rotate(c, left):
    v, n = c.arg(0), c.arg(1)

    def g(x, k):
        if k.op != "int":
            raise AnalysisError("rotation by an unknown amount")
        e, k = elems(x), k.args[0]
        if k > len(e):
            return UNDEF
        k = k if left else len(e) - k
        return lst(e[k:] + e[:k])
    c.I.revert(c.st, X.decide(X.lt(X.mklen(v), n), c.st.guard), "bounds", "rotate")
    if c.st.guard == B.F:
        return UNDEF
    c.set(0, lift(g, v, n))
    return UNIT


def seq_rotate_left(c):
    return rotate(c, True)


def seq_rotate_right(c):
    return rotate(c, False)


def seq_chunks_exact(c):
    n = c.arg(1).args[0]
    return mkiter(lift(lambda x: lst([lst(elems(x)[i:i + n]) for i in range(0, len(elems(x)) - n + 1, n)]), c.arg(0)))


def seq_each_ref(c):
    return c.arg(0)


def seq_windows(c):
    n = c.arg(1).args[0]

    def f(x):
        xs = elems(x)
        return lst([lst(xs[i:i + n]) for i in range(0, max(0, len(xs) - n + 1))])
    return mkiter(lift(f, c.arg(0)))


def seq_chunks(c):
    n = c.arg(1).args[0]

    def f(x):
        xs = elems(x)
        return lst([lst(xs[i:i + n]) for i in range(0, len(xs), n)])
    return mkiter(lift(f, c.arg(0)))


def seq_split(c):
    def f(x, y):
        p = y.args[0] if y.op == "str" else chr(y.args[0]) if y.op == "int" else None
        if x.op == "str" and p:
            return mkiter(lst([STR(s) for s in x.args[0].split(p)]))
        if x.op == "list" and p and len(p) == 1:
            return lift(mkiter, split_list(list(x.args[0]), ord(p)))
        cs = cuts(x, p) if p else None
        if cs is not None:
            return mkiter(lst(cs))
        return mkiter(X.opaque("split", x, y))
    return lift(f, c.arg(0), c.arg(1))


NOSEP = {}      # unknown texts known not to contain a given separator


def cuts(x, p):
    """parts of a text between occurrences of p, or None"""
    parts = list(x.args[0]) if x.op == "cat" else [x]
    out = [[]]
    for e in parts:
        if e.op == "str":
            ss = e.args[0].split(p)
            out[-1].append(STR(ss[0]))
            out += [[STR(s)] for s in ss[1:]]
        elif NOSEP.get(e) == p or e.op == "inttext" and len(p) == 1 and not p.isdigit() and p != "-":
            out[-1].append(e)
        else:
            return None
    return [X.cat(*[e for e in o if e.op != "str" or e.args[0]]) if any(e.op != "str" or e.args[0] for e in o) else STR("")
            for o in out]


def pattern(y):
    return y.args[0] if y.op == "str" else chr(y.args[0]) if y.op == "int" else None


def joinsep(xs, p):
    r = []
    for i, e in enumerate(xs):
        r += ([STR(p)] if i else []) + [e]
    return X.cat(*r) if r else STR("")


def seq_splitn(c):
    def f(x, k, y):
        p = pattern(y)
        cs = (cuts(x, p) if p else None) if k.op == "int" else None
        if cs is None:
            return mkiter(X.opaque("split", x, y))
        n = k.args[0]
        return mkiter(lst(cs if len(cs) <= n else cs[:n - 1] + [joinsep(cs[n - 1:], p)]))
    return lift(f, c.arg(0), c.arg(1), c.arg(2))


def split_once(c, last):
    def f(x, y):
        p = pattern(y)
        cs = cuts(x, p) if p else None
        if cs is None:
            raise AnalysisError("cutting a text of unknown shape: " + X.show(x)[:120])
        if len(cs) == 1:
            return NONE
        return some(tup(joinsep(cs[:-1], p), cs[-1]) if last else tup(cs[0], joinsep(cs[1:], p)))
    return lift(f, c.arg(0), c.arg(1))


def seq_split_once(c):
    return split_once(c, False)


def seq_rsplit_once(c):
    return split_once(c, True)


def seq_matches(c):
    def f(x, y):
        p = pattern(y)
        cs = cuts(x, p) if p else None
        if cs is None:
            raise AnalysisError("searching a text of unknown shape: " + X.show(x)[:120])
        return mkiter(lst([STR(p)] * (len(cs) - 1)))
    return lift(f, c.arg(0), c.arg(1))


def seq_find(c):
    def f(x, y):
        p = pattern(y)
        cs = cuts(x, p) if p else None
        if cs is None:
            raise AnalysisError("searching a text of unknown shape: " + X.show(x)[:120])
        return NONE if len(cs) == 1 else some_of(X.mklen(cs[0]))
    return lift(f, c.arg(0), c.arg(1))


def split_list(xs, p):
    """all ways to cut a byte list at bytes equal to p"""
    outs = []

    def go(i, g, cur, parts):
        if g == B.F:
            return
        if i == len(xs):
            outs.append((g, lst([lst(q) for q in parts + [cur]])))
            return
        e = X.eq(xs[i], INT(p))
        go(i + 1, B.conj(g, e), [], parts + [cur])
        go(i + 1, B.conj(g, B.neg(e)), cur + [xs[i]], parts)
    go(0, B.T, [], [])
    return mkgamma(outs)


def seq_map(c):
    """[T; N]::map"""
    v, f = c.arg(0), c.args[1]

    def g(x, st):
        return lst([c.I.call_value(f, [e], st) for e in elems(x)])
    return c.I.per_alt(v, c.st, g)


def seq_sort_by(c):
    f = c.args[1]
    sort_with(c, lambda st, a, b: X.inteq(c.I.discriminant(c.I.call_value(f, [b, a], st)), INT(-1)))
    return UNIT


seq_sort_unstable_by = seq_sort_by


def seq_sort_by_key(c):
    f = c.args[1]
    sort_with(c, lambda st, a, b: value_lt(c.I.call_value(f, [b], st), c.I.call_value(f, [a], st), c.I, st))
    return UNIT


seq_sort_unstable_by_key = seq_sort_by_key
seq_sort_by_cached_key = seq_sort_by_key


def value_lt(a, b, I=None, st=None):
    """the order of two values; a type of the workspace is ordered by its own implementation"""
    def own(x):
        if x.op != "agg" or I is None:
            return None
        if not hasattr(I, "owncmp"):
            ts = [t for t in (I.T.values() if isinstance(I.T, dict) else I.T) if t and t.get("cmp")]
            I.owncmp = {t["path"]: t["cmp"] for t in ts if not t.get("args")}
        return I.owncmp.get(x.args[0])
    if any(own(x) for _, x in alts(a)):
        rec = [own(x) for _, x in alts(a)][0]
        return X.inteq(I.discriminant(I.call(rec, [a, b], st)), INT(-1))
    return X.vlt(a, b)


def seq_sort(c):
    sort_with(c, lambda st, a, b: value_lt(b, a, c.I, st))
    return UNIT


seq_sort_unstable = seq_sort


def sort_with(c, less):
    """insertion sort network; less(a, b): b must come before a"""
    v = c.arg(0)

    def f(x, st):
        xs = elems(x)
        if len(xs) > 4:
            raise AnalysisError("sort of a long sequence")
        for i in range(1, len(xs)):
            for j in range(i, 0, -1):
                sw = less(st, xs[j - 1], xs[j])
                a, b = xs[j - 1], xs[j]
                xs[j - 1] = mkgamma([(sw, b), (B.neg(sw), a)])
                xs[j] = mkgamma([(sw, a), (B.neg(sw), b)])
        return lst(xs)
    c.set(0, c.I.per_alt(v, c.st, f))


def seq_is_sorted(c):
    return unknown(c)


def range_of(c, v, r):
    """(start, end, out-of-bounds condition) of a range value"""
    n = X.mklen(v)
    p = [x for _, x in alts(r)][0].args[0]
    if p.endswith("::RangeFull"):
        return ZERO, n, B.F
    if p.endswith("::RangeFrom"):
        a, b = proj(r, ["f", 0]), n
    elif p.endswith("::RangeTo"):
        a, b = ZERO, proj(r, ["f", 0])
    elif p.endswith("::RangeToInclusive"):
        a, b = ZERO, X.add(proj(r, ["f", 0]), ONE)
    elif p.endswith("::RangeInclusive"):
        a, b = proj(r, ["f", 0]), X.add(proj(r, ["f", 1]), ONE)
    else:
        a, b = proj(r, ["f", 0]), proj(r, ["f", 1])
    return a, b, B.disj(X.lt(b, a), X.lt(n, b))


def slice_of(v, a, b):
    def f(x, p, q):
        if p.op == "int" and q.op == "int":
            return subslice(x, p, q)
        if x.op == "list":
            xs = list(x.args[0])
            out = []
            for i in range(len(xs) + 1):
                ci = X.inteq(p, INT(i))
                if ci == B.F:
                    continue
                for j in range(i, len(xs) + 1):
                    cj = X.inteq(q, INT(j))
                    if cj == B.F:
                        continue
                    out.append((B.conj(ci, cj), lst(xs[i:j])))
            return mkgamma(out)
        return subslice(x, p, q)
    return lift(f, v, a, b)


@pat(r".*core::ops::index::Index(Mut)?<.*>.*::index(_mut)?|core::slice::index::.*::index(_mut)?")
def m_index(c, m):
    if any(x.op == "agg" and x.args[0] == "hmap" for _, x in alts(c.arg(0))):
        return m_hindex(c)
    k = c.rec.get("key")
    if k and (c.rec.get("krate") in WS or (c.I.prog.raw.get(k) or {}).get("krate") in WS):
        return NotImplemented
    v, i = c.arg(0), c.arg(1)
    if any(x.op == "hmap" or (x.op == "agg" and x.args[0] == "hmap") for _, x in alts(v)):
        return unknown(c)
    mut = m.group(0).endswith("index_mut")
    if any(x.op == "agg" for _, x in alts(i)):
        a, b, oob = range_of(c, v, i)
        c.revert(X.decide(oob, c.st.guard), "bounds", "slice")
        if c.st.guard == B.F:
            return UNDEF
        if mut:
            if a.op != "int" or b.op != "int":
                raise AnalysisError("mutable sub-slice")
            return sub_mref(c.args[0], ("s", a.args[0], b.args[0], False))
        return slice_of(v, a, b)
    oob = X.decide(X.le(X.mklen(v), i), c.st.guard)
    c.revert(oob, "bounds", "index")
    if c.st.guard == B.F:
        return UNDEF
    if mut:
        return sub_mref(c.args[0], ("i", i))
    return index(v, i)


@pat(r"alloc::boxed::Box(?:::<.*>)?::new_uninit(_in)?|alloc::boxed::Box::<T>::new_uninit")
def m_boxnew(c, m):
    return newcell(c.I, c.st, UNDEF)


@model("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::boxed::Box::<T>::assume_init",
       "alloc::boxed::Box::<core::mem::maybe_uninit::MaybeUninit<T>, A>::assume_init",
       "alloc::boxed::Box::<core::mem::maybe_uninit::MaybeUninit<T>, A>::write")
def m_boxinit(c):
    v = c.arg(0)
    while v.op == "agg" and v.args[0] == "?":       # MaybeUninit / ManuallyDrop wrappers
        v = v.args[-1]
    return v


@pat(r"core::mem::(swap|replace|take)(::<.*>)?")
def m_mem(c, m):
    op = m.group(1)
    a = c.arg(0)
    if op == "replace":
        c.set(0, c.args[1])
        return a
    if op == "swap":
        b = c.arg(1)
        c.set(0, b)
        c.set(1, a)
        return UNIT
    t = c.targs[0]
    c.set(0, default_of(c, t))
    return a


def default_of(c, t):
    ty = c.I.T[t]
    k = ty["k"]
    if k == "int":
        return ZERO
    if k == "bool":
        return FALSE
    if k == "adt":
        if ty["path"] in INTTYPES:
            return ZERO
        if ty["path"] == OPT:
            return NONE
        if ty["path"] == "alloc::vec::Vec":
            return lst([])
        if ty["path"] in TEXTTYPES:
            return STR("")
    raise AnalysisError("default of " + ty["s"])


# ------------------------------------------------------------------------------------------------ iterators

def mkiter(seq):
    def f(x):
        if x.op in ("list", "str"):
            xs = lst(elems(x))
            return mk("agg", "it", 0, xs, ZERO, INT(len(xs.args[0])))
        if X.intish(x):        # limbs of a 256-bit integer
            return mk("agg", "it", 0, lst([X.limb(x, n) for n in range(4)]), ZERO, INT(4))
        return mk("agg", "it", 0, x, ZERO, X.mklen(x))
    return lift(f, seq)


def simp(v, guard):
    """drop alternatives excluded by the path condition"""
    if v.op != "gamma":
        return v
    return mkgamma([(B.restrict(g, guard), x) for g, x in v.args[0] if B.conj(g, guard) != B.F])


def textual(x):
    """an unknown text or byte string"""
    return x.op in ("sym", "fld", "chars", "canon", "human", "key", "json", "entry", "stored")


def text_next(c, x, i, j):
    """next byte of an unknown byte string, or next character of an unknown text: characters coincide with the bytes
    up to the first byte that is not ASCII; nothing is known about what follows such a byte"""
    a = i.args[0]
    s = x.args[0] if x.op == "chars" else x
    live = X.lt(i, j)
    e = I_index(s, i)
    if x.op == "chars":
        plain = B.T
        for k in range(a):
            plain = B.conj(plain, X.lt(I_index(s, INT(k)), INT(128)))
        other = mk("opq", "char", s, i)
        X.RNG[other] = (0, 0x10ffff)
        na = mk("opq", "wide", s, i)
        X.RNG[na] = (128, 0x10ffff)
        asc = X.lt(e, INT(128))
        e = mkgamma([(B.conj(plain, asc), e), (B.conj(plain, B.neg(asc)), na), (B.neg(plain), other)])
        live = B.conj(live, B.disj(plain, B.var(mk("holds", mk("opq", "more", s, i)))))
    live = X.decide(live, c.st.guard)
    return mkgamma([(live, tup(some_of(e), mk("agg", "it", 0, x, INT(a + 1), j))),
                    (B.neg(live), tup(NONE, mk("agg", "it", 0, x, i, j)))])


def I_index(s, i):
    import interp
    return interp.index(s, i)


def it_next(c, back=False):
    it = simp(c.arg(0), c.st.guard)

    def f(x, i, j):
        if x.op != "list" and i.op == "int" and not back and textual(x):
            return text_next(c, x, i, j)
        if x.op != "list" or i.op != "int":
            raise AnalysisError("iteration over a sequence of unknown shape: %s" % X.show(x)[:120])
        a = i.args[0]
        if j.op != "int":
            if back:
                raise AnalysisError("backward iteration over a sequence of unknown length")
            if a >= len(x.args[0]):
                return tup(NONE, mk("agg", "it", 0, x, i, j))
            m = X.decide(X.lt(i, j), c.st.guard)
            return mkgamma([(m, tup(some(x.args[0][a]), mk("agg", "it", 0, x, INT(a + 1), j))),
                            (B.neg(m), tup(NONE, mk("agg", "it", 0, x, i, j)))])
        b = j.args[0]
        if a >= b:
            return tup(NONE, mk("agg", "it", 0, x, i, j))
        if b > len(x.args[0]):          # end belongs to another alternative of the sequence
            return UNDEF
        if back:
            return tup(some(x.args[0][b - 1]), mk("agg", "it", 0, x, i, INT(b - 1)))
        return tup(some(x.args[0][a]), mk("agg", "it", 0, x, INT(a + 1), j))

    def g(v):
        if v.op != "agg" or v.args[0] != "it":
            raise AnalysisError("iteration over " + X.show(v)[:160])
        return lift(f, v.args[2], v.args[3], v.args[4])
    r = lift(g, it)
    c.set(0, proj(r, ["f", 1]))
    return proj(r, ["f", 0])


ITERTYPES = (r"core::slice::iter::\w+<.*>|alloc::vec::into_iter::IntoIter<.*>|core::array::iter::IntoIter<.*>|"
             r"core::str::iter::\w+<.*>|std::collections::hash::\w+::\w+<.*>|alloc::vec::drain::Drain<.*>|"
             r"alloc::collections::btree::\w+::\w+<.*>")


@pat(r"<(%s) as core::iter::traits::(?:iterator::Iterator|double_ended::DoubleEndedIterator|exact_size::ExactSizeIterator)>::(\w+)" % ITERTYPES)
def m_iter(c, m):
    meth = m.group(2)
    if meth == "next":
        return it_next(c)
    if meth == "next_back":
        return it_next(c, True)
    if meth in ("len",):
        return it_len(c.arg(0))
    if meth == "size_hint":
        n = it_len(c.arg(0))
        return tup(n, some_of(n))
    return consumer(c, meth)


def it_len(it):
    return lift(lambda v: X.sub(v.args[4], v.args[3]), it)


@pat(r"(?:alloc::boxed::iter::)?<impl core::iter::traits::iterator::Iterator for alloc::boxed::Box<I, A>>::(\w+)|"
     r"alloc::boxed::iter::.*Iterator for alloc::boxed::Box<I, A>>::(\w+)|"
     r"<&mut I as core::iter::traits::iterator::Iterator>::(\w+)|"
     r"core::iter::traits::iterator::<impl .* for &mut I>::(\w+)")
def m_boxiter(c, m):
    meth = [g for g in m.groups() if g][-1]
    it = c.arg(0)
    if all(x.op == "agg" and x.args[0] == "it" for _, x in alts(it)):
        return it_next(c, meth == "next_back")
    # a boxed/borrowed adaptor: dispatch on the inner type
    t = c.rargs[0]
    rec = c.I.T[t].get(meth)
    if rec:
        return c.I.call(rec, [c.args[0]], c.st)
    return unknown(c)


@pat(r"core::iter::range::<impl core::iter::traits::(?:iterator::Iterator|double_ended::DoubleEndedIterator) for core::ops::range::(\w+)<A>>::(\w+)")
def m_range(c, m):
    kind, meth = m.group(1), m.group(2)
    v = c.arg(0)

    def f(x):
        if kind == "RangeFrom":
            return tup(some(x.args[2]), mk("agg", x.args[0], 0, X.add(x.args[2], ONE)))
        a, b = x.args[2], x.args[3]
        if kind == "RangeInclusive":
            ex = X.asnode(x.args[4]) if len(x.args) > 4 else B.F
            live = B.conj(B.neg(ex), X.le(a, b))
            last = X.inteq(a, b)
            if meth == "next":
                nv = mkgamma([(B.conj(live, B.neg(last)), mk("agg", x.args[0], 0, X.add(a, ONE), b, FALSE)),
                              (B.neg(B.conj(live, B.neg(last))), mk("agg", x.args[0], 0, a, b, TRUE))])
                out = a
            else:
                nv = mkgamma([(B.conj(live, B.neg(last)), mk("agg", x.args[0], 0, a, X.sub(b, ONE), FALSE)),
                              (B.neg(B.conj(live, B.neg(last))), mk("agg", x.args[0], 0, a, b, TRUE))])
                out = b
            return tup(mkgamma([(live, some_of(out)), (B.neg(live), NONE)]), nv)
        live = X.decide(X.lt(a, b), c.st.guard)
        if meth == "next":
            nv = mk("agg", x.args[0], 0, X.add(a, ONE), b)
            out = a
        else:
            nv = mk("agg", x.args[0], 0, a, X.sub(b, ONE))
            out = X.sub(b, ONE)
        return tup(mkgamma([(live, some_of(out)), (B.neg(live), NONE)]), mkgamma([(live, nv), (B.neg(live), x)]))
    if meth not in ("next", "next_back"):
        return consumer(c, meth)
    r = lift(f, v)
    c.set(0, proj(r, ["f", 1]))
    return proj(r, ["f", 0])


@pat(r"core::ops::range::RangeInclusive(?:::<.*>)?::new")
def m_rangeincl(c, m):
    return mk("agg", "core::ops::range::RangeInclusive", 0, c.args[0], c.args[1], FALSE)


@pat(r"core::ops::range::Range(Inclusive)?(?:::<.*>)?::contains")
def m_rangecontains(c, m):
    r, v = c.arg(0), c.arg(1)
    lo, hi = proj(r, ["f", 0]), proj(r, ["f", 1])
    up = X.le(v, hi) if m.group(1) else X.lt(v, hi)
    return BOOL(B.conj(X.le(lo, v), up))


@pat(r".*IntoIterator( for .*)?>::into_iter|core::iter::traits::collect::IntoIterator::into_iter")
def m_intoiter(c, m):
    if c.rec.get("key"):
        return NotImplemented
    rp = c.rec.get("rpath") or ""
    if "&'a mut" in rp or "&mut" in rp:
        return seq_iter_mut(c)
    a = c.arg(0)
    if any(x.op == "agg" and x.args[0] in ("it",) for _, x in alts(a)):
        return c.args[0]
    if any(x.op == "agg" and x.args[0] == "hmap" for _, x in alts(a)):
        ty = c.I.T[c.I.strip(c.argtys[0])] if c.argtys else {}
        while ty.get("k") == "ref":
            ty = c.I.T[ty["to"]]
        return mkiter(hm_list(a, "key" if ty.get("path", "Set").endswith("Set") else "pair"))
    return mkiter(a)


def itrec(c, t, meth="next"):
    ty = c.I.T[t]
    while ty["k"] == "ref":
        ty = c.I.T[ty["to"]]
    rec = ty.get(meth)
    if rec is None:
        raise AnalysisError("no %s for iterator type %s" % (meth, ty["s"]))
    return rec


def drive(c, t, itref, st, body, back=False):
    """call next repeatedly; body(elem, state) returns (stop condition, stop value).  Returns the outcomes:
    list of (value or None when exhausted, state)"""
    I = c.I
    outs = []
    cur = st
    rec = itrec(c, t, "next_back" if back else "next") if t is not None else None
    for _ in range(I.unroll + 1):
        if rec is None:
            o = it_next(Call(I, {"path": "it"}, [itref], cur, None, None), back)
        else:
            o = I.call(rec, [itref], cur)
        if cur.guard == B.F:
            return outs
        nn = X.decide(isopt(o, OPT, 0), cur.guard)
        if nn != B.F:
            s = cur.copy()
            s.guard = B.conj(cur.guard, nn)
            if s.guard != B.F and X.feasible(s.guard):
                outs.append((None, s))
        sm = B.neg(nn)
        cur.guard = B.conj(cur.guard, sm)
        if cur.guard == B.F or not X.feasible(cur.guard):
            return outs
        e = proj(proj(o, ["v", 1]), ["f", 0])
        stop, val = body(e, cur)
        if cur.guard == B.F:
            return outs
        stop = X.decide(stop, cur.guard) if stop > 1 else stop
        if stop != B.F:
            s = cur.copy()
            s.guard = B.conj(cur.guard, stop)
            if s.guard != B.F:
                outs.append((val, s))
            cur.guard = B.conj(cur.guard, B.neg(stop))
            if cur.guard == B.F:
                return outs
    raise AnalysisError("iteration not bounded by the analysed input shapes")


def finish(c, outs, st, default):
    """join the outcomes; default(state) is the value on exhaustion"""
    I = c.I
    return I.join_into([(default(s) if v is None else v, s) for v, s in outs], st)


@pat(r"core::iter::traits::(?:iterator::Iterator|double_ended::DoubleEndedIterator|exact_size::ExactSizeIterator)::(\w+)|"
     r"<.* as core::iter::traits::(?:iterator::Iterator|double_ended::DoubleEndedIterator|exact_size::ExactSizeIterator)>::(\w+)")
def m_itdefault(c, m):
    meth = m.group(1) or m.group(2)
    if meth in ("next", "next_back"):
        a = c.arg(0)
        if all(x.op == "agg" and x.args[0] == "it" for _, x in alts(a)):
            return it_next(c, meth == "next_back")
        return NotImplemented
    return consumer(c, meth)


def remaining(v):
    """elements an iterator value still yields, per alternative; None when they are not known"""
    for _, x in alts(v):
        if x.op != "agg" or x.args[0] != "it":
            return None
        for _, q in alts(x.args[2]):
            if q.op not in ("list", "str"):
                return None
        for p in (x.args[3], x.args[4]):
            if any(q.op != "int" for _, q in alts(p)):
                return None

    def f(x, i, j):
        xs = elems(x)
        return lst(xs[i.args[0]:j.args[0]]) if j.args[0] <= len(xs) else UNDEF
    return lift(lambda x: lift(f, x.args[2], x.args[3], x.args[4]), v)


def adaptor(c, meth):
    """adaptors without a closure over an iterator of known elements"""
    if meth not in ("zip", "chain", "skip", "take", "step_by", "rev", "enumerate", "peekable", "by_ref", "copied", "cloned",
                    "flatten", "flat_map"):
        return NotImplemented
    v = simp(c.arg(0), c.st.guard)
    if meth == "by_ref":
        return c.args[0]
    xs = remaining(v)
    if xs is None:
        return NotImplemented
    if meth in ("zip", "chain"):
        o = simp(c.arg(1), c.st.guard)
        if all(x.op in ("list", "str") for _, x in alts(o)):
            ys = o
        elif all(x.op == "agg" and x.args[0] == OPT for _, x in alts(o)):
            ys = lift(lambda x: lst([x.args[2]]) if x.args[1] == 1 else lst([]), o)
        else:
            ys = remaining(o)
        if ys is None:
            return NotImplemented
        if meth == "zip":
            return mkiter(lift(lambda x, y: lst([tup(a, b) for a, b in zip(elems(x), elems(y))]), xs, ys))
        return mkiter(lift(lambda x, y: lst(elems(x) + elems(y)), xs, ys))
    if meth in ("skip", "take", "step_by"):
        n = c.arg(1)
        if any(q.op != "int" for _, q in alts(n)):
            if meth == "step_by":
                return NotImplemented
            return mkiter(lift(lambda x: partial(elems(x), n, meth), xs))

        def g(x, k):
            e, k = elems(x), k.args[0]
            return lst(e[k:] if meth == "skip" else e[:k] if meth == "take" else e[::k] if k else e)
        return mkiter(lift(g, xs, n))
    if meth == "rev":
        return mkiter(lift(lambda x: lst(elems(x)[::-1]), xs))
    if meth in ("flatten", "flat_map"):
        def cat(x, st):
            r = lst([])
            for e in elems(x):
                if meth == "flat_map":
                    e = c.I.call_value(c.args[1], [e], st)
                    if st.guard == B.F:
                        return UNDEF
                ts = lift(lambda y: whole(y) or UNDEF, e)
                if all(y.op != "undef" for _, y in alts(ts)) and any(y.op not in ("list", "str") for _, y in alts(ts)):
                    # the bytes of texts of unknown length
                    r = lift(lambda p, q: X.mkcat([p, q]), r, ts)
                    continue
                if any(y.op not in ("list", "str") for _, y in alts(r)):
                    raise AnalysisError("flatten over " + X.show(e)[:120])
                for _, y in alts(e):
                    if not (y.op in ("list", "str") or y.op == "agg" and (y.args[0] in (OPT, RES) or y.args[0] == "it" and remaining(y) is not None)):
                        raise AnalysisError("flatten over " + X.show(y)[:120])

                def parts(y):
                    if y.op in ("list", "str"):
                        return lst(elems(y))
                    if y.args[0] == "it":
                        return remaining(y)
                    return lst([y.args[2]] if y.args[1] == (1 if y.args[0] == OPT else 0) else [])
                r = lift(lambda p, q: lst(elems(p) + elems(q)), r, lift(parts, e))
            return r
        return mkiter(c.I.per_alt(xs, c.st, cat))
    if meth == "enumerate":
        return mkiter(lift(lambda x: lst([tup(INT(i), e) for i, e in enumerate(elems(x))]), xs))
    return v


def whole(y):
    """the sequence an iterator value runs over from its first to its last element; None when it is not known to be that"""
    while y.op == "agg" and str(y.args[0]).rsplit("::", 1)[-1] in ("Copied", "Cloned") and len(y.args) == 3:
        y = y.args[2]
    if y.op == "agg":
        if y.args[0] != "it":
            return None
        if remaining(y) is not None:
            return remaining(y)
        return y.args[2] if y.args[3] is ZERO and y.args[4] is X.mklen(y.args[2]) and all(map(is_text_term, (x for _, x in alts(y.args[2])))) else None
    return y if y.op in ("list", "str", "cat") else None


def is_text_term(t):
    return t.op in ("list", "str") or t.op in ("sym", "fld", "cat", "canon", "human", "lower", "len", "raw", "entry", "stored") or t.op == "opq"


def partial(xs, n, meth):
    """xs without (or only) its first n elements, n unknown"""
    cs = [(X.inteq(n, INT(k)), lst(xs[k:] if meth == "skip" else xs[:k])) for k in range(len(xs))]
    return mkgamma(cs + [(B.neg(X.lt(n, INT(len(xs)))), lst([]) if meth == "skip" else lst(xs))])


@model("core::intrinsics::cold_path", "core::hint::cold_path")
def m_cold(c):
    return UNIT


ZIPIMPL = r"<core::iter::adapters::zip::Zip<.*> as core::iter::adapters::zip::ZipImpl<.*>>::"


@pat(ZIPIMPL + "new")
def m_zip_new(c, m):
    return mk("agg", "core::iter::adapters::zip::Zip", 0, c.args[0], c.args[1], ZERO, ZERO)


@pat(ZIPIMPL + "next")
def m_zip_next(c, m):
    """the general pairing (the standard library's specialisation for random access yields the same elements)"""
    r = c.args[0]
    ty = c.I.T[c.I.strip(c.targs[0])]
    if r.op != "mref" or len(ty.get("args") or ()) != 2:
        return NotImplemented
    a, b = ty["args"]
    o1 = c.I.call(itrec(c, a), [mk("mref", r.args[0], r.args[1] + (("f", 0),))], c.st)
    has = X.decide(isopt(o1, OPT, 1), c.st.guard)
    outs = []
    s = c.st.copy()
    s.guard = B.conj(c.st.guard, B.neg(has))
    if s.guard != B.F and X.feasible(s.guard):
        outs.append((NONE, s))
    s = c.st.copy()
    s.guard = B.conj(c.st.guard, has)
    if s.guard != B.F and X.feasible(s.guard):
        x = proj(proj(o1, ["v", 1]), ["f", 0])
        o2 = c.I.call(itrec(c, b), [mk("mref", r.args[0], r.args[1] + (("f", 1),))], s)
        outs.append((lift(lambda o: some_of(tup(x, o.args[2])) if o.args[1] == 1 else NONE, simp(o2, s.guard)), s))
    return c.I.join_into(outs, c.st)


@model("core::iter::sources::once::once", "core::iter::once")
def m_once(c):
    return mkiter(lst([c.arg(0)]))


@model("core::iter::sources::empty::empty", "core::iter::empty")
def m_empty(c):
    return mkiter(lst([]))


@model("core::iter::sources::repeat::repeat")
def m_repeat(c):
    return mk("agg", "repeat", 0, c.arg(0))


@model("core::iter::sources::repeat_n::repeat_n")
def m_repeat_n(c):
    n = c.arg(1)
    if n.op != "int" or n.args[0] > 64:
        raise AnalysisError("repeat_n of unknown length")
    return mkiter(lst([c.arg(0)] * n.args[0]))


@pat(r"<core::iter::sources::repeat::Repeat<.*> as core::iter::traits::(?:iterator::Iterator|double_ended::DoubleEndedIterator)>::next(_back)?")
def m_repeat_next(c, m):
    return some_of(proj(c.arg(0), ["f", 0]))


@model("core::iter::sources::from_fn::from_fn")
def m_iterfromfn(c):
    return mk("agg", "fromfn", 0, c.args[0])


@pat(r"<core::iter::sources::from_fn::FromFn<.*> as core::iter::traits::iterator::Iterator>::next")
def m_fromfn_next(c, m):
    v = c.arg(0)
    if v.op != "agg" or v.args[0] != "fromfn":
        raise AnalysisError("iteration over " + X.show(v)[:120])
    return c.I.call_value(v.args[2], [], c.st)


@pat(r"core::iter::adapters::peekable::Peekable(?:::<.*>)?::(peek|next_if|next_if_eq)")
def m_peek(c, m):
    xs = remaining(simp(c.arg(0), c.st.guard))
    if xs is None:
        return NotImplemented if c.rec.get("key") else unknown(c)
    head = lift(lambda x: some(elems(x)[0]) if elems(x) else NONE, xs)
    if m.group(1) == "peek":
        return head
    e = proj(proj(head, ["v", 1]), ["f", 0])
    have = isopt(head, OPT, 1)
    if have == B.F:
        return NONE
    if m.group(1) == "next_if":
        def yes(st):
            return BOOL(X.asnode(c.I.call_value(c.args[1], [e], st)))
        take = X.asnode(branch(c.I, c.st, have, yes, lambda st: FALSE))
    else:
        take = B.conj(have, X.eq(e, c.arg(1)))
    rest = lift(lambda x: lst(elems(x)[1:]), xs)
    c.set(0, mkgamma([(take, mkiter(rest)), (B.neg(take), c.arg(0))]))
    return mkgamma([(take, head), (B.neg(take), NONE)])


CONSUMERS = {}


def methname(c):
    """name of the called method, type arguments dropped"""
    p, d = c.rec.get("rpath") or c.rec["path"], 0
    out = ""
    for i, ch in enumerate(p):
        if ch == "<":
            d += 1
        elif ch == ">" and p[i - 1] != "-":
            d -= 1
        elif d == 0:
            out += ch
    return [x for x in out.split("::") if x][-1]


def cons(*names):
    def d(f):
        for n in names:
            CONSUMERS[n] = f
        return f
    return d


def consumer(c, meth):
    f = CONSUMERS.get(meth)
    if f is None:
        return adaptor(c, meth)
    self_t = c.targs[0] if c.targs else None
    # trait-method targs[0] is Self for calls through the trait path
    if self_t is None or not (c.I.T[c.I.strip(self_t)].get("next")):
        self_t = None
        if c.argtys:
            t = c.I.strip(c.argtys[0])
            if c.I.T[t].get("next"):
                self_t = t
    a = c.args[0]
    if all(x.op == "agg" and x.args[0] == "it" for _, x in alts(c.arg(0))):
        self_t = None
    elif self_t is None:
        raise AnalysisError("iterator type of %s unknown" % c.rec.get("rpath"))
    if a.op != "mref":
        a = newcell(c.I, c.st, a)
    return f(c, self_t, a)


@cons("for_each")
def c_for_each(c, t, it):
    f = c.args[1]

    def body(e, st):
        c.I.call_value(f, [e], st)
        return B.F, None
    return finish(c, drive(c, t, it, c.st, body), c.st, lambda s: UNIT)


def c_collect_into(c, t, it, kind, st=None):
    acc = newcell(c.I, c.st, lst([]) if kind == "vec" else STR("") if kind == "string" else hm_new(int(kind[0] == "b")))

    def add(e, st):
        cur = c.I.deref(st, acc)
        if kind == "vec":
            v = lift(lambda x: X.mkcat([x, lst([e])]), cur)
        elif kind == "string":
            v = X.cat(cur, e)
        elif kind in ("set", "bset"):
            v = hm_insert(cur, e, TRUE)[0]
        else:
            v = hm_insert(cur, proj(e, ["f", 0]), proj(e, ["f", 1]))[0]
        c.I.write_ref(st, acc, v)
    return acc, add


def coll_kind(c, t):
    ty = c.I.T[t]
    p = ty.get("path", "")
    if p == "alloc::vec::Vec" or p.endswith("VecDeque"):
        return "vec"
    if p == "alloc::boxed::Box":
        return "vec"
    if p == "alloc::string::String":
        return "string"
    if p.endswith("HashMap") or p.endswith("BTreeMap"):
        return "bmap" if "BTree" in p else "map"
    if p.endswith("HashSet") or p.endswith("BTreeSet"):
        return "bset" if "BTree" in p else "set"
    return None


@cons("collect")
def c_collect(c, t, it):
    dt = c.dty if c.dty is not None else c.targs[-1]
    ty = c.I.T[dt]
    if ty.get("path") in (RES, OPT):
        good = 0 if ty["path"] == RES else 1
        kind = coll_kind(c, ty["args"][0])
        if kind is None:
            if c.I.T[ty["args"][0]]["k"] == "tuple":
                kind = "unit"
            else:
                raise AnalysisError("collect into " + ty["s"])
        acc, add = c_collect_into(c, t, it, kind) if kind != "unit" else (None, None)

        def body(e, st):
            bad = B.neg(isopt(e, ty["path"], good))
            if kind != "unit":
                g0 = st.guard
                bad1 = X.decide(bad, g0)
                if bad1 != B.T:
                    add(proj(proj(e, ["v", good]), ["f", 0]), st)
            badv = proj(e, ["v", 1 - good])
            return bad, badv if badv is not UNDEF else NONE
        outs = drive(c, t, it, c.st, body)
        wrap = (lambda v: lift(ok, v)) if good == 0 else some_of
        return finish(c, outs, c.st, lambda s: wrap(c.I.deref(s, acc)) if acc is not None else wrap(UNIT))
    kind = coll_kind(c, dt)
    if kind is None:
        raise AnalysisError("collect into " + ty["s"])
    if kind == "vec":
        # the bytes of a text of unknown length
        y = simp(c.I.deref(c.st, it) if it.op == "mref" else it, c.st.guard)
        ts = lift(lambda x: whole(x) or UNDEF, y)
        if all(x.op != "undef" for _, x in alts(ts)) and any(x.op not in ("list", "str") for _, x in alts(ts)):
            return ts
    acc, add = c_collect_into(c, t, it, kind)

    def body(e, st):
        add(e, st)
        return B.F, None
    return finish(c, drive(c, t, it, c.st, body), c.st, lambda s: c.I.deref(s, acc))


@cons("fold", "rfold")
def c_fold(c, t, it, back=False):
    acc = newcell(c.I, c.st, c.args[1])
    f = c.args[2]

    def body(e, st):
        c.I.write_ref(st, acc, c.I.call_value(f, [c.I.deref(st, acc), e], st))
        return B.F, None
    back = methname(c) == "rfold"
    return finish(c, drive(c, t, it, c.st, body, back), c.st, lambda s: c.I.deref(s, acc))


@cons("try_fold")
def c_try_fold(c, t, it):
    acc = newcell(c.I, c.st, c.args[1])
    f = c.args[2]
    ty = c.I.T[c.dty]
    good = 0 if ty["path"] == RES else 1

    def body(e, st):
        r = c.I.call_value(f, [c.I.deref(st, acc), e], st)
        if st.guard == B.F:
            return B.F, None
        bad = B.neg(isopt(r, ty["path"], good))
        g = proj(proj(r, ["v", good]), ["f", 0])
        if g is not UNDEF:
            c.I.write_ref(st, acc, g)
        b = proj(r, ["v", 1 - good])
        return bad, b
    wrap = (lambda v: lift(ok, v)) if good == 0 else some_of
    return finish(c, drive(c, t, it, c.st, body), c.st, lambda s: wrap(c.I.deref(s, acc)))


@cons("try_for_each")
def c_try_for_each(c, t, it):
    f = c.args[1]
    ty = c.I.T[c.dty]
    good = 0 if ty["path"] == RES else 1

    def body(e, st):
        r = c.I.call_value(f, [e], st)
        if st.guard == B.F:
            return B.F, None
        return B.neg(isopt(r, ty["path"], good)), proj(r, ["v", 1 - good])
    return finish(c, drive(c, t, it, c.st, body), c.st, lambda s: ok(UNIT) if good == 0 else some(UNIT))


@cons("any")
def c_any(c, t, it):
    f = c.args[1]
    return finish(c, drive(c, t, it, c.st, lambda e, st: (X.asnode(c.I.call_value(f, [e], st)), TRUE)), c.st,
                  lambda s: FALSE)


@cons("all")
def c_all(c, t, it):
    f = c.args[1]
    return finish(c, drive(c, t, it, c.st, lambda e, st: (B.neg(X.asnode(c.I.call_value(f, [e], st))), FALSE)), c.st,
                  lambda s: TRUE)


@cons("find", "rfind")
def c_find(c, t, it):
    f = c.args[1]
    return finish(c, drive(c, t, it, c.st, lambda e, st: (X.asnode(c.I.call_value(f, [e], st)), some_of(e)),
                           methname(c) == "rfind"), c.st, lambda s: NONE)


@cons("find_map")
def c_find_map(c, t, it):
    f = c.args[1]

    def body(e, st):
        r = c.I.call_value(f, [e], st)
        return isopt(r, OPT, 1), r
    return finish(c, drive(c, t, it, c.st, body), c.st, lambda s: NONE)


@cons("position", "rposition")
def c_position(c, t, it):
    f = c.args[1]
    back = methname(c) == "rposition"
    total = None
    if back:
        total = c_count(c, t, newcell(c.I, c.st, c.I.deref(c.st, it)))
    n = [0]

    def body(e, st):
        i = n[0]
        n[0] += 1
        v = INT(i) if not back else X.sub(total, INT(i + 1))
        return X.asnode(c.I.call_value(f, [e], st)), some_of(v)
    return finish(c, drive(c, t, it, c.st, body, back), c.st, lambda s: NONE)


@cons("count")
def c_count(c, t, it):
    n = [0]
    outs = []

    def body(e, st):
        n[0] += 1
        return B.F, None
    I = c.I
    v = simp(I.deref(c.st, it) if it.op in ("ref", "mref") else it, c.st.guard)
    if v.op == "agg" and v.args[0] == "it" and v.args[1] == 0 and v.args[2].op == "chars" and v.args[3] == ZERO \
            and textual(v.args[2].args[0]) and v.args[4] == X.mklen(v.args[2].args[0]):
        r = mk("opq", "charcount", v.args[2].args[0])       # the number of characters of an unknown text: not its length
        X.RNG[r] = (0, (1 << 32) - 1)
        return r
    acc = newcell(I, c.st, ZERO)

    def body2(e, st):
        I.write_ref(st, acc, X.add(I.deref(st, acc), ONE))
        return B.F, None
    return finish(c, drive(c, t, it, c.st, body2), c.st, lambda s: I.deref(s, acc))


@cons("last")
def c_last(c, t, it):
    acc = newcell(c.I, c.st, NONE)

    def body(e, st):
        c.I.write_ref(st, acc, some_of(e))
        return B.F, None
    return finish(c, drive(c, t, it, c.st, body), c.st, lambda s: c.I.deref(s, acc))


@cons("nth")
def c_nth(c, t, it):
    k = c.arg(1)
    n = [0]

    def body(e, st):
        i = n[0]
        n[0] += 1
        return X.inteq(k, INT(i)), some_of(e)
    return finish(c, drive(c, t, it, c.st, body), c.st, lambda s: NONE)


@cons("sum", "product")
def c_sum(c, t, it):
    mulp = methname(c) == "product"
    acc = newcell(c.I, c.st, ONE if mulp else ZERO)
    dt = c.dty
    ty = c.I.T[dt]
    wrapped = ty["path"] if ty.get("path") in (OPT, RES) else None
    if wrapped:
        dt = ty["args"][0]
        ty = c.I.T[dt]
    bits = c.I.bits(dt) or (INTTYPES.get(ty.get("path")), False)
    if bits[0] is None:
        raise AnalysisError("sum into " + ty["s"])
    if wrapped:
        good = 0 if wrapped == RES else 1

        def wbody(e, st):
            bad = B.neg(isopt(e, wrapped, good))
            s = proj(proj(e, ["v", good]), ["f", 0])
            if s is not UNDEF:
                cur = c.I.deref(st, acc)
                r = X.mul(cur, s) if mulp else X.add(cur, s)
                c.I.revert(st, X.decide(B.conj(B.neg(bad), outside(r, *bits)), st.guard), "overflow", "sum")
                c.I.write_ref(st, acc, r)
            b = proj(e, ["v", 1 - good])
            return bad, b if b is not UNDEF else NONE
        wrap = (lambda v: lift(ok, v)) if good == 0 else some_of
        return finish(c, drive(c, t, it, c.st, wbody), c.st, lambda s: wrap(c.I.deref(s, acc)))

    def body(e, st):
        cur = c.I.deref(st, acc)
        r = X.mul(cur, e) if mulp else X.add(cur, e)
        c.I.revert(st, X.decide(outside(r, *bits), st.guard), "overflow", "sum")
        c.I.write_ref(st, acc, r)
        return B.F, None
    return finish(c, drive(c, t, it, c.st, body), c.st, lambda s: c.I.deref(s, acc))


def m_sum(c):
    """<Uint128 as Sum>::sum(iter)"""
    t = c.I.strip(c.argtys[0]) if c.argtys else None
    it = c.args[0]
    if it.op != "mref":
        it = newcell(c.I, c.st, it)
    return c_sum(c, t, it)


@cons("reduce", "min_by", "max_by")
def c_reduce(c, t, it):
    acc = newcell(c.I, c.st, NONE)
    meth = methname(c)
    f = c.args[1]

    def body(e, st):
        cur = c.I.deref(st, acc)
        none = isopt(cur, OPT, 0)
        p = proj(proj(cur, ["v", 1]), ["f", 0])
        if p is UNDEF:
            c.I.write_ref(st, acc, some_of(e))
            return B.F, None

        def step(s):
            if meth == "reduce":
                return some_of(c.I.call_value(f, [p, e], s))
            o = c.I.discriminant(c.I.call_value(f, [p, e], s))
            rep = X.inteq(o, INT(1)) if meth == "min_by" else B.neg(X.inteq(o, INT(1)))
            return mkgamma([(rep, some_of(e)), (B.neg(rep), some_of(p))])
        c.I.write_ref(st, acc, branch(c.I, st, none, lambda s: some_of(e), step))
        return B.F, None
    return finish(c, drive(c, t, it, c.st, body), c.st, lambda s: c.I.deref(s, acc))


@cons("partition")
def c_partition(c, t, it):
    f = c.args[1]
    ya, yb = newcell(c.I, c.st, lst([])), newcell(c.I, c.st, lst([]))

    def body(e, st):
        n = X.asnode(c.I.call_value(f, [e], st))
        if st.guard == B.F:
            return B.F, None
        for acc, g in ((ya, n), (yb, B.neg(n))):
            cur = c.I.deref(st, acc)
            c.I.write_ref(st, acc, mkgamma([(g, lift(lambda x: X.mkcat([x, lst([e])]), cur)), (B.neg(g), cur)]))
        return B.F, None
    return finish(c, drive(c, t, it, c.st, body), c.st, lambda s: tup(c.I.deref(s, ya), c.I.deref(s, yb)))


@cons("min", "max", "min_by_key", "max_by_key")
def c_minmax(c, t, it):
    acc = newcell(c.I, c.st, NONE)
    meth = methname(c)
    f = c.args[1] if meth.endswith("_key") else None

    def body(e, st):
        cur = c.I.deref(st, acc)
        none = isopt(cur, OPT, 0)
        p = proj(proj(cur, ["v", 1]), ["f", 0])
        if p is UNDEF:
            c.I.write_ref(st, acc, some_of(e))
            return B.F, None
        a, b = (p, e) if f is None else (c.I.call_value(f, [p], st), c.I.call_value(f, [e], st))
        rep = value_lt(b, a, c.I, st) if meth.startswith("min") else B.neg(value_lt(b, a, c.I, st))
        rep = B.disj(none, rep)
        c.I.write_ref(st, acc, mkgamma([(rep, some_of(e)), (B.neg(rep), cur)]))
        return B.F, None
    return finish(c, drive(c, t, it, c.st, body), c.st, lambda s: c.I.deref(s, acc))


@cons("eq", "ne")
def c_iteq(c, t, it):
    a = c_collect_list(c, t, it)
    o = c.args[1]
    t2 = c.I.strip(c.argtys[1])
    b = c_collect_list(c, t2 if not (o.op == "agg" and o.args[0] == "it") else None, newcell(c.I, c.st, o))
    n = X.eq(a, b)
    return BOOL(n)


@cons("lt", "le", "gt", "ge", "cmp", "partial_cmp")
def c_itcmp(c, t, it):
    meth = methname(c)
    a = c_collect_list(c, t, it)
    o = c.args[1]
    t2 = c.I.strip(c.argtys[1])
    b = c_collect_list(c, t2 if not (o.op == "agg" and o.args[0] == "it") else None, newcell(c.I, c.st, o))
    if a is UNDEF or b is UNDEF:
        return UNDEF
    less, more = value_lt(a, b, c.I, c.st), value_lt(b, a, c.I, c.st)
    if meth in ("lt", "le", "gt", "ge"):
        return BOOL({"lt": less, "gt": more, "le": B.neg(more), "ge": B.neg(less)}[meth])
    r = mkgamma([(less, mk("agg", ORD, 0)), (more, mk("agg", ORD, 2)), (B.neg(B.disj(less, more)), mk("agg", ORD, 1))])
    return r if meth == "cmp" else some_of(r)


def c_collect_list(c, t, it):
    acc, add = c_collect_into(c, t, it, "vec")

    def body(e, st):
        add(e, st)
        return B.F, None
    return finish(c, drive(c, t, it, c.st, body), c.st, lambda s: c.I.deref(s, acc))


@cons("unzip")
def c_unzip(c, t, it):
    l = c_collect_list(c, t, it)
    return tup(lift(lambda x: lst([proj(e, ["f", 0]) for e in elems(x)]), l),
               lift(lambda x: lst([proj(e, ["f", 1]) for e in elems(x)]), l))


@cons("size_hint")
def c_size_hint(c, t, it):
    return tup(ZERO, NONE)


@cons("len")
def c_len(c, t, it):
    cp = newcell(c.I, c.st, c.I.deref(c.st, it))
    return c_count(c, t, cp)


@pat(r"<(?:alloc::vec::Vec<.*>|alloc::string::String|alloc::collections::vec_deque::VecDeque<.*>|"
     r"(?:std::collections::hash|alloc::collections::btree)::(?:map|set)::\w+<.*>) as core::iter::traits::collect::Extend<.*>>::extend")
def m_extend(c, m):
    t = c.I.strip(c.argtys[1])
    v = c.args[1]
    if c.I.T[t].get("next"):
        it = v if v.op == "mref" else newcell(c.I, c.st, v)
        if all(x.op == "agg" and x.args[0] == "it" for _, x in alts(c.arg(1))):
            t = None
        items = c_collect_list(c, t, it)
    else:
        # IntoIterator that is not an iterator: a collection
        items = c.arg(1)
        if any(x.op == "agg" and x.args[0] == OPT for _, x in alts(items)):
            items = lift(lambda x: lst([x.args[2]]) if x.args[1] == 1 else lst([]), items)
    if c.st.guard == B.F:
        return UNDEF
    if "::hash::" in m.group(0).split(" as ")[0] or "::btree::" in m.group(0).split(" as ")[0]:
        def add(h, l):
            for e in elems(l):
                k, v = (proj(e, ["f", 0]), proj(e, ["f", 1])) if "Map<" in m.group(0).split(" as ")[0] else (e, TRUE)
                h = hm_insert(h, k, v)[0]
            return h
        c.set(0, lift(add, c.arg(0), items))
        return UNIT
    if "String as" in m.group(0):
        items = lift(lambda x: X.mkcat(elems(x)) if elems(x) else STR(""), items)
    c.set(0, X.cat(c.arg(0), items))
    return UNIT


@pat(r"<.* as core::iter::traits::collect::FromIterator<.*>>::from_iter")
def m_fromiter(c, m):
    t = c.I.strip(c.argtys[0])
    v = c.args[0]
    if not c.I.T[t].get("next"):
        return v
    it = v if v.op == "mref" else newcell(c.I, c.st, v)
    return c_collect(c, None if all(x.op == "agg" and x.args[0] == "it" for _, x in alts(c.arg(0))) else t, it)


# ------------------------------------------------------------------------------------------------ hash maps

def hm_new(ordered=0):
    """variant 0: hash table (iteration order unspecified), 1: B-tree (iteration by key)"""
    return mk("agg", "hmap", ordered, lst([]))


def ents(h):
    return elems(h.args[2])


def ent(k, v, alive):
    return mk("agg", "ent", 0, k, v, BOOL(alive))


def hm_split(h, k):
    """entries with k removed, and Option<previous value>"""
    out, prev, g = [], NONE, B.F
    for e in ents(h):
        ek, ev, al = e.args[2], e.args[3], e.args[4].args[0]
        hit = B.conj(al, X.eq(ek, k))
        out.append(ent(ek, ev, B.conj(al, B.neg(hit))))
        prev = mkgamma([(hit, some_of(ev)), (B.neg(hit), prev)])
    return out, prev


def hm_insert(h, k, v):
    def f(x):
        out, prev = hm_split(x, k)
        return tup(mk("agg", "hmap", x.args[1], lst(out + [ent(k, v, B.T)])), prev)
    r = lift(f, h)
    return proj(r, ["f", 0]), proj(r, ["f", 1])


def some_p(o):
    return o.op == "agg" and o.args[1] == 1


def hm_count(h):
    def f(x):
        r = ZERO
        for e in ents(x):
            al = e.args[4].args[0]
            r = X.add(r, mkgamma([(al, ONE), (B.neg(al), ZERO)]))
        return r
    return lift(f, h)


def hm_order(x):
    """entries in the order iteration yields them"""
    es = ents(x)
    if x.args[1] == 0:
        es = [e for e in es if e.args[4].args[0] != B.F]
    if len(es) > 6:
        raise AnalysisError("iteration over a large map")
    for i in range(1, len(es)):
        for j in range(i, 0, -1):
            a, b = es[j - 1], es[j]
            if x.args[1]:
                sw = X.vlt(b.args[2], a.args[2])
            else:
                sw = B.var(mk("holds", mk("opq", "hashorder", x, INT(i), INT(j))))
            ng = B.neg(sw)
            p, q = [mk("agg", "ent", 0, mkgamma([(sw, u.args[2]), (ng, v.args[2])]), mkgamma([(sw, u.args[3]), (ng, v.args[3])]),
                       BOOL(B.disj(B.conj(sw, u.args[4].args[0]), B.conj(ng, v.args[4].args[0])))) for u, v in ((b, a), (a, b))]
            es[j - 1], es[j] = p, q
    return es


def hm_list(h, what):
    def f(x):
        r = lst([])
        for e in hm_order(x):
            al = e.args[4].args[0]
            v = e.args[2] if what == "key" else e.args[3] if what == "val" else tup(e.args[2], e.args[3])
            r = mkgamma([(al, lift(lambda y: X.mkcat([y, lst([v])]), r)), (B.neg(al), r)])
        return r
    return lift(f, h)


@pat(r"<(?:std::collections::hash|alloc::collections::btree)::(?:map|set)::\w+<.*> as core::convert::From<\[.*\]>>::from")
def m_hash_from(c, m):
    def f(x):
        h = hm_new(int("btree" in m.group(0)))
        for e in elems(x):
            k, v = (proj(e, ["f", 0]), proj(e, ["f", 1])) if "Map<" in m.group(0).split(" as ")[0] else (e, TRUE)
            h = hm_insert(h, k, v)[0]
        return h
    return lift(f, c.arg(0))


@pat(r"std::collections::hash::(?:map|set)::Hash(?:Map|Set)(?:::<.*>)?::(\w+)|"
     r"alloc::collections::btree::(?:map|set)::BTree(?:Map|Set)(?:::<.*>)?::(\w+)|"
     r"<(?:std::collections::hash|alloc::collections::btree)::.* as core::default::Default>::(default)")
def m_hash(c, m):
    meth = [g for g in m.groups() if g][-1]
    isset = "Set" in m.group(0)
    if meth in ("new", "with_capacity", "default", "with_hasher"):
        return hm_new(int("btree" in m.group(0)))
    h = c.arg(0)
    if meth == "insert":
        nv, prev = hm_insert(h, c.arg(1), TRUE if isset else c.args[2])
        c.set(0, nv)
        return BOOL(isopt(prev, OPT, 0)) if isset else prev
    if meth == "remove":
        k = c.arg(1)
        r = lift(lambda x: (lambda o: tup(mk("agg", "hmap", x.args[1], lst(o[0])), o[1]))(hm_split(x, k)), h)
        c.set(0, proj(r, ["f", 0]))
        prev = proj(r, ["f", 1])
        return BOOL(isopt(prev, OPT, 1)) if isset else prev
    if meth in ("len",):
        return hm_count(h)
    if meth == "is_empty":
        return BOOL(X.inteq(hm_count(h), ZERO))
    if meth in ("contains_key", "contains"):
        k = c.arg(1)
        return BOOL(liftb(lambda x: B.disj(*[B.conj(e.args[4].args[0], X.eq(e.args[2], k)) for e in ents(x)]), h))
    if meth == "get":
        k = c.arg(1)
        r = lift(lambda x: hm_split(x, k)[1], h)
        return lift(lambda o: some(k) if some_p(o) else o, r) if isset else r
    if meth in ("take", "replace", "get_or_insert_with") and isset or meth in ("remove_entry", "get_key_value") and not isset:
        k = c.arg(1)
        r = lift(lambda x: (lambda o: tup(mk("agg", "hmap", x.args[1], lst(o[0])), o[1]))(hm_split(x, k)), h)
        if meth == "replace":
            c.set(0, hm_insert(h, k, TRUE)[0])
        elif meth != "get_key_value":
            c.set(0, proj(r, ["f", 0]))
        return lift(lambda o: o if not some_p(o) else some(k) if isset else some(tup(k, proj(proj(o, ["v", 1]), ["f", 0]))),
                    proj(r, ["f", 1]))
    if meth in ("first", "last", "first_key_value", "last_key_value", "pop_first", "pop_last"):
        l = hm_list(h, "key" if isset else "pair")
        r = lift(lambda x: (lambda xs: some(xs[0 if "first" in meth else -1]) if xs else NONE)(elems(x)), l)
        if meth.startswith("pop"):
            key = lift(lambda o: o if not some_p(o) or isset else some(proj(proj(proj(o, ["v", 1]), ["f", 0]), ["f", 0])), r)
            out = []
            for g, o in alts(key):
                nh = h if not some_p(o) else lift(
                    lambda x: mk("agg", "hmap", x.args[1], lst(hm_split(x, proj(proj(o, ["v", 1]), ["f", 0]))[0])), h)
                out.append((g, nh))
            c.set(0, mkgamma(out))
        return r
    if meth in ("values_mut", "iter_mut") and c.args[0].op == "mref" and len(alts(h)) == 1 and h.args[1] == 1:
        # a sorted map's places: usable when the order is known
        base, es = c.args[0], ents(h)
        pos = []
        for o in hm_order(h):
            i = [i for i, e in enumerate(es) if e.args[2] is o.args[2] and e.args[4] is o.args[4]]
            if len(i) != 1:
                return unknown(c)
            pos.append(i[0])
        r = lst([])
        for i in pos:
            al = es[i].args[4].args[0]
            ref = mk("mref", base.args[0], base.args[1] + (("f", 0), ("i", INT(i)), ("f", 1)))
            x = ref if meth == "values_mut" else tup(es[i].args[2], ref)
            r = mkgamma([(al, lift(lambda y: X.mkcat([y, lst([x])]), r)), (B.neg(al), r)])
        return mkiter(r)
    if meth == "drain":
        l = hm_list(h, "key" if isset else "pair")
        c.set(0, hm_new(int("btree" in m.group(0))))
        return mkiter(l)
    if meth == "retain":
        hs = alts(h)
        if len(hs) == 1 and hs[0][1].op == "agg":
            x = hs[0][1]
            f = c.args[1] if c.args[1].op == "mref" else newcell(c.I, c.st, c.args[1])
            out = []
            for e in hm_order(x):
                al = e.args[4].args[0]
                vc = newcell(c.I, c.st, e.args[3])
                keep = branch(c.I, c.st, al, lambda st: c.I.call_value(c.I.deref(st, f), [e.args[2]] + ([] if isset else [vc]), st),
                              lambda st: BOOL(B.F))
                out.append(ent(e.args[2], c.I.deref(c.st, vc), B.conj(al, X.asnode(keep))))
            c.set(0, mk("agg", "hmap", x.args[1], lst(out)))
            return UNIT
        return unknown(c)
    if isset and meth in ("difference", "intersection", "union", "symmetric_difference", "is_subset", "is_superset", "is_disjoint"):
        o = c.arg(1)

        def has(y, k):
            return B.disj(*[B.conj(e.args[4].args[0], X.eq(e.args[2], k)) for e in ents(y)])

        def only(x, y, want):
            return [ent(e.args[2], e.args[3], B.conj(e.args[4].args[0], has(y, e.args[2]) if want else B.neg(has(y, e.args[2]))))
                    for e in ents(x)]

        def f(x, y):
            if meth == "is_subset":
                return BOOL(B.conj(*[B.neg(e.args[4].args[0]) for e in only(x, y, False)]))
            if meth == "is_superset":
                return BOOL(B.conj(*[B.neg(e.args[4].args[0]) for e in only(y, x, False)]))
            if meth == "is_disjoint":
                return BOOL(B.conj(*[B.neg(e.args[4].args[0]) for e in only(x, y, True)]))
            es = only(x, y, True) if meth == "intersection" else only(x, y, False)
            if meth == "union":
                es = ents(x) + only(y, x, False)
            if meth == "symmetric_difference":
                es = es + only(y, x, False)
            return mk("agg", "hmap", x.args[1], lst(es))
        r = lift(f, h, o)
        return r if meth.startswith("is_") else mkiter(hm_list(r, "key"))
    if meth in ("keys", "into_keys"):
        return mkiter(hm_list(h, "key"))
    if meth in ("values", "into_values"):
        return mkiter(hm_list(h, "val"))
    if meth == "iter":
        return mkiter(hm_list(h, "key" if isset else "pair"))
    if meth == "clear":
        c.set(0, hm_new(int("btree" in m.group(0))))
        return UNIT
    if meth == "entry" and c.args[0].op == "mref":
        return mk("agg", "hentry", 0, c.args[0], c.args[1])
    if meth == "get_mut" and c.args[0].op == "mref":
        k, base = c.arg(1), c.args[0]

        def gm(x):
            r = NONE
            for i, e in enumerate(ents(x)):
                hit = B.conj(e.args[4].args[0], X.eq(e.args[2], k))
                ref = mk("mref", base.args[0], base.args[1] + (("f", 0), ("i", INT(i)), ("f", 1)))
                r = mkgamma([(hit, some(ref)), (B.neg(hit), r)])
            return r
        return lift(gm, h)
    return unknown(c)


@pat(r"(?:std::collections::hash::map|alloc::collections::btree::map::entry)::Entry(?:::<.*>)?::(or_insert|or_default|or_insert_with|and_modify)")
def m_hentry(c, m):
    e = c.arg(0)
    meth = m.group(1)
    if e.op != "agg" or e.args[0] != "hentry":
        return unknown(c)
    base, k = e.args[2], e.args[3]
    h = c.I.deref(c.st, base)
    prev = lift(lambda x: hm_split(x, k)[1], h)
    have = isopt(prev, OPT, 1)
    old = proj(proj(prev, ["v", 1]), ["f", 0])
    if meth == "and_modify":
        if have == B.F:
            return e
        cell = newcell(c.I, c.st, old)
        branch(c.I, c.st, have, lambda st: c.I.call_value(c.args[1], [cell], st), lambda st: UNIT)
        nv = hm_insert(h, k, c.I.deref(c.st, cell))[0]
        c.I.write_ref(c.st, base, mkgamma([(have, nv), (B.neg(have), h)]))
        return e
    if meth == "or_insert":
        new = c.arg(1)
    elif meth == "or_insert_with":
        new = branch(c.I, c.st, B.neg(have), lambda st: c.I.call_value(c.args[1], [], st), lambda st: UNDEF)
    else:
        ty = c.I.T[c.dty]
        new = default_of(c, c.I.strip(c.dty))
    v = mkgamma([(have, old), (B.neg(have), new)]) if old is not UNDEF else new
    nh = hm_insert(h, k, v)[0]
    c.I.write_ref(c.st, base, nh)
    return lift(lambda x: mk("mref", base.args[0], base.args[1] + (("f", 0), ("i", INT(len(ents(x)) - 1)), ("f", 1))), nh)


def m_hindex(c):
    k = c.arg(1)
    prev = lift(lambda x: hm_split(x, k)[1], c.arg(0))
    c.I.revert(c.st, X.decide(isopt(prev, OPT, 0), c.st.guard), "unwrap", "map index")
    if c.st.guard == B.F:
        return UNDEF
    return proj(proj(prev, ["v", 1]), ["f", 0])


# double-ended queues are lists

@pat(r"alloc::collections::vec_deque::VecDeque(?:::<.*>)?::(\w+)|<alloc::collections::vec_deque::VecDeque<.*> as core::default::Default>::(default)")
def m_deque(c, m):
    meth = m.group(1) or m.group(2)
    if meth in ("new", "with_capacity", "default"):
        return lst([])
    alias = {"push_back": "push", "pop_back": "pop", "front": "first", "back": "last", "front_mut": "first_mut", "back_mut": "last_mut"}
    v = c.arg(0)
    if meth == "make_contiguous":
        return c.args[0]
    if meth == "push_front":
        x = c.args[1]
        c.set(0, lift(lambda y: X.mkcat([lst([x]), y]), v))
        return UNIT
    if meth == "pop_front":
        def f(x):
            xs = elems(x)
            return tup(lst(xs[1:]), some(xs[0])) if xs else tup(lst([]), NONE)
        r = lift(f, v)
        c.set(0, proj(r, ["f", 0]))
        return proj(r, ["f", 1])
    f = globals().get("seq_" + alias.get(meth, meth))
    return f(c) if f else unknown(c)


@pat(r"core::array::from_fn")
def m_fromfn(c, m):
    ty = c.I.T[c.dty]
    if ty["k"] != "array":
        return unknown(c)
    f = c.args[0]
    cell = f if f.op == "mref" else newcell(c.I, c.st, f)
    return lst([c.I.call_value(c.I.deref(c.st, cell), [INT(i)], c.st) for i in range(int(ty["len"]))])


@pat(r".*<impl core::convert::TryFrom<(?:&\[T\]|&mut \[T\]|alloc::vec::Vec<T(?:, A)?>|&'a \[T\])> for (?:&'a |&)?\[T; N\]>::try_from")
def m_arrtry(c, m):
    ty = c.I.T[c.I.T[c.dty]["args"][0]]
    while ty["k"] == "ref":
        ty = c.I.T[ty["to"]]
    n = int(ty["len"])
    v = c.arg(0)
    if any(x.op not in ("list", "str") for _, x in alts(v)):
        return unknown(c)
    return lift(lambda x: ok(lst(elems(x))) if len(elems(x)) == n else err(x), v)


@model("alloc::rcs::rc::Rc::<T>::new", "alloc::rc::Rc::<T>::new", "alloc::sync::Arc::<T>::new", "alloc::rcs::arc::Arc::<T>::new")
def m_rcnew(c):
    return c.args[0]


# ------------------------------------------------------------------------------------------------ text and formatting

TEXTLIKE = TEXTTYPES


def display(c, v, t, st):
    """Display text of value v of type t"""
    I = c.I
    ty = I.T[t]
    while ty["k"] in ("ref",) or ty.get("path") == "alloc::boxed::Box":
        t = ty["to"] if ty["k"] == "ref" else ty["args"][0]
        ty = I.T[t]
    v = I.deref(st, v)
    if ty["k"] == "str" or ty.get("path") in ("alloc::string::String", "cosmwasm_std::addresses::Addr"):
        return v
    if ty["k"] == "char":
        return lift(lambda x: STR(chr(x.args[0])) if x.op == "int" else lst([x]), v)
    if ty["k"] == "int":
        return inttext(v)
    if ty["k"] == "bool":
        n = X.asnode(v)
        return mkgamma([(n, STR("true")), (B.neg(n), STR("false"))])
    p = ty.get("path")
    if p in ("cosmwasm_std::math::decimal::Decimal", "cosmwasm_std::math::decimal256::Decimal256"):
        return X.opaque("dectext", v)
    if p == "bignumber::math::Decimal256" and not getattr(I, "raw_decimal", False):
        return X.opaque("dectext", v)
    if p in INTTYPES and not (p.startswith("bignumber") and getattr(I, "raw_decimal", False)):
        return inttext(v)
    if p == "alloc::borrow::Cow":
        return v
    if p == "core::fmt::Arguments":
        return v
    rec = ty.get("display")
    if rec is None or not rec.get("key"):
        return X.opaque("text", v, STR(ty["s"]))
    buf = newcell(I, st, mk("agg", "fmt", 0, STR("")))
    I.call(rec, [v, buf], st)
    if st.guard == B.F:
        return UNDEF
    return proj(I.deref(st, buf), ["f", 0])


def inttext(v):
    return lift(lambda x: STR(str(x.args[0])) if x.op == "int" else mk("inttext", x), v)


@pat(r"<.* as alloc::string::ToString>::to_string|alloc::string::ToString::to_string|alloc::string::.*to_string")
def m_tostring(c, m):
    t = c.targs[0] if c.targs else c.argtys[0]
    return display(c, c.arg(0), t, c.st)


@pat(r"core::fmt::rt::Argument::<.*>::new_(\w+)")
def m_fmtarg(c, m):
    if m.group(1) == "display":
        return mk1("fmtarg", display(c, c.arg(0), c.targs[0], c.st))
    return mk1("fmtarg", X.opaque("text_" + m.group(1), c.arg(0)))


def mk1(op, v):
    return lift(lambda x: mk(op, x), v)


@pat(r"core::fmt::rt::Argument::<.*>::from_usize")
def m_fmtarg_usize(c, m):
    return mk1("fmtarg", c.arg(0))


def render(c, template, args):
    """template: raw bytes of core::fmt::Arguments"""
    bs = template
    out = []
    i = 0
    nxt = 0
    while i < len(bs):
        n = bs[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(STR(bytes(bs[i:i + n])))
            i += n
        elif n == 0x80:
            ln = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(STR(bytes(bs[i:i + ln])))
            i += ln
        elif n == 0xC0:
            out.append(args[nxt])
            nxt += 1
        else:
            fl = width = None
            if n & 1:
                fl = int.from_bytes(bytes(bs[i:i + 4]), "little")
                i += 4
            if n & 2:
                width = int.from_bytes(bytes(bs[i:i + 2]), "little")
                i += 2
            prec = None
            if n & 4:
                prec = int.from_bytes(bytes(bs[i:i + 2]), "little")
                i += 2
            ai = nxt
            if n & 8:
                ai = int.from_bytes(bytes(bs[i:i + 2]), "little")
                i += 2
            a = args[ai]
            nxt = ai + 1
            if fl is None and width is None and prec is None:
                out.append(a)
            else:
                wi = bool(n & 16)
                w = args[width] if wi and width is not None else width
                out.append(pad(a, fl, w if isinstance(w, T) else INT(w) if w is not None else None, prec))
    return X.cat(*out) if out else STR("")


def pad(a, flags, width, prec):
    def f(x, w):
        if flags is not None and prec is None and x.op == "inttext" and w.op == "int" and w.args[0] >= 0:
            align = flags >> 29 & 3
            if flags & 1 << 24 or flags & 0x1fffff == 48 and align in (1, 3):
                n = X.mklen(x)
                fits = X.le(n, w)
                return mkgamma([(fits, X.cat(mk("opq", "repeat", STR("0"), X.sub(w, n)), x)), (B.neg(fits), x)])
        return mk("padded", x, INT(flags or 0), w, INT(-1 if prec is None else prec))
    return lift(f, a, width if width is not None else INT(-1))


@pat(r"core::fmt::Arguments::<.*>::(\w+)|core::fmt::rt::<impl core::fmt::Arguments<.*>>::(\w+)")
def m_arguments(c, m):
    meth = m.group(1) or m.group(2)
    if meth in ("from_str", "new_const", "as_str", "as_statically_known_str", "from_str_nonconst"):
        v = c.arg(0)
        if meth.startswith("as_"):
            return some_of(v)
        if v.op == "list":
            return X.cat(*v.args[0]) if v.args[0] else STR("")
        return v
    if meth == "new":
        tpl = c.arg(0)
        if tpl.op == "bytes":
            raw = bytes.fromhex(tpl.args[0])
        elif tpl.op == "str":
            raw = tpl.args[0].encode()
        elif tpl.op == "list":
            raw = bytes(e.args[0] for e in tpl.args[0])
        else:
            return X.opaque("fmt", tpl)
        args = c.arg(1)
        al = [lift(lambda y: y.args[0] if y.op == "fmtarg" else y, a) for a in elems(args)]
        return render(c, raw, al)
    return NotImplemented


@model("alloc::fmt::format", "alloc::fmt::format::format_inner")
def m_format(c):
    return c.arg(0)


@pat(r"core::fmt::Formatter::<.*>::(\w+)|<core::fmt::Formatter<.*> as core::fmt::Write>::(\w+)|"
     r"<alloc::string::String as core::fmt::Write>::(\w+)|core::fmt::Write::(\w+)")
def m_formatter(c, m):
    meth = [g for g in m.groups() if g][-1]
    if meth in ("write_str", "write_fmt", "write_char", "pad"):
        cur = c.arg(0)
        s = c.arg(1)
        if meth == "write_char":
            s = lift(lambda x: STR(chr(x.args[0])) if x.op == "int" else lst([x]), s)
        isbuf = any(x.op == "agg" and x.args[0] == "fmt" for _, x in alts(cur))
        if isbuf:
            nv = lift(lambda b, x: mk("agg", "fmt", 0, X.mkcat([b.args[2], x])), cur, s)
        else:
            nv = X.cat(cur, s)
        c.set(0, nv)
        return ok(UNIT)
    return unknown(c)


@pat(r"core::fmt::(?:num::)?(?:imp::)?<impl core::fmt::Display for (\w+)>::fmt|<.* as core::fmt::Display>::fmt")
def m_display_fmt(c, m):
    if c.rec.get("key"):
        return NotImplemented
    t = c.targs[0] if c.targs else c.argtys[0]
    s = display(c, c.arg(0), t, c.st)
    cur = c.arg(1)
    c.set(1, lift(lambda b, x: mk("agg", "fmt", 0, X.mkcat([b.args[2], x])), cur, s))
    return ok(UNIT)


@pat(r"<.* as core::fmt::Debug>::fmt")
def m_debug(c, m):
    return ok(UNIT)


@pat(r"<alloc::string::String as core::ops::arith::Add(Assign)?<&str>>::add(_assign)?")
def m_stradd(c, m):
    r = X.cat(c.arg(0), c.arg(1))
    if m.group(1):
        c.set(0, r)
        return UNIT
    return r


def parse_as(c, t):
    I = c.I
    ty = I.T[t] if t is not None else {}
    v = c.arg(0)
    p = ty.get("path")
    if ty.get("k") == "int" or p in INTTYPES:
        if p and "Decimal" in p:
            return lift(lambda x: dec_back(x, p), v) if all(x.op == "dectext" for _, x in alts(v)) else unknown(c)
        bits = ty.get("bits") or INTTYPES[p]
        return parse_dec(c, bits)
    rec = [b for b in I.prog.raw if "<%s as core::str::traits::FromStr>::from_str" % ty.get("s") == b]
    if rec:
        return I.run_body(rec[0], [v], c.st)
    return unknown(c)


def dec_back(x, t):
    """the number behind the decimal text of a number (printing and parsing are inverse, C41)"""
    n = x.args[0]
    bad = outside(n, 128) if "cosmwasm_std" in t else B.F
    return mkgamma([(bad, err(mk("opq", "parse"))), (B.neg(bad), ok(n))])


def parse_dec(c, bits):
    """decimal digits -> integer"""
    def f(x):
        if x.op == "inttext":
            n = x.args[0]
            bad = outside(n, bits)
            return mkgamma([(bad, err(mk("opq", "parse"))), (B.neg(bad), ok(n))])
        if x.op == "str":
            s = x.args[0]
            if s and all(ch in "0123456789" for ch in s) and int(s) < 1 << bits:
                return ok(INT(int(s)))
            return err(mk("opq", "parse"))
        if x.op == "list":
            xs = x.args[0]
            if not xs:
                return err(mk("opq", "parse"))
            good = B.T
            n = ZERO
            for e in xs:
                good = B.conj(good, between(e, 48, 57))
                n = X.add(X.scale(n, 10), X.sub(e, INT(48)))
            good = B.conj(good, B.neg(outside(n, bits)))
            return mkgamma([(good, ok(n)), (B.neg(good), err(mk("opq", "parse")))])
        bad = c.fail("parse", x, STR("u%d" % bits))
        r = mk("parsed", x)
        X.RNG[r] = (0, (1 << bits) - 1)
        return mkgamma([(bad, err(mk("opq", "parse"))), (B.neg(bad), ok(r))])
    return lift(f, c.arg(0))


@pat(r"<(.*) as core::str::traits::FromStr>::from_str|core::str::traits::<impl core::str::traits::FromStr for (.*)>::from_str|"
     r"core::num::<impl core::str::traits::FromStr for (\w+)>::from_str")
def m_fromstr(c, m):
    t = [g for g in m.groups() if g][0]
    v = c.arg(0)
    if all(x.op == "dectext" for _, x in alts(v)) and "Decimal" in t:
        return lift(lambda x: dec_back(x, t), v)
    if t in PRIM:
        return parse_dec(c, PRIM[t][0])
    if c.rec.get("key"):
        if "cosmwasm_std" in t and "Decimal" in t:
            if not all(x.op == "str" for _, x in alts(v)):
                bad = c.fail("parse", v, STR(t))
                r = X.opaque("parsed", v)
                X.RNG[r] = (0, (1 << 128) - 1)
                return result(c, bad, r)
        return NotImplemented
    return unknown(c)


@pat(r"core::any::type_name(::<.*>)?|cosmwasm_std::.*type_name.*")
def m_typename(c, m):
    t = c.targs[0] if c.targs else None
    return STR(c.I.ts(t)) if t is not None else STR("?")


# ------------------------------------------------------------------------------------------------ serialisation

@pat(r"cosmwasm_std::serde::(to_binary|to_vec|to_json_binary|to_json_vec|from_binary|from_slice|from_json)(::<.*>)?|"
     r"serde_json_wasm::.*::(to_vec|to_string|from_slice|from_str)(::<.*>)?")
def m_serde(c, m):
    name = m.group(1) or m.group(3)
    I = c.I
    if name.startswith("to_"):
        t = I.strip(c.targs[0])
        v = I.deref(c.st, c.arg(0))
        j = mk("json", I.ts(t), v)
        f = c.fail("encode", STR(I.ts(t)), v if not X.hasgamma(v) else mk("opq", "value"))
        return result(c, f, j)
    t = c.targs[-1]
    for cand in c.targs:
        if I.T[cand]["k"] == "adt":
            t = cand
    return decode(c, c.arg(0), t)


def decode(c, v, t):
    I = c.I
    ts = I.ts(t)

    def f(x, st):
        if x.op == "json":
            if x.args[0] == ts:
                return ok(x.args[1])
            r = transcode(c, x, t)
            if r is not None:
                return r
        bad = I.failnode(st, "decode", STR(ts), x)
        return mkgamma([(bad, err(mk("opq", "ParseErr"))), (B.neg(bad), ok(I.fresh(t, mk("decoded", x, STR(ts)))))])
    return c.I.per_alt(v, c.st, f)


def transcode(c, j, t):
    """decode the JSON of one type as another type of the same wire shape"""
    return None


# ------------------------------------------------------------------------------------------------ cosmwasm host

@pat(r"cosmwasm_std::traits::Api::(\w+)|<.* as cosmwasm_std::traits::Api>::(\w+)")
def m_api(c, m):
    meth = m.group(1) or m.group(2)
    v = c.arg(1) if len(c.args) > 1 else None
    if meth == "addr_validate":
        f = c.fail("validate", v)
        return result(c, f, v)
    if meth == "addr_canonicalize":
        f = c.fail("canonicalize", v)
        return result(c, f, X.mkcanon(v))
    if meth == "addr_humanize":
        f = c.fail("humanize", v)
        return result(c, f, X.mkhuman(v))
    return unknown(c)


@pat(r"cosmwasm_std::traits::QuerierWrapper(?:::<.*>)?::query")
def m_query(c, m):
    req = c.arg(1)
    t = c.targs[-1]
    ts = c.I.ts(t)

    def f(r, st):
        out = []
        for g, x in X.expand(r):
            bad = c.I.failnode(State(B.conj(st.guard, g)), "query", x, STR(ts))
            v = c.I.fresh(t, mk("resp", x))
            out.append((B.conj(g, bad), err(mk("opq", "QueryErr"))))
            out.append((B.conj(g, B.neg(bad)), lift(ok, v)))
        return mkgamma(out)
    return f(req, c.st)


@pat(r"cosmwasm_std::traits::Querier::raw_query|.*::raw_query")
def m_rawquery(c, m):
    c.I.note("raw_query", "raw querier access")
    return unknown(c)


def ns_of(v):
    """storage namespace of an Item/Map value"""
    k = proj(v, ["f", 0])
    if k.op != "str":
        return X.show(k)
    return k.args[0]


@pat(r"cw_storage_plus::item::Item(?:::<.*>)?::(load|may_load|save|remove|exists)")
def m_item(c, m):
    meth = m.group(1)
    I, st = c.I, c.st
    it = c.arg(0)
    ns = ns_of(it)
    key = ("item", ns)
    t = c.targs[-1]
    vt = I.T[t]["s"]
    I.cells.add(("item", ns, "", vt))
    if vt.endswith("asset::PairInfoRaw") and ns != "pair_info":
        raise AnalysisError('the pair\'s information is kept under "%s" instead of "pair_info"' % ns)
    cur = st.store.get(key) or mk("init", "item", ns)
    base = mk("stored", STR(ns))
    if meth == "save":
        v = I.deref(st, c.arg(2))
        st.store[key] = v
        return ok(UNIT)
    if meth == "remove":
        st.store[key] = mk("absent", "item", ns)
        return UNIT

    def f(x):
        if x.op == "init":
            ex = B.var(mk("exists", STR("item"), STR(ns)))
            if meth == "exists":
                return BOOL(ex)
            bad = I.failnode(st, "load", STR(ns))
            v = I.fresh(t, base)
            if meth == "load":
                return mkgamma([(bad, err(mk("opq", "StdError"))), (B.neg(bad), lift(ok, v))])
            return mkgamma([(bad, err(mk("opq", "StdError"))), (B.conj(B.neg(bad), ex), lift(lambda y: ok(some(y)), v)),
                            (B.conj(B.neg(bad), B.neg(ex)), ok(NONE))])
        if x.op == "absent":
            return {"load": err(mk("opq", "NotFound")), "may_load": ok(NONE), "exists": FALSE}[meth]
        return {"load": ok(x), "may_load": ok(some(x)), "exists": TRUE}[meth]
    return lift(f, cur)


def map_read(c, ns, k, t, meth):
    """read of map entry k through the pending writes"""
    I, st = c.I, c.st
    cur = st.store.get(("map", ns)) or mk("mapst", ns, ())

    def leaf(kk):
        def g(x, gg):
            ex = B.var(mk("exists", STR(ns), x))
            if meth in ("has",):
                return BOOL(ex)
            bad = I.failnode(State(B.conj(st.guard, gg)), "load", STR(ns), x)
            v = I.fresh(t, mk("entry", STR(ns), x))
            e = err(mk("opq", "StdError"))
            if meth == "load":
                return mkgamma([(B.disj(bad, B.neg(ex)), e), (B.conj(B.neg(bad), ex), lift(ok, v))])
            return mkgamma([(bad, e), (B.conj(B.neg(bad), ex), lift(lambda y: ok(some(y)), v)),
                            (B.conj(B.neg(bad), B.neg(ex)), ok(NONE))])
        return mkgamma([(gg, g(x, gg)) for gg, x in X.expand(kk) if X.feasible(B.conj(st.guard, gg))])

    def f(m):
        r = leaf(k)
        for wk, wv in m.args[1]:
            hit = X.eq(wk, k)
            if hit == B.F:
                continue
            if wv.op == "absent":
                v = {"has": FALSE, "load": err(mk("opq", "NotFound")), "may_load": ok(NONE)}[meth]
            else:
                v = {"has": TRUE, "load": lift(ok, wv), "may_load": lift(lambda y: ok(some(y)), wv)}[meth]
            r = mkgamma([(hit, v), (B.neg(hit), r)])
        return r
    if cur.op == "gamma":
        return mkgamma([(g, f(x if x.op == "mapst" else mk("mapst", ns, ()))) for g, x in cur.args[0]])
    return f(cur if cur.op == "mapst" else mk("mapst", ns, ()))


@pat(r"cw_storage_plus::map::Map(?:::<.*>)?::(load|may_load|save|remove|has|range|keys|is_empty|range_raw|prefix|sub_prefix)")
def m_map(c, m):
    meth = m.group(1)
    I, st = c.I, c.st
    ns = ns_of(c.arg(0))
    key = ("map", ns)
    t = c.targs[-1]
    if len(c.targs) >= 2:
        t = c.targs[1]
        I.cells.add(("map", ns, I.T[c.targs[0]]["s"], I.T[t]["s"]))
    if meth in ("load", "may_load", "has"):
        return map_read(c, ns, c.arg(2), t, meth)
    cur = st.store.get(key) or mk("mapst", ns, ())
    if meth in ("save", "remove"):
        v = I.deref(st, c.arg(3)) if meth == "save" else mk("absent", "map", ns)
        k = c.arg(2)

        def f(x):
            if x.op != "mapst":
                x = mk("mapst", ns, ())
            return mk("mapst", ns, x.args[1] + ((k, v),))
        st.store[key] = lift(f, cur)
        return ok(UNIT) if meth == "save" else UNIT
    if meth in ("range", "keys"):
        return map_range(c, ns, t, meth)
    return unknown(c)


def map_range(c, ns, t, meth):
    I, st = c.I, c.st
    lo, hi, order = c.arg(2), c.arg(3), c.arg(4)
    q = [(g, x) for g, x in X.expand(tup(norm_bound(lo), norm_bound(hi), order))]
    out = []
    N = getattr(I, "range_bound", 33)
    for g, x in q:
        if not X.feasible(B.conj(st.guard, g)):
            continue
        base = mk("range", STR(ns), x)
        n = mk("len", base)
        X.RNG[n] = (0, N)
        items = []
        for i in range(N):
            b = mk("fld", base, "%d" % i)
            k = mk("fld", b, "key")
            if meth == "keys":
                v = k
            else:
                v = tup(k, I.fresh(t, mk("fld", b, "value")))
            bad = I.failnode(State(B.conj(st.guard, g, X.lt(INT(i), n))), "range", b)
            items.append(mkgamma([(bad, err(mk("opq", "ParseErr"))), (B.neg(bad), lift(ok, v))]))
        out.append((g, mk("agg", "it", 0, lst(items), ZERO, n)))
    return mkgamma(out)


def norm_bound(b):
    """Option<Bound<K>> -> canonical Option of (inclusive?, bytes)"""
    def f(x):
        if x.op == "agg" and x.args[0] == OPT and x.args[1] == 1:
            y = x.args[2]
            if y.op == "agg" and "Bound" in y.args[0]:
                k = y.args[2]
                if k.op == "agg":
                    k = k.args[2]
                return mk("agg", "bound", 0 if y.args[1] in (0, 2) else 1, k)
        return x
    return mkgamma([(g, f(x)) for g, x in X.expand(b)])


@pat(r"cosmwasm_std::traits::Storage::(\w+)|<.* as cosmwasm_std::traits::Storage>::(\w+)")
def m_storage(c, m):
    meth = m.group(1) or m.group(2)
    if meth in ("set", "remove"):
        k = c.arg(1)
        cur = c.st.store.get(("raw",)) or mk("rawst", ())
        v = c.arg(2) if meth == "set" else mk("absent")
        c.st.store[("raw",)] = lift(lambda x: mk("rawst", (x.args[0] if x.op == "rawst" else ()) + ((k, v),)), cur)
        return UNIT
    return unknown(c)


@pat(r"cw_utils::parse_reply::parse_reply_instantiate_data")
def m_parse_reply(c, m):
    v = c.arg(0)
    bad = c.fail("parse_reply")
    return mkgamma([(bad, err(mk("opq", "ParseReplyError"))),
                    (B.neg(bad), ok(c.I.fresh(c.I.T[c.dty]["args"][0], mk("sym", "instantiated"))))])


@pat(r"cw20_base::contract::create_accounts")
def m_create_accounts(c, m):
    l = c.arg(1)
    bad = c.fail("create_accounts")
    tot = lift(lambda x: sum_list([proj(e, ["f", 1]) for e in elems(x)]), l)
    c.revert(X.decide(outside(tot, 128), c.st.guard), "overflow", "create_accounts")
    c.st.store[("map", "balance")] = mk("accounts", l)
    return result(c, bad, tot)


def sum_list(xs):
    r = ZERO
    for x in xs:
        r = X.add(r, x)
    return r


@pat(r"cw20_base::(?:contract|allowances|enumerable)::(\w+)")
def m_cw20base(c, m):
    name = m.group(1)
    if c.rec.get("key"):
        pass
    vals = [c.I.deref(c.st, a) for a in c.args]
    term = mk("opq", "cw20_base::" + name, *[v if not X.hasgamma(v) else v for v in vals])
    log = getattr(c.I, "base_calls", None)
    if log is not None:
        log.append((c.st.guard, name, vals, term))
    for v in vals:
        if v.op == "agg" and v.args[0] == "cosmwasm_std::deps::DepsMut":
            c.st.store[("base",)] = term
    return term


@pat(r"base64::.*")
def m_base64(c, m):
    return X.opaque("base64", c.arg(0))


@pat(r"alloc::string::String::from_utf8(_lossy|_unchecked)?|core::str::converts::from_utf8(_unchecked)?")
def m_utf8(c, m):
    v = c.arg(0)
    if m.group(1) or m.group(2):
        return v
    f = liftb(lambda x: B.F if x.op in ("str", "inttext", "dectext") else c.fail("utf8", x), v)
    return result(c, f, v)


@model("core::convert::Into::into")
def m_into_param(c):
    """conversion out of a type parameter: the number itself"""
    ty = c.I.T[c.dty] if c.dty is not None else {}
    v = c.arg(0)
    if c.rec.get("key") or ty.get("path") not in INTTYPES:
        return NotImplemented
    for _, x in alts(v):
        if x.op != "int" and x not in X.RNG and not X.intish(x):
            X.RNG[x] = (0, (1 << INTTYPES[ty["path"]]) - 1)
    return v


# ------------------------------------------------------------------------------------------------ fallbacks

def by_trait(c):
    tr = c.rec.get("trait") or ""
    p = c.rec["path"]
    meth = p.rsplit("::", 1)[-1]
    if tr == "core::clone::Clone":
        return c.arg(0)
    if tr in ("core::cmp::PartialEq",):
        n = X.eq(c.arg(0), c.arg(1))
        return BOOL(n if meth == "eq" else B.neg(n))
    if tr.startswith("core::iter::traits"):
        return consumer(c, meth)
    if tr == "core::ops::drop::Drop":
        return UNIT
    return NotImplemented
