"""Models of the standard library operations that the workspace uses.

Each model states the value-flow of one std / binrw operation; anything without a model is inlined when its
MIR is available and is an uninterpreted function of its arguments otherwise.
"""
import re
from terms import *
import terms as TM
import interp as IN
from interp import (seq_len, seq_elem, seq_slice, seq_cat, seq_store, mk_comp, asbool, INT_RANGE, Ev, int_cast, ovf, close,
                    FLOATS, DISCR_DOM)

EXACT = {}
RX = []


def model(*names):
    def d(fn):
        for n in names:
            EXACT[n] = fn
        return fn
    return d


def model_rx(rx):
    def d(fn):
        RX.append((re.compile(rx), fn))
        return fn
    return d


_cache = {}


class Models:
    def __init__(self):
        self.extra = {}

    def lookup(self, it, f, d):
        k = (f.path, d)
        r = _cache.get(k, 0)
        if r == 0:
            r = EXACT.get(f.path) or EXACT.get(d)
            if r is None:
                for rx, fn in RX:
                    if rx.search(f.path) or rx.search(d):
                        r = fn
                        break
            _cache[k] = r
        return r

    def keep_targs(self, d):
        return any(x in d for x in ("from_str", "parse", "size_of", "Specifier", "transmute"))


# ------------------------------------------------------------- helpers
def rty(it, f, dty):
    if dty is not None:
        return dty
    if f is not None and f.locals:
        return f.locals[0]
    return None


def some(ti, v):
    return mk("adt", ti, 1, v)


def none(ti):
    return mk("adt", ti, 0)


def ok(ti, v):
    return mk("adt", ti, 0, v)


def err(ti, v):
    return mk("adt", ti, 1, v)


def targ(it, ti, n=0):
    a = it.p.types[ti].get("args") or []
    return a[n] if n < len(a) else None


def obj(it, st, a):
    """follow pointers to the last pointer"""
    while a.op == "ptr":
        v = it.load(st, a)
        if v.op == "ptr":
            a = v
        else:
            return a
    return a


def val(it, st, a):
    while a.op == "ptr":
        a = it.load(st, a)
    return a


def deep(it, st, a):
    v = val(it, st, a)
    return v


# ------------------------------------------------------------- transparent operations
@model("std::ops::Deref::deref", "std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow", "std::string::String::as_str",
       "std::vec::Vec::<T, A>::as_slice", "std::string::String::as_bytes", "core::str::<impl str>::as_bytes",
       "std::array::<impl [T; N]>::as_slice", "std::string::String::into_bytes", "std::string::String::into_boxed_str",
       "std::vec::Vec::<T, A>::into_boxed_slice", "std::slice::<impl [T]>::to_vec", "std::slice::<impl [T]>::into_vec",
       "std::str::<impl str>::to_owned", "core::str::<impl str>::as_ptr", "std::boxed::Box::<T>::new",
       "std::boxed::box_assume_init_into_vec_unsafe", "std::boxed::box_new", "std::hint::must_use", "std::hint::black_box",
       "std::rc::Rc::<T>::new", "std::sync::Arc::<T>::new", "std::borrow::Cow::<'_, B>::into_owned",
       "core::str::<impl str>::chars", "core::str::<impl str>::bytes", "std::iter::Iterator::by_ref",
       "std::option::Option::<T>::as_deref_", "std::boxed::Box::<T, A>::into_inner")
def m_ident(it, f, args, st, pc, ck, dty):
    if f.crate in ("ssbh_lib", "ssbh_data", "ssbh_write"):
        return None
    a = args[0]
    if f.name == "box_assume_init_into_vec_unsafe" and a.op == "ptr" and a.a[0][0] == "box" and not a.a[1]:
        return st.pop(a.a[0], mk("sym", "uninit", "box")), pc
    if f.name == "by_ref":
        return a, pc
    if f.name in ("deref", "as_ref", "borrow"):
        return val(it, st, a), pc
    return it.snap(st, a) if a.op == "ptr" else a, pc


@model("std::ops::DerefMut::deref_mut", "std::vec::Vec::<T, A>::as_mut_slice", "std::convert::AsMut::as_mut", "std::borrow::BorrowMut::borrow_mut",
       "std::array::<impl [T; N]>::as_mut_slice", "core::slice::<impl [T]>::as_mut_ptr")
def m_identmut(it, f, args, st, pc, ck, dty):
    if f.crate in ("ssbh_lib", "ssbh_data", "ssbh_write"):
        return None
    return args[0], pc


@model("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::clone::Clone::clone_from_")
def m_clone(it, f, args, st, pc, ck, dty):
    if f.crate in ("ssbh_lib", "ssbh_data", "ssbh_write") and f.blocks and "derive" not in f.span and it.inline_clone(f):
        return None
    return it.snap(st, args[0]), pc


@model("std::string::ToString::to_string")
def m_to_string(it, f, args, st, pc, ck, dty):
    s = it.p.types[it.peel(f.targs[0])]["s"] if f.targs else (it.tname(it.peel(f.self_ty)) if f.self_ty is not None else "?")
    if s in ("str", "std::string::String", "String", "char"):
        return val(it, st, args[0]), pc
    return mk("tostring", s, val(it, st, args[0])), pc


@model("std::convert::From::from", "std::convert::Into::into")
def m_from(it, f, args, st, pc, ck, dty):
    if f.crate in ("ssbh_lib", "ssbh_data", "ssbh_write"):
        return None
    if f.name == "into":
        return None      # inline: reaches the From impl
    if f.self_ty is None:
        return None
    d = it.p.types[f.self_ty]
    s = d["s"]
    if d["k"] == "prim":
        # widening conversions
        fr = it.tname(f.targs[-1]) if f.targs else "?"
        if s in INT_RANGE:
            return dist1(lambda x: int_cast(x, fr, s), args[0]), pc
        return args[0], pc
    if s.startswith(("std::string::String", "std::vec::Vec", "std::boxed::Box<str", "std::rc::Rc", "std::sync::Arc", "std::borrow::Cow", "&")):
        return it.snap(st, args[0]), pc
    if s.startswith("std::boxed::Box<dyn"):
        return args[0], pc
    return None


# ------------------------------------------------------------- memory
@model("std::mem::swap")
def m_swap(it, f, args, st, pc, ck, dty):
    a, b = it.load(st, args[0]), it.load(st, args[1])
    it.store(st, args[0], b)
    it.store(st, args[1], a)
    return UNIT, pc


@model("std::mem::replace")
def m_replace(it, f, args, st, pc, ck, dty):
    a = it.load(st, args[0])
    it.store(st, args[0], args[1])
    return a, pc


@model("std::mem::take")
def m_take(it, f, args, st, pc, ck, dty):
    a = it.load(st, args[0])
    it.store(st, args[0], mk("default", it.tname(f.targs[0])))
    return a, pc


@model("std::mem::drop", "std::mem::forget", "core::mem::drop")
def m_drop(it, f, args, st, pc, ck, dty):
    return UNIT, pc


@model("std::boxed::Box::<T>::new_uninit")
def m_newuninit(it, f, args, st, pc, ck, dty):
    cell = ("box", it.ctx("box", *ck))
    st[cell] = mk("sym", "uninit", "box")
    return mk("ptr", cell, ()), pc


PRIM_SIZE = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "u64": 8, "i64": 8, "f64": 8, "u128": 16, "i128": 16,
             "usize": 8, "isize": 8, "bool": 1, "char": 4}


def static_size(p, ti):
    d = p.types[ti]
    if d["k"] == "prim":
        return PRIM_SIZE.get(d["s"])
    if d["k"] == "struct" and d["path"] == "std::num::NonZero":
        return static_size(p, d["args"][0])
    if d["k"] == "array" and d.get("len") is not None:
        e = static_size(p, d["of"])
        return None if e is None else e * int(d["len"])
    return None


@model("std::mem::size_of", "std::intrinsics::size_of", "core::intrinsics::size_of")
def m_sizeof(it, f, args, st, pc, ck, dty):
    n = it.p.types[f.targs[0]].get("sz")
    return (I(n) if n is not None else mk("sizeof", it.tname(f.targs[0]))), pc


@model("std::mem::align_of", "std::intrinsics::align_of", "core::intrinsics::align_of", "std::intrinsics::min_align_of")
def m_alignof(it, f, args, st, pc, ck, dty):
    n = it.p.types[f.targs[0]].get("al")
    return (I(n) if n is not None else mk("alignof", it.tname(f.targs[0]))), pc


# ------------------------------------------------------------- integers
@model_rx(r"^core::num::<impl [iu]\w+>::checked_(add|sub|mul|div|rem)$")
def m_checked(it, f, args, st, pc, ck, dty):
    t = re.search(r"impl (\w+)>", f.path).group(1)
    o = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem"}[f.name.split("_")[1]]
    ti = rty(it, f, dty)
    if o in ("Div", "Rem"):
        c = eq(args[1], I(0))
    else:
        c = None
    r = it.arith(o, args[0], args[1], t)
    if c is None:
        c = ovf(o, r, args[0], args[1], t)
    return ite(c, none(ti), some(ti, r)), pc


@model_rx(r"^core::num::<impl [iu]\w+>::(saturating|wrapping|overflowing|unchecked)_(add|sub|mul|neg|shl|shr)$")
def m_sat(it, f, args, st, pc, ck, dty):
    t = re.search(r"impl (\w+)>", f.path).group(1)
    k, o = f.name.split("_")
    if len(args) < 2:
        return None
    oo = {"add": "Add", "sub": "Sub", "mul": "Mul", "shl": "Shl", "shr": "Shr"}[o]
    r = it.arith(oo, args[0], args[1], t)
    if oo in ("Shl", "Shr"):
        return r, pc
    c = ovf(oo, r, args[0], args[1], t)
    if k == "unchecked" or c is FALSE:
        return r, pc
    if k == "overflowing":
        return mk("tup", ite(c, mk("wrap", t, r), r), c), pc
    if k == "wrapping":
        w = mk("wrap", t, r)
        TM.RANGE.setdefault(w, INT_RANGE[t])
        return ite(c, w, r), pc
    lo, hi = INT_RANGE[t]
    if t.startswith("u") and o == "sub":
        return ite(c, I(0), r), pc
    return ite(le0(add(sub(r, I(lo)), I(1))), I(lo), ite(le0(sub(I(hi + 1), r)), I(hi), r)), pc


@model_rx(r"^core::num::<impl [iu]\w+>::to_(le|be|ne)_bytes$")
def m_tobytes(it, f, args, st, pc, ck, dty):
    t = re.search(r"impl (\w+)>", f.path).group(1)
    op = "lebytes" if "le" in f.name.split("_")[1] or f.name.split("_")[1] == "ne" else "bebytes"
    return dist1(lambda x: mk(op, x, PRIM_SIZE[t], t), args[0]), pc


@model_rx(r"^core::f(32|64)::<impl f(32|64)>::to_(le|be|ne)_bytes$")
def m_ftobytes(it, f, args, st, pc, ck, dty):
    t = re.search(r"impl (\w+)>", f.path).group(1)
    op = "bebytes" if "_be_" in f.name else "lebytes"
    return dist1(lambda x: mk(op, x, PRIM_SIZE[t], t), args[0]), pc


@model_rx(r"^core::(num|f32|f64)::<impl \w+>::from_(le|be|ne)_bytes$")
def m_frombytes(it, f, args, st, pc, ck, dty):
    t = re.search(r"impl (\w+)>", f.path).group(1)
    e = "be" if "_be_" in f.name else "le"

    def leaf(x):
        if x.op == e + "bytes" and x.a[2] == t:
            return x.a[0]
        r = mk("from" + e, t, x)
        if t in INT_RANGE:
            TM.RANGE.setdefault(r, INT_RANGE[t])
        return r
    return dist1(leaf, args[0]), pc


@model_rx(r"^core::num::<impl [iu]\w+>::(pow|leading_zeros|trailing_zeros|count_ones|abs|signum|div_ceil|next_multiple_of|is_power_of_two|abs_diff|swap_bytes|isqrt|ilog2|rotate_left|rotate_right|next_power_of_two|reverse_bits|div_euclid|rem_euclid|unsigned_abs)$")
def m_intfn(it, f, args, st, pc, ck, dty):
    n = f.name
    a = args[0]
    if all(x.op == "int" for x in args):
        v = [x.a[0] for x in args]
        if n == "pow":
            return I(v[0] ** v[1]), pc
        if n == "div_ceil" and v[1]:
            return I(-(-v[0] // v[1])), pc
        if n == "next_multiple_of" and v[1]:
            return I(-(-v[0] // v[1]) * v[1]), pc
    if n == "div_ceil":
        return it.arith("Div", add(args[0], sub(args[1], I(1))), args[1], "u64"), pc
    if n == "next_multiple_of":
        d = it.arith("Div", add(args[0], sub(args[1], I(1))), args[1], "u64")
        return mul(d, args[1]), pc
    return it.note_range(mk("ifn", n, *args), rty(it, f, dty)), pc


@model_rx(r"^(std|core)::(f32|f64)::<impl f(32|64)>::\w+$")
def m_ffn(it, f, args, st, pc, ck, dty):
    if f.name in ("to_bits", "from_bits"):
        return mk("fbits", f.name, *args), pc
    r = mk("ffn", f.name, *args)
    d = it.p.types[rty(it, f, dty)] if rty(it, f, dty) is not None else {"s": "f32"}
    if d["s"] == "bool":
        return dist1(boolnode, r), pc
    return r, pc


@model("std::cmp::min", "std::cmp::max", "std::cmp::Ord::min", "std::cmp::Ord::max")
def m_min(it, f, args, st, pc, ck, dty):
    t = it.tname(f.targs[0]) if f.targs else "u64"
    if t not in INT_RANGE:
        return mk("cmp_" + f.name, *[it.snap(st, a) for a in args]), pc

    def leaf(x, y):
        c = le(x, y)
        if f.name == "max":
            x, y = y, x
        if c is TRUE:
            return x
        if c is FALSE:
            return y
        if f.name == "max":
            # the same as `if y < x { x } else { y }`
            return ite(lt(y, x), x, y)
        return mk(f.name, *sorted((x, y), key=lambda z: z.id))
    return dist2(leaf, *args), pc


@model("std::cmp::Ord::clamp")
def m_clamp(it, f, args, st, pc, ck, dty):
    return mk("min", *sorted((mk("max", *sorted(args[:2], key=lambda z: z.id)), args[2]), key=lambda z: z.id)), pc


@model("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into")
def m_tryfrom(it, f, args, st, pc, ck, dty):
    if f.crate in ("ssbh_lib", "ssbh_data", "ssbh_write"):
        return None
    if f.name == "try_into":
        return None
    ti = rty(it, f, dty)
    if ti is None:
        return None
    t = it.tname(f.self_ty) if f.self_ty is not None else None
    src = it.p.types[f.targs[-1]] if f.targs else None
    if t in INT_RANGE:
        lo, hi = INT_RANGE[t]

        def leaf(x):
            bad = OR(le0(add(sub(x, I(lo)), I(1))), le0(sub(I(hi + 1), x)))
            e = mk("adt", targ(it, ti, 1), 0, UNIT) if it.p.types[targ(it, ti, 1)]["k"] == "struct" else UNIT
            y = int_cast(x, "?", t)
            if y.op == "cast":
                y = x
            return ite(bad, err(ti, e), ok(ti, y))
        return dist1(leaf, args[0]), pc
    d = it.p.types[f.self_ty] if f.self_ty is not None else None
    if d and d["k"] == "array":
        s = val(it, st, args[0])
        c = eq(seq_len(s), I(int(d["len"])))
        return ite(c, ok(ti, s), err(ti, UNIT)), pc
    return None


@model("std::num::NonZero::<T>::get")
def m_nzget(it, f, args, st, pc, ck, dty):
    return dist1(lambda x: x.a[2] if x.op == "adt" else mk("fld", x, "nz"), args[0]), pc


@model("std::num::NonZero::<T>::new")
def m_nznew(it, f, args, st, pc, ck, dty):
    ti = rty(it, f, dty)
    nz = targ(it, ti)
    return ite(eq(args[0], I(0)), none(ti), some(ti, mk("adt", nz, 0, args[0]))), pc


@model("std::default::Default::default")
def m_default(it, f, args, st, pc, ck, dty):
    if f.crate in ("ssbh_lib", "ssbh_data", "ssbh_write"):
        return None
    t = it.p.types[f.self_ty] if f.self_ty is not None else None
    if t is None:
        return None
    if t["s"] in INT_RANGE:
        return I(0), pc
    if t["s"] in FLOATS:
        return mk("float", "0"), pc
    if t["s"] == "std::string::String":
        return S(""), pc
    if t["s"].startswith("std::vec::Vec"):
        return mk("arr"), pc
    return None


# ------------------------------------------------------------- comparisons
@model("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def m_eq(it, f, args, st, pc, ck, dty):
    if f.crate in ("ssbh_lib", "ssbh_data", "ssbh_write") and f.blocks:
        # derived equality of field-less enums is decided on discriminants
        ti = it.peel(f.targs[0]) if f.targs else f.self_ty
        ti = f.self_ty if f.self_ty is not None else ti
        d = it.p.types[it.peel(ti)]
        a, b = val(it, st, args[0]), val(it, st, args[1])
        if d["k"] == "enum" and all(not v["f"] for v in d["variants"]):
            r = eq(it.discr(a, it.peel(ti)), it.discr(b, it.peel(ti)))
            return (r if f.name == "eq" else NOT(r)), pc
        r = eq(a, b)
        return (r if f.name == "eq" else NOT(r)), pc
    a, b = val(it, st, args[0]), val(it, st, args[1])
    ti = it.peel(f.self_ty) if f.self_ty is not None else None
    if ti is not None and it.tname(ti) in FLOATS:
        return it.fbin("Eq" if f.name == "eq" else "Ne", a, b), pc
    r = eq(a, b)
    return (r if f.name == "eq" else NOT(r)), pc


@model("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge")
def m_ord(it, f, args, st, pc, ck, dty):
    ti = it.peel(f.self_ty) if f.self_ty is not None else (it.peel(f.targs[0]) if f.targs else None)
    a, b = val(it, st, args[0]), val(it, st, args[1])
    t = it.tname(ti)
    o = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[f.name]
    if t in FLOATS:
        return it.fbin(o, a, b), pc
    if t in INT_RANGE:
        return it.binop(o, a, b, ti), pc
    return boolnode(mk("cmpop", o, a, b)), pc


@model("std::cmp::Ord::cmp", "std::cmp::PartialOrd::partial_cmp")
def m_cmp(it, f, args, st, pc, ck, dty):
    if f.crate in ("ssbh_lib", "ssbh_data", "ssbh_write"):
        return None
    return mk("call", f.name, *[val(it, st, a) for a in args]), pc


# ------------------------------------------------------------- Try
@model("std::ops::Try::branch")
def m_branch(it, f, args, st, pc, ck, dty):
    ti = rty(it, f, dty)
    src = it.p.types[f.self_ty if f.self_ty is not None else f.targs[0]]
    if src["k"] != "enum" or src["path"].split("::")[-1] not in ("Result", "Option"):
        return None
    isopt = src["path"].endswith("Option")
    cont = [i for i, v in enumerate(it.p.types[ti]["variants"]) if v["n"] == "Continue"][0]
    res = it.p.types[ti]["args"][0]
    a = args[0]
    si = f.self_ty if f.self_ty is not None else f.targs[0]
    okv = 1 if isopt else 0

    def leaf(x):
        if x.op == "bot":
            return x
        if x.op == "adt":
            if x.a[1] == okv:
                return mk("adt", ti, cont, x.a[2])
            return mk("adt", ti, 1 - cont, mk("adt", res, 1 - okv, *x.a[2:]))
        dd = it.discr(x, si)
        good = mk("adt", ti, cont, it.proj_f(x, okv, 0, si, src["variants"][okv]["f"][0][1]))
        bad = mk("adt", ti, 1 - cont, mk("adt", res, 1 - okv, *([] if isopt else [it.proj_f(x, 1, 0, si)])))
        return ite(test(dd, okv), good, bad)
    r = it.con(a, pc)
    return dist1(leaf, r), pc


@model("std::ops::FromResidual::from_residual")
def m_residual(it, f, args, st, pc, ck, dty):
    ti = rty(it, f, dty)
    d = it.p.types[ti]
    if d["path"].endswith("Option"):
        return none(ti), pc
    if d["path"].endswith("Result"):
        a = args[0]
        si = f.targs[-1] if f.targs else None
        e = dist1(lambda x: x.a[2] if x.op == "adt" and len(x.a) > 2 else (mk("fld", x, "Err.0") if x.op != "bot" else x), a)
        return err(ti, mk("errfrom", e) if e.op != "errfrom" else e), pc
    return None


@model("std::option::Option::<T>::unwrap", "std::option::Option::<T>::expect", "std::result::Result::<T, E>::unwrap",
       "std::result::Result::<T, E>::expect", "std::option::Option::<T>::unwrap_unchecked")
def m_unwrap(it, f, args, st, pc, ck, dty):
    a = it.con(args[0], pc)
    si = f.locals[1] if f.locals else None
    if si is None:
        return None
    okv = 1 if "option" in f.path else 0
    c = test(it.discr(a, si), okv)
    c = it.con(c, pc)
    it.sites.add((it.stack[-1][0].i, f.name, str(it.site)))
    if c is not TRUE:
        it.obligation(pc, f.name, c, [a])
        if c is FALSE:
            return None, FALSE
    v = it.p.types[si]["variants"][okv]["f"][0][1]
    r = it.proj_f(a, okv, 0, si, v)
    return (r if r is not BOT else None), AND(pc, c)


@model("std::option::Option::<T>::as_ref", "std::result::Result::<T, E>::as_ref", "std::option::Option::<&T>::copied", "std::option::Option::<&T>::cloned",
       "std::option::Option::<T>::as_deref", "std::option::Option::<&mut T>::copied")
def m_asref(it, f, args, st, pc, ck, dty):
    v = val(it, st, args[0])
    ti = rty(it, f, dty)
    return retype(it, v, ti), pc


def retype(it, v, ti):
    """the same enum value seen at another instance of the generic enum"""
    def leaf(x):
        if x.op == "adt" and it.p.types[x.a[0]]["path"] == it.p.types[ti]["path"]:
            return mk("adt", ti, *x.a[1:])
        return x
    return dist1(leaf, v) if ti is not None else v


@model("std::option::Option::<T>::as_mut")
def m_asmut(it, f, args, st, pc, ck, dty):
    ti = rty(it, f, dty)
    p = args[0]
    v = it.load(st, p)
    si = it.peel(f.locals[1])
    inner = it.ptr_step(p, ("f", 1, 0, "Some.0", si)) if p.op == "ptr" else it.proj_f(p, 1, 0, si)
    return ite(test(it.discr(v, si), 1), some(ti, inner), none(ti)), pc


@model("std::option::Option::<T>::take")
def m_otake(it, f, args, st, pc, ck, dty):
    v = it.load(st, args[0])
    it.store(st, args[0], none(rty(it, f, dty)))
    return v, pc


@model_rx(r"^modular_bitfield::private::impls::<impl modular_bitfield::Specifier for bool>::")
def m_bfbool(it, f, args, st, pc, ck, dty):
    ti = rty(it, f, dty)
    if f.name == "into_bytes":
        return ok(ti, ite(asbool(args[0]), I(1), I(0))), pc
    if f.name == "from_bytes":
        v = val(it, st, args[0])
        return dist1(lambda x: ok(ti, FALSE) if x is I(0) else ok(ti, TRUE) if x is I(1) else mk("call", f.path, x), v), pc
    return None


def bit_of(b, p):
    """bit p of a byte, as 0 or 1"""
    while b.op == "setbit":
        if b.a[1] == p:
            return b.a[2]
        b = b.a[0]
    if b.op == "g":
        return dist1(lambda x: bit_of(x, p), b)
    if b.op == "int":
        return I((b.a[0] >> p) & 1)
    return ite(boolnode(mk("bit", b, p)), I(1), I(0))


TM.REBUILD["bit"] = lambda b, p: bit_of(b, p)


@model("modular_bitfield::private::proc::write_specifier", "modular_bitfield::private::proc::read_specifier")
def m_bfspec(it, f, args, st, pc, ck, dty):
    if not f.targs or it.tname(f.targs[0]) != "bool" or args[1].op != "int":
        return None
    o = args[1].a[0]
    if f.name == "read_specifier":
        return bit_of(seq_elem(val(it, st, args[0]), I(o // 8)), o % 8), pc
    a = it.load(st, args[0])
    old = seq_elem(a, I(o // 8))
    new = dist1(lambda x: mk("setbit", x, o % 8, args[2]), old)
    it.store(st, args[0], seq_store(a, I(o // 8), new))
    return UNIT, pc


# ------------------------------------------------------------- fmt and panics
@model("std::fmt::format", "std::fmt::Arguments::<'a>::from_str_nonconst", "std::fmt::Arguments::<'a>::from_str")
def m_fmt(it, f, args, st, pc, ck, dty):
    return mk("fmt", *[it.snap(st, a) for a in args]), pc


@model_rx(r"^core::fmt::|^std::fmt::|<impl std::fmt::|::fmt::Argument")
def m_fmt2(it, f, args, st, pc, ck, dty):
    ti = rty(it, f, dty)
    vals = [it.snap(st, a) for a in args]
    if ti is not None and it.p.types[ti]["k"] == "enum" and it.p.types[ti]["path"].endswith("Result"):
        for a in args:
            if a.op == "ptr":
                it.havoc(st, a, "fmt", args, "fmt")
        return ok(ti, UNIT), pc
    return mk("fmt", *vals), pc


@model_rx(r"^(core|std)::panicking::|^std::rt::panic|^core::option::(unwrap_failed|expect_failed)|^core::result::unwrap_failed|^(std|core)::process::(exit|abort)|panic_fmt$|handle_alloc_error|^core::panicking")
def m_panic(it, f, args, st, pc, ck, dty):
    it.obligation(pc, "panic:" + f.name, FALSE, [it.snap(st, a) for a in args])
    return None, FALSE


# ------------------------------------------------------------- vectors and slices
@model("std::vec::Vec::<T>::new", "std::string::String::new", "std::vec::Vec::<T>::with_capacity", "std::string::String::with_capacity")
def m_vecnew(it, f, args, st, pc, ck, dty):
    if f.name == "with_capacity":
        it.ev.append(Ev(pc, "alloc", ("with_capacity", args[0], it.tname(rty(it, f, dty))), it.site))
    return (S("") if "String" in f.path else mk("arr")), pc


@model("std::vec::Vec::<T, A>::reserve", "std::vec::Vec::<T, A>::reserve_exact", "std::vec::Vec::<T, A>::shrink_to_fit")
def m_reserve(it, f, args, st, pc, ck, dty):
    if len(args) > 1:
        it.ev.append(Ev(pc, "alloc", (f.name, args[1], "Vec"), it.site))
    return UNIT, pc


@model("std::vec::from_elem")
def m_fromelem(it, f, args, st, pc, ck, dty):
    it.ev.append(Ev(pc, "alloc", ("from_elem", args[1], it.tname(rty(it, f, dty))), it.site))
    if args[1].op == "int" and args[1].a[0] <= 64:
        return mk("arr", *([args[0]] * args[1].a[0])), pc
    return mk("rep", args[0], args[1]), pc


@model("std::vec::Vec::<T, A>::push", "std::vec::Vec::<T, A>::push_mut")
def m_push(it, f, args, st, pc, ck, dty):
    old = it.load(st, args[0])
    it.store(st, args[0], dist1(lambda x: seq_cat(x, mk("arr", args[1])), old))
    if f.name == "push_mut":
        return it.ptr_step(args[0], ("e", seq_len(old))), pc
    return UNIT, pc


@model("std::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len", "core::str::<impl str>::len", "std::string::String::len")
def m_len(it, f, args, st, pc, ck, dty):
    return it.note_range(seq_len(val(it, st, args[0])), None), pc


@model("std::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty", "core::str::<impl str>::is_empty", "std::string::String::is_empty")
def m_isempty(it, f, args, st, pc, ck, dty):
    return eq(seq_len(val(it, st, args[0])), I(0)), pc


@model("std::vec::Vec::<T, A>::clear", "std::string::String::clear")
def m_clear(it, f, args, st, pc, ck, dty):
    it.store(st, args[0], mk("arr"))
    return UNIT, pc


@model("std::vec::Vec::<T, A>::extend_from_slice", "std::string::String::push_str", "std::vec::Vec::<T, A>::append")
def m_extslice(it, f, args, st, pc, ck, dty):
    old = it.load(st, args[0])
    it.store(st, args[0], seq_cat(old, val(it, st, args[1])))
    if f.name == "append":
        it.store(st, args[1], mk("arr"))
    return UNIT, pc


@model("std::vec::Vec::<T, A>::truncate")
def m_trunc(it, f, args, st, pc, ck, dty):
    old = it.load(st, args[0])
    n = seq_len(old)
    c = le(args[1], n)
    it.store(st, args[0], ite(c, seq_slice(old, I(0), args[1]), old))
    return UNIT, pc


@model("std::vec::Vec::<T, A>::resize")
def m_resize(it, f, args, st, pc, ck, dty):
    old = it.load(st, args[0])
    n = seq_len(old)
    it.ev.append(Ev(pc, "alloc", ("resize", args[1], "Vec"), it.site))
    c = le(n, args[1])
    it.store(st, args[0], ite(c, seq_cat(old, mk("rep", args[2], sub(args[1], n))) if c is not FALSE else old,
                              seq_slice(old, I(0), args[1]) if c is not TRUE else old))
    return UNIT, pc


@model("std::vec::Vec::<T, A>::pop")
def m_pop(it, f, args, st, pc, ck, dty):
    old = it.load(st, args[0])
    n = seq_len(old)
    ti = rty(it, f, dty)
    c = eq(n, I(0))
    last = sub(n, I(1))
    r = ite(c, none(ti), some(ti, seq_elem(old, last)))
    it.store(st, args[0], ite(c, old, seq_slice(old, I(0), last)))
    return r, pc


@model("std::slice::<impl [T]>::sort_by_key", "std::slice::<impl [T]>::sort", "std::slice::<impl [T]>::sort_by", "core::slice::<impl [T]>::sort_unstable",
       "core::slice::<impl [T]>::sort_unstable_by", "core::slice::<impl [T]>::sort_unstable_by_key", "std::slice::<impl [T]>::sort_by_cached_key")
def m_sort(it, f, args, st, pc, ck, dty):
    old = it.load(st, args[0])
    key = S("natural")
    stable = "unstable" not in f.name
    if len(args) > 1:
        x, y = mk("sym", "sortx"), mk("sym", "sorty")
        s2 = dict(st)
        mark = len(it.ev), len(it.obl)
        k, _ = it.apply(args[1], [x] if "key" in f.name else [x, y], s2, pc, ck + ("key",), None)
        key = k if k is not None else BOT
    it.store(st, args[0], mk("sorted", old, key, f.name))
    return UNIT, pc


@model("std::vec::Vec::<T, A>::dedup", "std::vec::Vec::<T, A>::dedup_by_key")
def m_dedup(it, f, args, st, pc, ck, dty):
    old = it.load(st, args[0])
    ex = []
    if len(args) > 1:
        v, _ = it.apply(args[1], [mk("sym", "arg", f.name)], dict(st), pc, ck + ("key",), None)
        ex = [v if v is not None else BOT]
    it.store(st, args[0], mk(f.name, old, *ex))
    return UNIT, pc


@model("std::vec::Vec::<T, A>::retain")
def m_retain(it, f, args, st, pc, ck, dty):
    old = it.load(st, args[0])
    seq, npc = collect_seq(it, mk_it(mk("ifilter", mk("si", old), args[1])), st, pc, ck + ("c",))
    if seq is None:
        return None, FALSE
    it.store(st, args[0], seq)
    return UNIT, npc


@model("std::vec::Vec::<T, A>::insert")
def m_vinsert(it, f, args, st, pc, ck, dty):
    old = it.load(st, args[0])
    n = seq_len(old)
    bound(it, pc, args[1], add(n, I(1)), "insert")
    it.store(st, args[0], seq_cat(seq_slice(old, I(0), args[1]), mk("arr", it.snap(st, args[2])), seq_slice(old, args[1], n)))
    return UNIT, pc


@model("std::vec::Vec::<T, A>::remove", "std::vec::Vec::<T, A>::swap_remove")
def m_vremove(it, f, args, st, pc, ck, dty):
    old = it.load(st, args[0])
    n = seq_len(old)
    bound(it, pc, args[1], n, "remove")
    r = seq_elem(old, args[1])
    if f.name == "remove":
        it.store(st, args[0], seq_cat(seq_slice(old, I(0), args[1]), seq_slice(old, add(args[1], I(1)), n)))
    else:
        last = sub(n, I(1))
        it.store(st, args[0], seq_slice(seq_store(old, args[1], seq_elem(old, last)), I(0), last))
    return r, pc


@model("core::slice::<impl [T]>::reverse")
def m_reverse(it, f, args, st, pc, ck, dty):
    old = it.load(st, args[0])
    it.store(st, args[0], old.a[0] if old.op == "rev" else mk("rev", old))
    return UNIT, pc


@model("core::slice::<impl [T]>::swap")
def m_sswap(it, f, args, st, pc, ck, dty):
    s = it.load(st, args[0])
    n = seq_len(s)
    for i in args[1:3]:
        bound(it, pc, i, n, "swap")
    x, y = seq_elem(s, args[1]), seq_elem(s, args[2])
    it.store(st, args[0], seq_store(seq_store(s, args[1], y), args[2], x))
    return UNIT, pc


def bound(it, pc, i, n, kind):
    c = it.con(lt(i, n), pc)
    it.sites.add((it.stack[-1][0].i, kind, str(it.site)))
    if c is not TRUE:
        it.obligation(pc, kind, c, [n, i])
    return c


def range_of(it, f, a, n):
    """(lo, hi) of a range argument, or None for an index"""
    if a.op != "adt":
        return None
    p = it.p.types[a.a[0]]["path"].split("::")[-1]
    if p == "Range":
        return a.a[2], a.a[3]
    if p == "RangeFrom":
        return a.a[2], n
    if p == "RangeTo":
        return I(0), a.a[2]
    if p == "RangeFull":
        return I(0), n
    if p == "RangeInclusive":
        return a.a[2], add(a.a[3], I(1))
    if p == "RangeToInclusive":
        return I(0), add(a.a[2], I(1))
    return None


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def m_index(it, f, args, st, pc, ck, dty):
    if f.crate in ("ssbh_lib", "ssbh_data", "ssbh_write"):
        return None
    d = it.p.types[it.peel(f.self_ty)] if f.self_ty is not None else {"s": ""}
    if "HashMap" in d["s"] or "BTreeMap" in d["s"]:
        it.obligation(pc, "map-index", boolnode(mk("contains", val(it, st, args[0]), it.snap(st, args[1]))), [])
        return mk("mapget", val(it, st, args[0]), it.snap(st, args[1])), pc
    if not (d["k"] in ("slice", "array", "str") or d["s"].startswith(("std::vec::Vec", "std::string::String"))):
        it.obligation(pc, "index", boolnode(mk("inrange", val(it, st, args[0]), it.snap(st, args[1]))), [])
        return None
    s = val(it, st, args[0])
    n = seq_len(s)
    i = args[1]
    if i.op == "g":
        i = it.con(i, pc)
    r = range_of(it, f, i, n)
    if r is None:
        if i.op == "adt":
            return None
        bound(it, pc, i, n, "bounds")
        if f.name == "index_mut" and args[0].op == "ptr":
            return it.ptr_step(obj(it, st, args[0]), ("e", i)), pc
        return it.note_range(seq_elem(s, i), it.peel(dty) if dty is not None else None), pc
    lo, hi = r
    c = it.con(AND(le(lo, hi), le(hi, n)), pc)
    if c is not TRUE:
        it.obligation(pc, "slice", c, [lo, hi, n])
    if f.name == "index_mut" and args[0].op == "ptr":
        return it.ptr_step(obj(it, st, args[0]), ("sl", lo, hi)), pc
    return seq_slice(s, lo, hi), pc


@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut", "core::str::<impl str>::get")
def m_get(it, f, args, st, pc, ck, dty):
    s = val(it, st, args[0])
    n = seq_len(s)
    ti = rty(it, f, dty)
    r = range_of(it, f, args[1], n)
    if r is None:
        i = args[1]
        v = it.ptr_step(obj(it, st, args[0]), ("e", i)) if f.name == "get_mut" else it.note_range(seq_elem(s, i), it.peel(targ(it, ti)) if targ(it, ti) is not None else None)
        return ite(lt(i, n), some(ti, v), none(ti)), pc
    lo, hi = r
    return ite(AND(le(lo, hi), le(hi, n)), some(ti, seq_slice(s, lo, hi)), none(ti)), pc


@model("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::last")
def m_first(it, f, args, st, pc, ck, dty):
    s = val(it, st, args[0])
    n = seq_len(s)
    ti = rty(it, f, dty)
    i = I(0) if f.name == "first" else sub(n, I(1))
    return ite(eq(n, I(0)), none(ti), some(ti, seq_elem(s, i) if n is not I(0) else UNIT)), pc


@model("core::slice::<impl [T]>::contains")
def m_contains(it, f, args, st, pc, ck, dty):
    return boolnode(mk("contains", val(it, st, args[0]), val(it, st, args[1]))), pc


@model("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def m_copyfrom(it, f, args, st, pc, ck, dty):
    a, b = it.load(st, args[0]), val(it, st, args[1])
    c = it.con(eq(seq_len(a), seq_len(b)), pc)
    if c is not TRUE:
        it.obligation(pc, "copy_from_slice", c, [])
    it.store(st, args[0], b)
    return UNIT, pc


@model("core::str::<impl str>::from_utf8", "std::str::from_utf8", "std::string::String::from_utf8")
def m_utf8(it, f, args, st, pc, ck, dty):
    ti = rty(it, f, dty)
    s = val(it, st, args[0])
    c = boolnode(mk("isutf8", s)) if s.op != "g" else dist1(lambda x: boolnode(mk("isutf8", x)), s)
    return ite(c, ok(ti, s), err(ti, mk("sym", "utf8error"))), pc


@model("std::string::String::from_utf8_lossy")
def m_lossy(it, f, args, st, pc, ck, dty):
    return mk("lossy", val(it, st, args[0])), pc


@model_rx(r"::precondition_check$")
def m_precond(it, f, args, st, pc, ck, dty):
    # debug checks of the standard library's own unsafe code
    return UNIT, pc


@model_rx(r"^<std::io::Error as std::convert::From<")
def m_ioerr(it, f, args, st, pc, ck, dty):
    return mk("ioerror", *[it.snap(st, a) for a in args]), pc


# ------------------------------------------------------------- iterators
def is_it(x):
    return x.op == "it"


def mk_it(src):
    return mk("it", src, I(0))


def as_it(it, st, v, ti=None):
    """value used as an iterator -> (it term, cell pointer or None)"""
    if v.op == "ptr":
        p = obj(it, st, v)
        w = it.load(st, p)
        r = as_it(it, st, w, ti)
        if r is not w and r.op == "it" and p.op == "ptr":
            it.store(st, p, r)
        return r
    if v.op == "it":
        return v
    if v.op == "adt":
        d = it.p.types[v.a[0]]
        p = d["path"].split("::")[-1]
        if p == "Range":
            return mk_it(mk("rangei", v.a[2], v.a[3]))
        if p == "RangeInclusive":
            return mk_it(mk("rangei", v.a[2], add(v.a[3], I(1))))
        if p == "RangeFrom":
            return mk_it(mk("rangei", v.a[2], mk("sym", "inf")))
        if p == "Option":
            return mk_it(mk("si", mk("arr", *v.a[2:])))
    if v.op == "g":
        ls = leaves(v)
        if all(x.op == "adt" and it.p.types[x.a[0]]["path"].endswith("Option") for x in ls):
            return mk_it(mk("si", dist1(lambda x: mk("arr", *x.a[2:]), v)))
        return mk_it(mk("si", dist1(lambda x: itseq(it, st, x), v)))
    return mk_it(mk("si", v))


def itseq(it, st, v):
    if v.op == "it" and v.a[0].op == "si":
        return v.a[0].a[0]
    if v.op == "it":
        return mk("itseq", v)
    return v


@model("std::iter::IntoIterator::into_iter", "core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "std::iter::Iterator::by_ref_",
       "std::vec::Vec::<T, A>::drain", "std::vec::Vec::<T, A>::into_iter")
def m_intoiter(it, f, args, st, pc, ck, dty):
    a = args[0]
    if f.name == "by_ref":
        return a, pc
    if f.crate in ("ssbh_lib", "ssbh_data", "ssbh_write"):
        return None
    ti = f.locals[1] if f.locals else (f.self_ty if f.self_ty is not None else (f.targs[0] if f.targs else None))
    d = it.p.types[ti] if ti is not None else {"k": "?", "s": ""}
    mutable = (d["k"] == "ref" and d.get("mut")) or f.name == "iter_mut"
    if a.op == "ptr" and mutable:
        v = it.load(st, a)
        if v.op == "it":
            return a, pc
        if f.name == "drain":
            it.store(st, a, mk("arr"))
            return mk_it(mk("si", v)), pc
        return mk_it(mk("sim", a)), pc
    v = it.snap(st, a) if a.op == "ptr" else a
    if v.op == "call" or v.op == "mut":
        s = d["s"]
    s = it.tname(it.peel(ti)) if ti is not None else ""
    if "HashMap" in s or "HashSet" in s or "BTreeMap" in s:
        return mk_it(mk("si", mk("mapiter", v, "ord" if "BTree" in s else "hash"))), pc
    r = as_it(it, st, v)
    if IN.CLOSE_OTHERS and r.op == "it" and r.a[0].op == "rangei" and r.a[0].a[1].op == "g":
        r = mk("it", mk("rangei", r.a[0].a[0], it.as_one(r.a[0].a[1])), r.a[1])
    if IN.ONE_LENGTH and r.op == "it" and r.a[0].op == "si" and r.a[0].a[0].op == "comp" and r.a[0].a[0].a[0].op == "g":
        s = r.a[0].a[0]
        r = mk("it", mk("si", mk("comp", it.as_one(s.a[0]), *s.a[1:])), r.a[1])
    if f.name == "into_iter" and r.op == "it" and not slot_ok(r.a[0]):
        n = [0]
        seq, npc = collect_seq(it, r, st, pc, ck + ("mat",))
        if seq is None:
            return None, FALSE
        return mk_it(mk("si", seq)), npc
    return r, pc


@model("std::ops::RangeInclusive::<Idx>::new")
def m_rinc(it, f, args, st, pc, ck, dty):
    return mk("adt", rty(it, f, dty), 0, args[0], args[1], FALSE), pc


def lazy(kind, nfun=1):
    def m(it, f, args, st, pc, ck, dty):
        src = as_it(it, st, args[0])
        if src.op != "it":
            return None
        if src.a[1] is not I(0):
            base = mk("iskip", src.a[0], src.a[1])
        else:
            base = src.a[0]
        ex = list(args[1:])
        if kind in ("izip", "ichain"):
            o = as_it(it, st, ex[0])
            ex = [o.a[0]]
        return mk_it(mk(kind, base, *ex)), pc
    return m


for _n, _k in (("map", "imap"), ("enumerate", "ienum"), ("zip", "izip"), ("rev", "irev"), ("filter", "ifilter"), ("filter_map", "ifmap"),
               ("flat_map", "iflat"), ("flatten", "iflatten"), ("chain", "ichain"), ("take", "itake"), ("skip", "iskip"), ("copied", "icopy"),
               ("cloned", "icopy"), ("step_by", "istep"), ("scan", "iscan"), ("take_while", "itakewhile"), ("skip_while", "iskipwhile"),
               ("inspect", "iinspect"), ("fuse", "icopy"), ("map_while", "imapwhile"), ("cycle", "icycle")):
    EXACT["std::iter::Iterator::" + _n] = lazy(_k)


@model("itertools::Itertools::pad_using", "itertools::Itertools::positions", "itertools::Itertools::dedup", "itertools::Itertools::sorted",
       "itertools::Itertools::unique", "itertools::Itertools::unique_by", "itertools::Itertools::dedup_by_key", "itertools::Itertools::sorted_by", "itertools::Itertools::sorted_unstable", "itertools::Itertools::tuple_windows", "itertools::Itertools::chunks", "itertools::Itertools::sorted_by_key")
def m_itertools(it, f, args, st, pc, ck, dty):
    src = as_it(it, st, args[0])
    if src.op != "it":
        return None
    seq, npc = collect_seq(it, src, st, pc, ck + ("c",))
    if seq is None:
        return None, FALSE
    ex = []
    for a in args[1:]:
        if a.op in ("clo", "fn"):
            s2 = dict(st)
            v, _ = it.apply(a, [mk("sym", "arg", f.name)], s2, npc, ck + ("cl",), None)
            ex.append(v if v is not None else BOT)
        else:
            ex.append(a)
    return mk_it(mk("si", mk(f.name, seq, *ex))), npc


@model("core::slice::<impl [T]>::chunks", "core::slice::<impl [T]>::chunks_exact", "core::slice::<impl [T]>::windows")
def m_chunks(it, f, args, st, pc, ck, dty):
    c = it.con(NOT(eq(args[1], I(0))), pc)
    if c is not TRUE:
        it.obligation(pc, f.name, c, [])
    return mk_it(mk("i" + f.name, val(it, st, args[0]), args[1])), pc


@model("std::iter::repeat")
def m_repeat(it, f, args, st, pc, ck, dty):
    return mk_it(mk("irepeat", args[0])), pc


@model("std::iter::once")
def m_once(it, f, args, st, pc, ck, dty):
    return mk_it(mk("si", mk("arr", args[0]))), pc


@model("std::iter::empty")
def m_empty(it, f, args, st, pc, ck, dty):
    return mk_it(mk("si", mk("arr"))), pc


def slot_ok(s):
    k = s.op
    if k in ("si", "sim", "rangei", "irepeat", "ichunks", "ichunks_exact", "iwindows"):
        return True
    if k in ("imap", "ienum", "icopy", "iskip", "itake", "irev", "istep"):
        return slot_ok(s.a[0])
    if k == "izip":
        return slot_ok(s.a[0]) and slot_ok(s.a[1])
    return False


def umin(a, b):
    if a is None:
        return b
    if b is None:
        return a
    c = le(a, b)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    return mk("min", *sorted((a, b), key=lambda z: z.id))


def slot_len(it, st, s):
    k = s.op
    if k == "si":
        return seq_len(s.a[0])
    if k == "sim":
        return seq_len(it.load(st, s.a[0]))
    if k == "rangei":
        if s.a[1].op == "sym" and s.a[1].a == ("inf",):
            return None
        n = sub(s.a[1], s.a[0])
        return n
    if k == "irepeat":
        return None
    if k in ("imap", "ienum", "icopy", "irev"):
        return slot_len(it, st, s.a[0])
    if k == "izip":
        return umin(slot_len(it, st, s.a[0]), slot_len(it, st, s.a[1]))
    if k == "iskip":
        n = slot_len(it, st, s.a[0])
        return None if n is None else sub(n, s.a[1])
    if k == "itake":
        return umin(slot_len(it, st, s.a[0]), s.a[1])
    if k == "istep":
        n = slot_len(it, st, s.a[0])
        return None if n is None else it.arith("Div", add(n, sub(s.a[1], I(1))), s.a[1], "usize")
    if k == "ichunks":
        n = seq_len(s.a[0])
        return it.arith("Div", add(n, sub(s.a[1], I(1))), s.a[1], "usize")
    if k == "ichunks_exact":
        return it.arith("Div", seq_len(s.a[0]), s.a[1], "usize")
    if k == "iwindows":
        return add(sub(seq_len(s.a[0]), s.a[1]), I(1))
    raise IN.Lost("slot_len " + k)


def slot(it, st, s, pos, pc, ck):
    """value at slot pos; (value, pc)"""
    k = s.op
    if k == "si":
        return seq_elem(s.a[0], pos), pc
    if k == "sim":
        return it.ptr_step(s.a[0], ("e", pos)), pc
    if k == "rangei":
        return add(s.a[0], pos), pc
    if k == "irepeat":
        return s.a[0], pc
    if k == "imap":
        v, pc = slot(it, st, s.a[0], pos, pc, ck + ("s",))
        if v is None:
            return None, FALSE
        return it.apply(s.a[1], [v], st, pc, ck + ("m",), None)
    if k == "ienum":
        v, pc = slot(it, st, s.a[0], pos, pc, ck + ("s",))
        if v is None:
            return None, FALSE
        return mk("tup", pos, v), pc
    if k == "icopy":
        v, pc = slot(it, st, s.a[0], pos, pc, ck + ("s",))
        return (None, FALSE) if v is None else (it.snap(st, v), pc)
    if k == "iskip":
        return slot(it, st, s.a[0], add(pos, s.a[1]), pc, ck)
    if k == "itake":
        return slot(it, st, s.a[0], pos, pc, ck)
    if k == "istep":
        return slot(it, st, s.a[0], mul(pos, s.a[1]), pc, ck)
    if k == "irev":
        n = slot_len(it, st, s.a[0])
        return slot(it, st, s.a[0], sub(sub(n, I(1)), pos), pc, ck)
    if k == "izip":
        a, pc = slot(it, st, s.a[0], pos, pc, ck + ("a",))
        if a is None:
            return None, FALSE
        b, pc = slot(it, st, s.a[1], pos, pc, ck + ("b",))
        if b is None:
            return None, FALSE
        return mk("tup", a, b), pc
    if k in ("ichunks",):
        lo = mul(pos, s.a[1])
        return seq_slice(s.a[0], lo, umin(add(lo, s.a[1]), seq_len(s.a[0]))), pc
    if k == "ichunks_exact":
        lo = mul(pos, s.a[1])
        return seq_slice(s.a[0], lo, add(lo, s.a[1])), pc
    if k == "iwindows":
        return seq_slice(s.a[0], pos, add(pos, s.a[1])), pc
    raise IN.Lost("slot " + k)


@model("std::iter::Iterator::peekable")
def m_peekable(it, f, args, st, pc, ck, dty):
    src = as_it(it, st, args[0])
    return None if src.op != "it" else (src, pc)


@model("std::iter::Peekable::<I>::peek")
def m_peek(it, f, args, st, pc, ck, dty):
    p = obj(it, st, args[0])
    w = as_it(it, st, it.load(st, p)) if p.op == "ptr" else None
    if w is None or w.op != "it" or not slot_ok(w.a[0]):
        return None
    ti = rty(it, f, dty)
    src, pos = w.a
    n = slot_len(it, st, src)
    c = TRUE if n is None else lt(pos, n)
    s2 = dict(st)
    e, npc = slot(it, s2, src, pos, AND(pc, c), ck + ("peek",))
    if e is None:
        return None
    return ite(c, some(ti, e), none(ti)), pc


@model("std::iter::Iterator::next")
def m_next(it, f, args, st, pc, ck, dty):
    if f.crate in ("ssbh_lib", "ssbh_data", "ssbh_write"):
        return None
    p = obj(it, st, args[0])
    if p.op != "ptr":
        return None
    v = it.load(st, p)
    w = as_it(it, st, v)
    if w.op != "it":
        return None
    ti = rty(it, f, dty)
    src, pos = w.a
    if v.op == "adt":
        # a bare range: advance its start so that later uses see it
        if src.op == "rangei":
            c = lt(src.a[0], src.a[1])
            r = ite(c, some(ti, src.a[0]), none(ti))
            it.store(st, it.ptr_step(p, ("f", -1, 0, "start", v.a[0])), ite(c, add(src.a[0], I(1)), src.a[0]))
            return r, pc
    if not slot_ok(src):
        seq, npc = collect_seq(it, w, st, pc, ck + ("mat",))
        if seq is None:
            return None, FALSE
        pc = npc
        src = mk("si", seq)
    n = slot_len(it, st, src)
    c = TRUE if n is None else lt(pos, n)
    cc = it.con(c, pc)
    if cc is FALSE:
        return none(ti), pc
    s2 = dict(st)
    e, npc = slot(it, s2, src, pos, AND(pc, c), ck + ("next",))
    if e is None:
        # closure cannot return
        return ite(c, BOT, none(ti)), AND(pc, NOT(c))
    if p.op == "ptr":
        it.store(s2, p, mk("it", src, add(pos, I(1))))
    r = ite(c, some(ti, e), none(ti))
    tmp = dict(st)
    it.store(tmp, p, mk("it", src, pos))
    _, ns = it.merge([(AND(pc, c), s2), (AND(pc, NOT(c)), tmp)]) if cc is not TRUE else (pc, s2)
    IN.replace(st, ns)
    return r, OR(npc, AND(pc, NOT(c)))


@model("std::iter::Iterator::size_hint", "std::iter::ExactSizeIterator::len")
def m_itlen(it, f, args, st, pc, ck, dty):
    w = as_it(it, st, val(it, st, args[0]))
    if w.op != "it" or not slot_ok(w.a[0]) or f.name == "size_hint":
        return None
    return sub(slot_len(it, st, w.a[0]), w.a[1]), pc


class Driver:
    """internal iteration: calls body(st, pc, value) -> edges [(pc, st)] that continue, plus early exits recorded by code"""

    def __init__(self, it):
        self.it = it


def endless(s):
    return any(x.op in ("irepeat", "icycle") or x.op == "sym" and x.a == ("inf",) for x in subterms(s))


def known_source(s):
    return s.op in ("ifilter", "ifmap", "iflat", "iflatten", "ichain", "itakewhile", "imapwhile", "iscan", "imap", "icopy", "ienum", "itake", "iskip", "irev", "izip", "istep") or slot_ok(s)


def materialise(it, s, st, pc, ck):
    if slot_ok(s):
        return s, pc
    seq, npc = collect_seq(it, mk("it", s, I(0)), st, pc, ck)
    return (mk("si", seq), npc) if seq is not None else (None, FALSE)


def settle_source(it, s, st, pc, ck):
    """an adaptor over elements that are not addressable: over the sequence of those elements"""
    k = s.op
    if k not in ("itake", "iskip", "irev", "izip", "istep") or not all(known_source(x) for x in s.a[:2 if k == "izip" else 1]):
        return s, pc
    if k == "itake" and s.a[0].op == "ichain" and slot_ok(s.a[0].a[0]):
        a, b = s.a[0].a
        la = slot_len(it, st, a)
        if la is None:
            return mk("itake", a, s.a[1]), pc
        n = umin(la, s.a[1])
        return mk("ichain", mk("itake", a, s.a[1]), mk("itake", b, sub(s.a[1], n))), pc
    if any(endless(x) and not slot_ok(x) for x in s.a if isinstance(x, T)):
        return s, pc
    a, pc = materialise(it, s.a[0], st, pc, ck + ("m0",))
    if a is None:
        return None, pc
    b = s.a[1] if len(s.a) > 1 else None
    if k == "izip":
        b, pc = materialise(it, b, st, pc, ck + ("m1",))
        if b is None:
            return None, pc
    return (mk(k, a) if b is None else mk(k, a, *((b,) + s.a[2:]))), pc


def drive(it, w, st, pc, ck, body):
    """w: it term.  body(value, st, pc) -> list of ('next', pc, st) / (('exit', x), pc, st).
    returns (normal (pc, st) or None, exits [(x, pc, st)])"""
    src, pos0 = w.a
    exits = []

    def go(src, start, st, pc, ck, body):
        k = src.op
        if k == "imap" and not slot_ok(src):
            def b(v, st, pc):
                r, npc = it.apply(src.a[1], [v], st, pc, ck + ("m",), None)
                if r is None or npc is FALSE:
                    return []
                return body(r, st, npc)
            return go(src.a[0], start, st, pc, ck + ("s",), b)
        if k in ("icopy",) and not slot_ok(src):
            return go(src.a[0], start, st, pc, ck + ("s",), lambda v, st, pc: body(it.snap(st, v), st, pc))
        if k == "ifilter":
            def b(v, st, pc):
                r, npc = it.apply(src.a[1], [v], st, pc, ck + ("m",), None)
                if r is None or npc is FALSE:
                    return []
                c = it.con(asbool(r), npc)
                out = []
                if c is not TRUE:
                    out.append(("next", AND(npc, NOT(c)), dict(st)))
                if c is not FALSE:
                    out += body(v, st, AND(npc, c))
                return out
            return go(src.a[0], start, st, pc, ck + ("s",), b)
        if k in ("ifmap", "imapwhile", "iscan"):
            cell = (it.ctx(*ck, "scan"), 0)
            if k == "iscan":
                st[cell] = src.a[1]

            def b(v, st, pc):
                fa = [mk("ptr", cell, ()), v] if k == "iscan" else [v]
                r, npc = it.apply(src.a[2] if k == "iscan" else src.a[1], fa, st, pc, ck + ("m",), None)
                if r is None or npc is FALSE:
                    return []
                r = it.con(r, npc)
                ti = opt_type(it, r)
                c = test(it.discr(r, ti), 1) if ti is not None else boolnode(mk("issome", r))
                c = it.con(c, npc)
                out = []
                if c is not TRUE:
                    out.append(("next" if k == "ifmap" else ("exit", None), AND(npc, NOT(c)), dict(st)))
                if c is not FALSE:
                    out += body(it.proj_f(r, 1, 0, ti) if ti is not None else mk("fld", r, "Some.0"), st, AND(npc, c))
                return out
            return go(src.a[0], start, st, pc, ck + ("s",), b)
        if k == "itakewhile":
            def b(v, st, pc):
                r, npc = it.apply(src.a[1], [v], st, pc, ck + ("m",), None)
                if r is None or npc is FALSE:
                    return []
                c = it.con(asbool(r), npc)
                out = []
                if c is not TRUE:
                    out.append((("exit", None), AND(npc, NOT(c)), dict(st)))
                if c is not FALSE:
                    out += body(v, st, AND(npc, c))
                return out
            return go(src.a[0], start, st, pc, ck + ("s",), b)
        if k == "ienum" and not slot_ok(src):
            cell = (it.ctx(*ck, "cnt"), 0)
            st[cell] = I(0)

            def b(v, st, pc):
                i = st[cell]
                st[cell] = add(i, I(1))
                return body(mk("tup", i, v), st, pc)
            return go(src.a[0], start, st, pc, ck + ("s",), b)
        if k == "ichain":
            r = go(src.a[0], start, st, pc, ck + ("ca",), body)
            if r is None:
                return None
            pc2, st2 = r
            return go(src.a[1], I(0), st2, pc2, ck + ("cb",), body)
        if k in ("iflat", "iflatten"):
            def b(v, st, pc):
                if k == "iflat":
                    r, npc = it.apply(src.a[1], [v], st, pc, ck + ("m",), None)
                    if r is None or npc is FALSE:
                        return []
                else:
                    r, npc = v, pc
                inner = as_it(it, st, it.snap(st, r) if r.op == "ptr" else r)
                if inner.op != "it":
                    inner = mk_it(mk("si", inner))
                o = go(inner.a[0], inner.a[1], st, npc, ck + ("in",), body)
                return [] if o is None else [("next", o[0], o[1])]
            return go(src.a[0], start, st, pc, ck + ("s",), b)
        if not slot_ok(src):
            src2, pc = settle_source(it, src, st, pc, ck)
            if src2 is None:
                return None
            if src2 is not src:
                return go(src2, start, st, pc, ck + ("st",), body)
            # unknown producer
            return go(mk("si", mk("seqof", src)), start, st, pc, ck, body)
        cell = (it.ctx(*ck, "pos"), 0)
        st[cell] = start

        def run_body(hpc, hst, rets):
            p = hst[cell]
            n = slot_len(it, hst, src)
            c = TRUE if n is None else it.con(lt(p, n), hpc)
            ex = {}
            back = []
            if c is not TRUE:
                ex["done"] = [(AND(hpc, NOT(c)), dict(hst))]
            if c is not FALSE:
                s2 = hst
                npc = AND(hpc, c)
                v, npc = slot(it, s2, src, p, npc, ck + ("slot",))
                if v is not None and npc is not FALSE:
                    s2[cell] = add(p, I(1))
                    for how, epc, est in body(v, s2, npc):
                        if epc is FALSE:
                            continue
                        if how == "next":
                            back.append((epc, est))
                        else:
                            ex.setdefault(how, []).append((epc, est))
            return back, ex

        out = it.solve_loop((it.ctx(*ck, "loop"), 0), run_body, pc, st, [])
        done = []
        for how, es in out.items():
            if how == "done":
                done += es
            elif how[1] is None:
                done += es
            else:
                for e in es:
                    exits.append((how[1], e[0], e[1]))
        if not done:
            return None
        npc, ns = it.merge(done)
        ns.pop(cell, None)
        return npc, ns

    r = go(src, pos0, st, pc, ck, body)
    return r, exits


def opt_type(it, r):
    for x in leaves(r):
        if x.op == "adt":
            return x.a[0]
    return None


def collect_seq(it, w, st, pc, ck):
    """all elements as a sequence term"""
    if w.op == "it" and w.a[0].op == "si" and w.a[1] is I(0):
        return w.a[0].a[0], pc
    cell = (it.ctx(*ck, "acc"), 0)
    st[cell] = mk("arr")

    def body(v, s, p):
        s[cell] = seq_cat(s[cell], mk("arr", it.snap(s, v)))
        return [("next", p, s)]
    r, ex = drive(it, w, st, pc, ck, body)
    if r is None:
        return None, FALSE
    npc, ns = r
    seq = ns.pop(cell)
    IN.replace(st, ns)
    return seq, npc


def consume(it, w, st, pc, ck, init, step):
    """fold: step(acc, v, st, pc) -> [(kind, acc, pc)]"""
    cell = (it.ctx(*ck, "acc"), 0)
    st[cell] = init

    def body(v, s, p):
        return step(cell, v, s, p)
    r, ex = drive(it, w, st, pc, ck, body)
    return cell, r, ex


def finish(st, ns):
    IN.replace(st, ns)


@model("std::iter::Iterator::collect", "itertools::Itertools::collect_vec", "std::iter::FromIterator::from_iter")
def m_collect(it, f, args, st, pc, ck, dty):
    if f.crate in ("ssbh_lib", "ssbh_data", "ssbh_write"):
        return None
    w = as_it(it, st, it.snap(st, args[0]) if args[0].op == "ptr" else args[0])
    if w.op != "it":
        return None
    ti = rty(it, f, dty)
    d = it.p.types[ti]
    path = d.get("path", "")
    if d["k"] == "struct" and d.get("crate") in ("ssbh_lib", "ssbh_data", "ssbh_write"):
        if f.name == "from_iter":
            return None
        # user FromIterator: find it
        for g in it.p.fns:
            if g.name == "from_iter" and g.self_ty == ti and g.blocks and g.crate == d["crate"]:
                return it.call_fn(g, g.path, args, st, pc, ck + ("fi",), dty)
        return None
    if path.endswith("Result") or path.endswith("Option"):
        isr = path.endswith("Result")
        okv = 0 if isr else 1
        cell = (it.ctx(*ck, "acc"), 0)
        st[cell] = mk("arr")
        ety = [None]

        def body(v, s, p):
            v = it.con(v, p)
            t = opt_type(it, v)
            if t is None:
                t = res_type(it, f, isr)
            ety[0] = t
            c = it.con(test(it.discr(v, t), okv), p)
            out = []
            if c is not TRUE:
                e = it.proj_f(v, 1, 0, t) if isr else None
                out.append((("exit", e if e is not None else UNIT), AND(p, NOT(c)), dict(s)))
            if c is not FALSE:
                x = it.proj_f(v, okv, 0, t)
                s[cell] = seq_cat(s[cell], mk("arr", it.snap(s, x)))
                out.append(("next", AND(p, c), s))
            return out
        r, ex = drive(it, w, st, pc, ck, body)
        rs = []
        if r is not None:
            npc, ns = r
            seq = wrap_coll(it, targ(it, ti), ns.pop(cell))
            ns[("tmp", 0)] = mk("adt", ti, okv, seq)
            rs.append((npc, ns))
        for e, epc, est in ex:
            est[("tmp", 0)] = mk("adt", ti, 1, e) if isr else none(ti)
            est.pop(cell, None)
            rs.append((epc, est))
        if not rs:
            return None, FALSE
        npc, ns = it.merge(rs)
        v = ns.pop(("tmp", 0))
        finish(st, ns)
        return v, npc
    seq, npc = collect_seq(it, w, st, pc, ck + ("c",))
    if seq is None:
        return None, FALSE
    return wrap_coll(it, ti, seq), npc


def res_type(it, f, isr):
    # the item type of the iterator: from the adapter's declared types is not available; use a generic one
    for i, d in enumerate(it.p.types):
        if d and d["k"] == "enum" and d["path"].endswith("::Result" if isr else "::Option"):
            return i


def wrap_coll(it, ti, seq):
    s = it.tname(ti) if ti is not None else "Vec"
    if s.startswith(("std::vec::Vec", "std::boxed::Box<[", "std::string::String")):
        return seq
    if "HashMap" in s or "HashSet" in s:
        return mk("hashof", seq)
    if "BTree" in s:
        return mk("btreeof", seq)
    return mk("collected", s.split("<")[0], seq)


@model("std::iter::Iterator::sum", "std::iter::Iterator::product")
def m_sum(it, f, args, st, pc, ck, dty):
    w = as_it(it, st, args[0])
    if w.op != "it":
        return None
    t = it.tname(rty(it, f, dty))
    if t not in INT_RANGE and t not in FLOATS:
        return None
    isint = t in INT_RANGE
    o = "Add" if f.name == "sum" else "Mul"
    init = (I(0) if o == "Add" else I(1)) if isint else mk("float", "0" if o == "Add" else "1")

    def step(cell, v, s, p):
        v = it.snap(s, v)
        a = s[cell]
        if isint:
            r = it.arith(o, a, v, t)
            c = it.con(NOT(ovf(o, r, a, v, t)), p)
            if c is not TRUE:
                it.obligation(p, "overflow_" + o, c, [a, v])
        else:
            r = it.fbin(o, a, v)
        s[cell] = r
        return [("next", p, s)]
    cell, r, ex = consume(it, w, st, pc, ck, init, step)
    if r is None:
        return None, FALSE
    npc, ns = r
    v = ns.pop(cell)
    finish(st, ns)
    return v, npc


@model("std::iter::Iterator::fold")
def m_fold(it, f, args, st, pc, ck, dty):
    w = as_it(it, st, args[0])
    if w.op != "it":
        return None

    def step(cell, v, s, p):
        r, np = it.apply(args[2], [s[cell], v], s, p, ck + ("f",), None)
        if r is None:
            return []
        s[cell] = r
        return [("next", np, s)]
    cell, r, ex = consume(it, w, st, pc, ck, args[1], step)
    if r is None:
        return None, FALSE
    npc, ns = r
    v = ns.pop(cell)
    finish(st, ns)
    return v, npc


@model("std::iter::Iterator::try_fold", "std::iter::Iterator::try_for_each")
def m_tryfold(it, f, args, st, pc, ck, dty):
    w = as_it(it, st, args[0])
    if w.op != "it":
        return None
    ti = rty(it, f, dty)
    d = it.p.types[ti]
    isr = d["path"].endswith("Result")
    okv = 0 if isr else 1
    feach = f.name == "try_for_each"
    clo = args[1] if feach else args[2]

    def step(cell, v, s, p):
        r, np = it.apply(clo, [v] if feach else [s[cell], v], s, p, ck + ("f",), None)
        if r is None or np is FALSE:
            return []
        r = it.con(r, np)
        c = it.con(test(it.discr(r, ti), okv), np)
        out = []
        if c is not TRUE:
            out.append((("exit", it.proj_f(r, 1, 0, ti) if isr else UNIT), AND(np, NOT(c)), dict(s)))
        if c is not FALSE:
            s[cell] = it.proj_f(r, okv, 0, ti)
            out.append(("next", AND(np, c), s))
        return out
    cell, r, ex = consume(it, w, st, pc, ck, UNIT if feach else args[1], step)
    rs = []
    if r is not None:
        npc, ns = r
        ns[("tmp", 0)] = mk("adt", ti, okv, ns.pop(cell))
        rs.append((npc, ns))
    for e, epc, est in ex:
        est[("tmp", 0)] = mk("adt", ti, 1, e) if isr else none(ti)
        est.pop(cell, None)
        rs.append((epc, est))
    if not rs:
        return None, FALSE
    npc, ns = it.merge(rs)
    v = ns.pop(("tmp", 0))
    finish(st, ns)
    return v, npc


@model("std::iter::Iterator::for_each")
def m_foreach(it, f, args, st, pc, ck, dty):
    w = as_it(it, st, args[0])
    if w.op != "it":
        return None

    def step(cell, v, s, p):
        r, np = it.apply(args[1], [v], s, p, ck + ("f",), None)
        return [] if r is None else [("next", np, s)]
    cell, r, ex = consume(it, w, st, pc, ck, UNIT, step)
    if r is None:
        return None, FALSE
    npc, ns = r
    ns.pop(cell, None)
    finish(st, ns)
    return UNIT, npc


@model("std::iter::Iterator::all", "std::iter::Iterator::any")
def m_all(it, f, args, st, pc, ck, dty):
    w = as_it(it, st, args[0] if args[0].op != "ptr" else it.load(st, args[0]))
    if w.op != "it":
        return None
    w2 = mk_it(mk("imap", w.a[0], args[1]))
    seq, npc = collect_seq(it, w2, st, pc, ck + ("c",))
    if seq is None:
        return None, FALSE
    isall = f.name == "all"
    if seq.op == "arr":
        r = TRUE if isall else FALSE
        for x in seq.a:
            r = AND(r, asbool(x)) if isall else OR(r, asbool(x))
        return r, npc
    if seq.op == "comp":
        b = asbool(seq.a[1])
        if b is TRUE and isall:
            return TRUE, npc
        if b is FALSE and not isall:
            return FALSE, npc
        a = boolnode(mk("forall", seq.a[0], b if isall else NOT(b), seq.a[2]))
        return (a if isall else NOT(a)), npc
    a = boolnode(mk(f.name, seq))
    return a, npc


@model("std::iter::Iterator::find", "std::iter::Iterator::position", "std::iter::Iterator::find_map", "std::iter::Iterator::max_by",
       "std::iter::Iterator::min_by", "std::iter::Iterator::max_by_key", "std::iter::Iterator::min_by_key", "std::iter::Iterator::max",
       "std::iter::Iterator::min", "std::iter::Iterator::reduce", "std::iter::Iterator::last", "std::iter::Iterator::count",
       "std::iter::Iterator::nth", "itertools::Itertools::all_equal", "std::iter::Iterator::rposition", "std::iter::Iterator::eq",
       "std::iter::Iterator::partition", "itertools::Itertools::counts", "std::iter::Iterator::rfind", "itertools::Itertools::all_unique",
       "itertools::Itertools::minmax", "itertools::Itertools::join")
def m_search(it, f, args, st, pc, ck, dty):
    w = as_it(it, st, args[0] if args[0].op != "ptr" else it.load(st, args[0]))
    if w.op != "it":
        return None
    ti = rty(it, f, dty)
    seq, npc = collect_seq(it, w, st, pc, ck + ("c",))
    if seq is None:
        return None, FALSE
    n = seq_len(seq)
    if f.name == "count":
        return n, npc
    extra = []
    for a in args[1:]:
        if a.op in ("clo", "fn"):
            # the predicate / key as a function of a bound element
            k = 1 + max(IN.max_bv(seq), 0)
            b = mk("bvx", k)
            d = it.p.types[a.a[0]] if a.op == "clo" else None
            g = it.p.fns[d["inst"]] if d else (it.p.fns[a.a[0]] if isinstance(a.a[0], int) else None)
            na = (g.argc - 1) if d else (g.argc or 1)
            xs = [mk("bvx", k + j) for j in range(na)]
            s2 = dict(st)
            v, _ = it.apply(a, xs, s2, npc, ck + ("p",), None)
            extra.append(v if v is not None else BOT)
        else:
            extra.append(it.snap(st, a))
    r = mk("it_" + f.name, seq, *extra)
    d = it.p.types[ti] if ti is not None else {"k": "?"}
    if d["k"] == "prim" and d["s"] == "bool":
        return boolnode(r), npc
    if f.name in ("max", "min", "reduce", "last", "max_by", "min_by", "max_by_key", "min_by_key") and d["k"] == "enum":
        x = mk("fld", r, "Some.0")
        it.note_range(x, it.peel(targ(it, ti)))
        if seq.op == "arr" and len(seq.a) == 0:
            return none(ti), npc
        return ite(eq(n, I(0)), none(ti), some(ti, x)), npc
    if f.name == "position" and d["k"] == "enum":
        x = mk("fld", r, "Some.0")
        TM.RANGE.setdefault(x, (0, (1 << 62)))
        TM_POS[x] = n
    return r, npc


TM_POS = {}


@model("std::iter::Iterator::unzip")
def m_unzip(it, f, args, st, pc, ck, dty):
    w = as_it(it, st, args[0])
    if w.op != "it":
        return None
    ti = rty(it, f, dty)
    seq, npc = collect_seq(it, w, st, pc, ck + ("c",))
    if seq is None:
        return None, FALSE
    outs = []
    for j in (0, 1):
        if seq.op == "arr":
            outs.append(mk("arr", *[it.proj_f(x, None, j, None) for x in seq.a]))
        elif seq.op == "comp":
            outs.append(re_comp(it, seq, lambda b: it.proj_f(b, None, j, None)))
        else:
            outs.append(mk("unzip", seq, j))
    return mk("tup", *outs), npc


def re_comp(it, seq, fn):
    ix = mk("sym", "recomp", seq.id)
    TM.RANGE.setdefault(ix, (0, 1 << 62))
    return mk_comp(seq.a[0], fn(subst(seq.a[1], {mk("bv", seq.a[2]): ix})), ix)


@model("std::iter::Extend::extend")
def m_extend(it, f, args, st, pc, ck, dty):
    w = as_it(it, st, it.snap(st, args[1]) if args[1].op == "ptr" else args[1])
    s = it.tname(f.self_ty) if f.self_ty is not None else "std::vec::Vec"
    if w.op != "it":
        return None
    seq, npc = collect_seq(it, w, st, pc, ck + ("c",))
    if seq is None:
        return None, FALSE
    old = it.load(st, args[0])
    it.store(st, args[0], seq_cat(old, seq) if s.startswith(("std::vec::Vec", "std::string")) else mk("extended", old, seq))
    return UNIT, npc


# ------------------------------------------------------------- io
def rd_state(it, st, p, pc=TRUE):
    """(object pointer, source, position, setter) of a reader/writer object"""
    p = obj(it, st, p)
    v = it.load(st, p) if p.op == "ptr" else p
    if v.op in ("g", "rd", "wr", "adt"):
        v = IN.constrain_deep(v, pc)
    if v.op in ("rd", "wr"):
        def setp(st2, pos, src=None):
            it.store(st2, p, mk(v.op, src if src is not None else v.a[0], pos))
        return p, v.a[0], v.a[1], setp, v
    if v.op == "adt" and it.p.types[v.a[0]]["path"].endswith("Cursor"):
        def setp(st2, pos, src=None):
            w = it.load(st2, p)
            it.store(st2, p, mk("adt", v.a[0], v.a[1], src if src is not None else w.a[2], pos))
        inner = v.a[2]
        if inner.op == "ptr":
            inner = it.load(st, inner)
        return p, inner, v.a[3], setp, v
    return p, None, None, None, v


READ_EXACT_LEN_DOC = "a reader that runs out of bytes returns an error, so the success path reads exactly n bytes"


@model("std::io::Seek::stream_position", "std::io::Cursor::<T>::position")
def m_pos(it, f, args, st, pc, ck, dty):
    p, src, pos, setp, v = rd_state(it, st, args[0], pc)
    if src is None:
        return it.opaque_call(f.path, f, args, st, pc, dty)
    it.ev.append(Ev(pc, "pos", (src, pos), it.site))
    if f.name == "position":
        return pos, pc
    return ok(rty(it, f, dty), pos), pc


@model("std::io::Seek::seek", "std::io::Seek::rewind", "std::io::Seek::seek_relative", "std::io::Cursor::<T>::set_position")
def m_seek(it, f, args, st, pc, ck, dty):
    p, src, pos, setp, v = rd_state(it, st, args[0], pc)
    if src is None:
        return it.opaque_call(f.path, f, args, st, pc, dty)
    ti = rty(it, f, dty)
    if f.name == "rewind":
        new = I(0)
    elif f.name == "set_position":
        new = args[1]
    elif f.name == "seek_relative":
        new = add(pos, args[1])
    else:
        def leaf(x):
            if x.op == "adt":
                n = it.p.types[x.a[0]]["variants"][x.a[1]]["n"]
                if n == "Start":
                    return x.a[2]
                if n == "Current":
                    return add(pos, x.a[2])
                return add(mk("end", src), x.a[2])
            return mk("seekpos", x)
        new = dist1(leaf, it.con(args[1], pc))
    it.ev.append(Ev(pc, "seek", (src, new, pos), it.site))
    setp(st, new)
    if f.name == "set_position":
        return UNIT, pc
    return ok(ti, UNIT if f.name != "seek" else new), pc


def do_read(it, st, a, n, pc, what):
    p, src, pos, setp, v = rd_state(it, st, a, pc)
    if src is None:
        return None
    it.ev.append(Ev(pc, "read", (src, pos, n, what), it.site))
    setp(st, add(pos, n))
    return mk("rdb", src, pos, n)


@model("std::io::Read::read_exact")
def m_readexact(it, f, args, st, pc, ck, dty):
    buf = args[1]
    n = seq_len(it.load(st, buf))
    r = do_read(it, st, args[0], n, pc, "bytes")
    if r is None:
        return it.opaque_call(f.path, f, args, st, pc, dty)
    it.store(st, buf, r)
    return ok(rty(it, f, dty), UNIT), pc


@model("std::io::Read::take")
def m_iotake(it, f, args, st, pc, ck, dty):
    return mk("iotake", args[0], args[1]), pc


@model("std::io::Read::read_to_end")
def m_readtoend(it, f, args, st, pc, ck, dty):
    a = args[0]
    r = a
    lim = None
    ti = rty(it, f, dty)
    while r.op == "ptr":
        r = it.load(st, r)
    if r.op == "iotake":
        lim = r.a[1]
        a = r.a[0]
    p, src, pos, setp, v = rd_state(it, st, a, pc)
    if src is None:
        return it.opaque_call(f.path, f, args, st, pc, dty)
    n = mk("avail", src, pos, lim) if lim is not None else mk("avail", src, pos)
    TM.RANGE.setdefault(n, (0, 1 << 62))
    it.ev.append(Ev(pc, "read", (src, pos, n, "upto"), it.site))
    setp(st, add(pos, n))
    old = it.load(st, args[1])
    it.store(st, args[1], seq_cat(old, mk("rdb", src, pos, n)))
    return ok(ti, n), pc


@model("std::io::Write::write_all", "std::io::Write::write")
def m_writeall(it, f, args, st, pc, ck, dty):
    p, src, pos, setp, v = rd_state(it, st, args[0], pc)
    data = val(it, st, args[1])
    n = seq_len(data)
    if src is None:
        o = it.load(st, p) if p.op == "ptr" else p
        if p.op == "ptr" and it.sink(st, p):
            # a plain byte vector used as a writer
            it.store(st, p, seq_cat(o, data))
            return ok(rty(it, f, dty), UNIT if f.name == "write_all" else n), pc
        it.ev.append(Ev(pc, "write", (o, mk("sym", "?"), n, data), it.site))
        return ok(rty(it, f, dty), UNIT if f.name == "write_all" else n), pc
    it.ev.append(Ev(pc, "write", (src, pos, n, data), it.site))
    npos = add(pos, n)
    if v.op == "adt":
        setp(st, npos, mk("wrote", src, pos, data))
    else:
        setp(st, npos)
    return ok(rty(it, f, dty), UNIT if f.name == "write_all" else n), pc


@model("std::io::Write::flush")
def m_flush(it, f, args, st, pc, ck, dty):
    return ok(rty(it, f, dty), UNIT), pc


@model("std::io::Cursor::<T>::new")
def m_curnew(it, f, args, st, pc, ck, dty):
    return mk("adt", rty(it, f, dty), 0, args[0], I(0)), pc


@model("std::io::Cursor::<T>::into_inner", "std::io::Cursor::<T>::get_ref")
def m_curinner(it, f, args, st, pc, ck, dty):
    v = val(it, st, args[0])
    return (v.a[2] if v.op == "adt" else mk("written", v.a[0]) if v.op == "wr" else mk("fld", v, "inner")), pc


@model("std::io::Cursor::<T>::get_mut")
def m_curmut(it, f, args, st, pc, ck, dty):
    p = obj(it, st, args[0])
    v = it.load(st, p)
    if p.op != "ptr" or v.op != "adt":
        return None
    return it.ptr_step(p, ("f", -1, 0, "inner", v.a[0])), pc


# ------------------------------------------------------------- binrw
@model_rx(r"^binrw::error::ContextExt::with_context$|with_context$")
def m_ctx(it, f, args, st, pc, ck, dty):
    return args[0], pc


@model_rx(r"^binrw::__private::restore_position$")
def m_restore(it, f, args, st, pc, ck, dty):
    return mk("sym", "restore_position"), pc


@model_rx(r"^binrw::__private::restore_position_variant$")
def m_restorev(it, f, args, st, pc, ck, dty):
    p, src, pos, setp, v = rd_state(it, st, args[0], pc)
    if src is not None:
        it.ev.append(Ev(pc, "seek", (src, args[1], pos), it.site))
        setp(st, args[1])
    return ok(rty(it, f, dty), args[2]), pc


def prim_read(it, st, a, t, pc, endian):
    p, src, pos, setp, v = rd_state(it, st, a, pc)
    if src is None:
        return None
    n = PRIM_SIZE[t]
    it.ev.append(Ev(pc, "read", (src, pos, I(n), t, endian), it.site))
    setp(st, add(pos, I(n)))
    if ("rdT", t) in IN.PINS:
        return I(IN.PINS["rdT", t])
    r = mk("rdT", t, src, pos)
    if t in INT_RANGE:
        TM.RANGE.setdefault(r, INT_RANGE[t])
    return r


def endian_name(it, e):
    if e.op == "adt":
        return it.p.types[e.a[0]]["variants"][e.a[1]]["n"]
    if e.op == "g":
        return "/".join(sorted({endian_name(it, x) for x in leaves(e)}))
    return "endian"


@model("binrw::binread::BinRead::read_options")
def m_binread(it, f, args, st, pc, ck, dty):
    if f.crate in ("ssbh_lib", "ssbh_data", "ssbh_write"):
        return None
    ti = f.self_ty if f.self_ty is not None else f.targs[0]
    d = it.p.types[ti]
    out = rty(it, f, dty)
    if d["k"] == "prim" and d["s"] in PRIM_SIZE:
        r = prim_read(it, st, args[0], d["s"], pc, endian_name(it, args[1]))
        if r is None:
            return None
        return ok(out, r), pc
    if d["k"] == "struct" and d["path"] == "std::num::NonZero":
        r = prim_read(it, st, args[0], it.tname(d["args"][0]), pc, endian_name(it, args[1]))
        if r is None:
            return None
        c = NOT(eq(r, I(0)))
        return ite(c, ok(out, mk("adt", ti, 0, r)), err(out, mk("sym", "zero"))), pc
    if d["k"] == "struct" and d["path"].endswith("PhantomData") or d["k"] == "tuple" and not d["fs"]:
        return ok(out, mk("adt", ti, 0) if d["k"] == "struct" else UNIT), pc
    if d["k"] == "array":
        n = I(int(d["len"]))
        return read_many(it, f, args, st, pc, ck, out, d["of"], n, args[2] if len(args) > 2 else UNIT)
    if d["k"] == "struct" and d["path"].endswith("vec::Vec"):
        a = args[2]
        # VecArgs { count, inner }
        cnt = a.a[2] if a.op == "adt" else mk("fld", a, "count")
        inner = a.a[3] if a.op == "adt" and len(a.a) > 3 else UNIT
        it.ev.append(Ev(pc, "alloc", ("binrw_vec", cnt, d["s"]), it.site))
        return read_many(it, f, args, st, pc, ck, out, d["args"][0], cnt, inner)
    return None


def reader_fn(it, elem_ti, f):
    key = ("rf", elem_ti, tuple(f.targs[-1:]))
    m = it.p.__dict__.setdefault("_rf", {})
    if not m:
        for g in it.p.fns:
            if g.name == "read_options" and g.trait and g.trait.endswith("BinRead"):
                m.setdefault((g.self_ty if g.self_ty is not None else g.targs[0], g.targs[-1]), g)
    return m.get((elem_ti, f.targs[-1]))


def read_many(it, f, args, st, pc, ck, out, elem_ti, n, inner):
    g = reader_fn(it, elem_ti, f)
    if g is None:
        return None
    cell = (it.ctx(*ck, "vec"), 0)
    st[cell] = mk("arr")
    w = mk_it(mk("rangei", I(0), n))

    def body(v, s, p):
        r, np = it.call_fn(g, "binrw::binread::BinRead::read_options", [args[0], args[1], inner], s, p, ck + ("el",), None)
        if r is None:
            return []
        r = it.con(r, np)
        t = opt_type(it, r)
        c = it.con(test(it.discr(r, t), 0), np)
        outs = []
        if c is not TRUE:
            outs.append((("exit", it.proj_f(r, 1, 0, t)), AND(np, NOT(c)), dict(s)))
        if c is not FALSE:
            s[cell] = seq_cat(s[cell], mk("arr", it.proj_f(r, 0, 0, t)))
            outs.append(("next", AND(np, c), s))
        return outs
    r, ex = drive(it, w, st, pc, ck, body)
    rs = []
    if r is not None:
        npc, ns = r
        ns[("tmp", 0)] = ok(out, ns.pop(cell))
        rs.append((npc, ns))
    for e, epc, est in ex:
        est[("tmp", 0)] = err(out, e)
        est.pop(cell, None)
        rs.append((epc, est))
    if not rs:
        return None, FALSE
    npc, ns = it.merge(rs)
    v = ns.pop(("tmp", 0))
    finish(st, ns)
    return v, npc


@model("binrw::helpers::until_eof")
def m_untileof(it, f, args, st, pc, ck, dty):
    p, src, pos, setp, v = rd_state(it, st, args[0], pc)
    if src is None:
        return None
    n = mk("avail", src, pos)
    el = it.p.types[targ(it, rty(it, f, dty))]
    it.ev.append(Ev(pc, "until_eof", (src, pos, el["s"]), it.site))
    setp(st, mk("end", src))
    return ok(rty(it, f, dty), mk("rdeof", el["s"], src, pos)), pc


@model("binrw::__private::parse_fn_type_hint", "binrw::__private::write_fn_type_hint", "binrw::__private::map_reader_type_hint", "binrw::__private::parse_function_args_type_hint",
       "binrw::__private::coerce_fn")
def m_hint(it, f, args, st, pc, ck, dty):
    return args[0], pc


@model_rx(r"^binrw::binwrite::BinWrite::write_options$")
def m_binwrite(it, f, args, st, pc, ck, dty):
    ti = f.self_ty if f.self_ty is not None else f.targs[0]
    d = it.p.types[it.peel(ti)]
    out = rty(it, f, dty)
    if d["k"] == "prim" and d["s"] in PRIM_SIZE:
        p, src, pos, setp, v = rd_state(it, st, args[1], pc)
        if src is None:
            return None
        e = endian_name(it, args[2])
        data = mk("lebytes" if e == "Little" else "bebytes" if e == "Big" else "anybytes", val(it, st, args[0]), PRIM_SIZE[d["s"]], d["s"])
        n = I(PRIM_SIZE[d["s"]])
        it.ev.append(Ev(pc, "write", (src, pos, n, data), it.site))
        if v.op == "adt":
            setp(st, add(pos, n), mk("wrote", src, pos, data))
        else:
            setp(st, add(pos, n))
        return ok(out, UNIT), pc
    return None


# ------------------------------------------------------------- maps (kept abstract, but functional)
@model_rx(r"HashMap::<K, V>::new|HashMap::<K, V, S>::new|HashSet::<T>::new|BTreeMap::<K, V>::new|AHashMap::<K, V>::with_capacity|AHashSet::<T>::new|AHashMap::<K, V>::new|HashMap::<K, V>::with_capacity")
def m_mapnew(it, f, args, st, pc, ck, dty):
    return mk("emptymap", "btree" if "BTree" in f.path else "hash"), pc


@model_rx(r"(HashMap|HashSet|BTreeMap|BTreeSet)::<.*>::(insert)$")
def m_mapins(it, f, args, st, pc, ck, dty):
    m = it.load(st, args[0])
    vs = [it.snap(st, a) for a in args[1:]]
    it.store(st, args[0], mk("minsert", m, *vs))
    ti = rty(it, f, dty)
    if it.tname(ti) == "bool":
        return NOT(boolnode(mk("contains", m, vs[0]))), pc
    return mk("call", "map_insert", m, *vs), pc


# ------------------------------------------------------------- alignment of opaque external helpers
def base_interp(prog, hook=None, **kw):
    it = IN.Interp(prog, Models(), hook, **kw)
    return it


IN.Interp.inline_clone = lambda self, f: False


def _sink(self, st, p):
    v = self.load(st, p)
    return v.op in ("arr", "cat", "comp", "rdb", "lebytes", "flat")


IN.Interp.sink = _sink
