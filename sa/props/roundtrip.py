"""Editable data -> file -> editable data gives the data back: shared by the per-format checks."""
import re
import conv
import interp as IN
import refute
import seqs
import models as M
import terms as TM
from props.c06 import KINDS, parallel
from terms import *

VERSION = {"hlpb": (1, 1), "modl": (1, 7)}      # one version, always written (C09)
LIMIT = 32767                                   # numbers up to here fit every on-disk field
SUMLIMIT = (1 << 32) - 1

PLAIN = {"fld", "elem", "idx", "len", "sym", "int", "lin", "discr", "adt", "tup", "arr", "text", "sstr", "str", "float", "g", "le0", "eq", "cast", "hastext", "isv", "lx", "deref"}


def plain(*ts):
    """are the terms built from parts of the input alone (so that two of them that differ really differ)?"""
    for t in ts:
        for x in subterms(t):
            if x.op not in PLAIN:
                return x
    return None


def job(p, k):
    TM.COUNT_MAX = (1 << 32) - 1
    IN.CLOSE_OTHERS = True
    T = KINDS[k]
    c = conv.Conv(p)
    f1 = c.one(rf"From<&ssbh_data::{k}_data::{T}Data> for .*::{T}>::(try_)?from$")
    f2 = c.one(rf"^<ssbh_data::{k}_data::{T}Data as std::convert::(Try)?From<ssbh_lib::prelude::{T}>>::(try_)?from$")
    x = sym("x")
    out = {"fns": [f1.full, f2.full], "viol": [], "unk": [], "n": 0}
    it0 = M.base_interp(p)
    ti = it0.peel(f1.locals[1])
    pre = TRUE
    if k in VERSION:
        fs = p.types[ti]["variants"][0]["f"]
        for nm, val in zip(("major_version", "minor_version"), VERSION[k]):
            i = [q[0] for q in fs].index(nm)
            pre = AND(pre, eq(it0.proj_f(x, None, i, ti, fs[i][1]), I(val)))
    v, ok, it1, er = c.run(f1, [x])
    if v is None or ok is FALSE:
        out["viol"].append([f"{k}: data to file always fails", f1.full, "no data can be converted"])
        return out
    w, ok2, it2, er2 = c.run(f2, [v])
    if w is None or ok2 is FALSE:
        out["viol"].append([f"{k}: file to data always fails", f2.full, "no converted file can be converted back"])
        return out
    for it in (it1, it2):
        out["unk"] += [f"{k}: {str(n)[:200]}" for n in it.notes[:4]]
    pc = AND(pre, ok)
    S = conv.Same(it2, loops=(it1,), okc=pc)
    S.eq(w, x, ti, pc=pc)
    out["n"] = S.n
    if S.diffs:
        settle(out, k, f"{k}: data changed", f1.full + " / " + f2.full, "data after the round trip", S.diffs,
               lambda: refute.refute(p, x, ti, w, x, ti, AND(pc, ok2), (it1, it2), versions=versions(k), shape=acyclic if k == "skel" else None))
    # what the file holds besides
    D = conv.Same(it1, loops=(it1,), okc=pc)
    for what, got, want, tt in contents(k, it1, v, x, ti, pc):
        D.eq(got, want, tt, what, pc)
    out["n"] += D.n
    if D.diffs:
        settle(out, k, f"{k}: file content", f1.full, "file", D.diffs,
               lambda: next((r for what, got, want, tt in contents(k, it1, v, x, ti, pc)
                             for r in [refute.refute(p, x, ti, got, want, tt, pc, (it1,), versions=versions(k), shape=acyclic if k == "skel" else None)] if r), None))
    # taking the value or a reference makes no difference
    for f, arg, ref, name in ((f1, x, v, rf"From<ssbh_data::{k}_data::{T}Data> for .*::{T}>::(try_)?from$"),
                              (f2, v, w, rf"^<ssbh_data::{k}_data::{T}Data as std::convert::(Try)?From<&ssbh_lib::prelude::{T}>>::(try_)?from$")):
        out["n"] += 1
        try:
            g = c.one(name)
        except LookupError:
            out["unk"].append(f"{k}: no function {name}")
            continue
        out["fns"].append(g.full)
        if delegates(p, c, f, g) or delegates(p, c, g, f):
            continue
        u, oku, itu, _ = c.run(g, [arg])
        okf = ok if f is f1 else ok2
        if u is ref and same_ok(oku, okf):
            continue
        lu, lf = loops_of(oku), loops_of(okf)
        if len(lu) == len(lf) and u is not None:
            u = subst(u, dict(zip(lu, lf)))
        R = conv.Same(itu, loops=(it1,), okc=pc)
        R.eq(u if u is not None else BOT, ref, itu.peel(f.locals[0]) if not p.types[f.locals[0]].get("path", "").endswith("Result") else p.types[f.locals[0]]["args"][0], pc=pc)
        if not R.diffs and same_ok(oku, okf):
            continue
        d = R.diffs[0] if R.diffs else ("", oku, okf, "success", TRUE)
        what = f"{g.full}: differs from the conversion of a reference at {d[0]}: {show(d[1])[:150]} instead of {show(d[2])[:100]}"
        (out["unk"].append(f"{k}: not decided: {what}") if plain(*d[1:3], d[4]) is not None or out["unk"] or itu.notes else out["viol"].append([f"{k}: owned and borrowed conversions differ", g.full, what]))
    # the way back succeeds
    out["n"] += 1
    z = ok2 if ok2 is TRUE else S.never_fails(it2, ok2)
    z = constrain(z, pc)
    if z is not TRUE and AND(pc, NOT(z)) is not FALSE:
        bad = plain(z)
        (out["unk"].append(f"{k}: way back not shown to succeed: {show(z)[:200]}") if bad is not None or z.op == "g" else
         out["viol"].append([f"{k}: way back fails", f2.full, f"a file made from data is rejected: {show(z)[:200]}"]))
    # the way there fails for unsupported versions and numbers too large for the file only
    out["n"] += 1
    S0 = conv.Same(it1, loops=(), okc=pre)
    S0.okc = TRUE
    # a walk along the parents may find a cycle, which is rejected
    z = S0.never_fails(it1, ok, assume=(lambda c: no_walk(small(c))) if k == "skel" else small)
    z2 = drop_versions(z, it0, p, x, ti)
    if z2 is not TRUE:
        bad = plain(z2)
        if z2 is FALSE or bad is None and not any(q.op == "lx" for q in subterms(z2)):
            out["viol"].append([f"{k}: valid data rejected", f1.full, f"data is converted only when {show(z2)[:300]}"])
        else:
            out["unk"].append(f"{k}: conditions of the conversion: {show(z2)[:300]}")
    return out


def versions(k):
    from props.c09 import VERS
    return (VERSION[k],) if k in VERSION else tuple(VERS.get(KINDS[k], ()))


def settle(out, k, key, where, what, diffs, confirm):
    """differences that could not be explained: a violation when an input confirms one"""
    r = confirm()
    if r:
        place = re.sub(r"\[\d+\]", "[i]", r[0])
        out["viol"].append([f"{key}: {place or 'value'}", where, f"{what}: {r[0] or 'value'} is {r[1]} instead of {r[2]} for some input"])
        return
    for path, a, b, why, cnd in diffs[:6]:
        out["unk"].append(f"{k}: not decided: {what}{path}: {why + ' ' if why else ''}{show(a)[:140]} instead of {show(b)[:120]}")


def delegates(p, c, a, b):
    """does a do nothing but call b with its argument"""
    R = sym("result of the other")

    def hook(it, f, d, args, st, pc, ck, dty):
        if f is b:
            return (R, pc) if M.val(it, st, args[0]) is sym("x") else None
        return conv.str_hook(it, f, d, args, st, pc, ck, dty)
    it = M.base_interp(p, hook)
    v, pc = it.run(a, [sym("x")], {})
    return v is R and pc is TRUE


def loops_of(t):
    return sorted({x for x in subterms(t) if x.op == "lx"}, key=lambda z: z.a[0] if isinstance(z.a[0], int) else 0)


def same_ok(a, b):
    """the same condition up to the names of loops"""
    def canon(t):
        return subst(t, {k: mk("lx", ("n", j)) for j, k in enumerate(loops_of(t))})
    return a is b or canon(a) is canon(b)


def part(it, t, ti, *names):
    """walk named fields (`Variant.field` in enums); -> (term, type)"""
    for nm in names:
        d = it.p.types[ti]
        while d["k"] in ("ref", "ptr") or d["k"] == "struct" and d["path"].endswith("boxed::Box"):
            ti = d["to"] if d["k"] in ("ref", "ptr") else d["args"][0]
            d = it.p.types[ti]
        vi = None
        if d["k"] == "enum":
            vn, nm = nm.split(".")
            vi = [v["n"] for v in d["variants"]].index(vn)
        fs = d["variants"][vi or 0]["f"]
        i = [f[0] for f in fs].index(nm)
        t, ti = it.proj_f(t, vi, i, ti, fs[i][1]), fs[i][1]
    return t, ti


def comp(n, f):
    i = mk("idx", ("expected",))
    return IN.mk_comp(n, f(i), i)


def flat(n, f):
    i = mk("idx", ("expected2",))
    k, (b,) = IN.close(i, f(i))
    return mk("flat", n, b, k)


def element(p, ti):
    return p.types[ti]["args"][0]


def unit_variant(p, ti, name):
    vi = [v["n"] for v in p.types[ti]["variants"]].index(name)
    return mk("adt", ti, vi)


def contents(k, it, v, x, ti, pc):
    """fields of the file that are not simply copied: (name, value, expected value, type)"""
    p = it.p
    ft = v.a[0] if v.op == "adt" else None
    if ft is None:
        return
    ln = IN.seq_len
    if k == "hlpb":
        A, _ = part(it, x, ti, "aim_constraints")
        O, _ = part(it, x, ti, "orient_constraints")
        t, tt = part(it, v, ft, "V11.constraint_indices", "elements")
        yield "constraint_indices", t, IN.seq_cat(comp(ln(A), lambda i: i), comp(ln(O), lambda i: i)), tt
        t, tt = part(it, v, ft, "V11.constraint_types", "elements")
        ct = element(p, tt)
        yield "constraint_types", t, IN.seq_cat(comp(ln(A), lambda i: unit_variant(p, ct, "Aim")), comp(ln(O), lambda i: unit_variant(p, ct, "Orient"))), tt
        t, tt = part(it, v, ft, "V11.aim_constraints", "elements")
        yield "aim_constraints.len", ln(t), ln(A), None
        i = mk("idx", ("same", 0))
        for n in range(17, 23):
            u, ut = part(it, IN.seq_elem(t, i), element(p, tt), f"unk{n}")
            yield f"aim_constraints[i].unk{n}", u, mk("float", *ZERO), ut
    elif k == "adj":
        E, et = part(it, x, ti, "entries")
        adjacency = lambda i: part(it, IN.seq_elem(E, i), element(p, et), "vertex_adjacency")[0]
        t, tt = part(it, v, ft, "index_buffer")
        yield "index_buffer", t, flat(ln(E), adjacency), tt
        t, tt = part(it, v, ft, "entries")
        yield "entries.len", ln(t), ln(E), None
        i = mk("idx", ("same", 0))
        j = mk("idx", ("expected",))
        kk, (b,) = IN.close(j, scale(ln(adjacency(j)), 2))
        u, ut = part(it, IN.seq_elem(t, i), element(p, tt), "index_buffer_offset")
        yield "entries[i].index_buffer_offset", u, mk("sum", i, b, kk), ut
    elif k == "meshex":
        G, gt = part(it, x, ti, "mesh_object_groups")
        flags = lambda i: part(it, IN.seq_elem(G, i), element(p, gt), "entry_flags")[0]
        t, tt = part(it, v, ft, "entries", "0", "Some.0")
        me = element(p, tt)
        names = [f[0] for f in p.types[me]["variants"][0]["f"]]

        def entry(i):
            u = part(it, v, ft, "entries", "0", "Some.0")
            return i
        got = IN.mk_comp(ln(t), part(it, IN.seq_elem(t, mk("idx", ("g",))), me, "mesh_object_group_index")[0], mk("idx", ("g",)))
        want = flat(ln(G), lambda i: comp(ln(flags(i)), lambda j: i))
        yield "entries[i].mesh_object_group_index", got, want, vec_of(p, "u32")
    elif k == "skel":
        B, bt = part(it, x, ti, "bones")
        t, tt = part(it, v, ft, "V10.bone_entries", "elements")
        yield "bone_entries.len", ln(t), ln(B), None
        i = mk("idx", ("same", 0))
        u, ut = part(it, IN.seq_elem(t, i), element(p, tt), "index")
        yield "bone_entries[i].index", u, i, ut
        for a in ("world_transforms", "inv_world_transforms", "transforms", "inv_transforms"):
            t, tt = part(it, v, ft, "V10." + a, "elements")
            yield a + ".len", ln(t), ln(B), None


ZERO = ("0",)


def vec_of(p, s):
    for i, d in enumerate(p.types):
        if d["k"] == "struct" and d.get("path", "").endswith("vec::Vec") and p.types[d["args"][0]].get("s") == s:
            return i
    return None


def small(c):
    """c when every number of the input that it compares is small enough for its field in the file"""
    saved = dict(TM.RANGE)
    try:
        for t in subterms(c):
            if t.op != "le0":
                continue
            for q in lin_parts(t.a[0])[1]:
                if q.op in ("fld", "elem", "len", "idx"):
                    TM.RANGE[q] = (0, LIMIT)
                elif q.op == "sum":
                    TM.RANGE[q] = (0, SUMLIMIT // 2)
        return seqs.Norm().norm(c)
    finally:
        TM.RANGE.clear()
        TM.RANGE.update(saved)


def no_walk(c):
    for at in {t.a[0] for t in subterms(c) if t.op == "g" and t.a[0].op == "lx"}:
        c = constrain(c, not_vals(at, tuple(v for v, _ in [kv for t in subterms(c) if t.op == "g" and t.a[0] is at for kv in t.a[1]])))
    return c


def acyclic(inp, ti, path):
    """parents of a skeleton without cycles"""
    if path[-1] == "parent_index" and isinstance(path[-2], int):
        vs = [v["n"] for v in inp.p.types[ti]["variants"]]
        r = inp.rnd(path)
        j = r.randrange(-1, path[-2])
        if j < 0:
            return refute.Rec(ti, vs.index("None"), lambda i: None)
        return refute.Rec(ti, vs.index("Some"), lambda i: j)
    return None


def drop_versions(z, it, p, x, ti):
    fs = p.types[ti]["variants"][0]["f"]
    vs = [it.proj_f(x, None, i, ti, f[1]) for i, f in enumerate(fs) if f[0] in ("major_version", "minor_version")]
    if len(vs) < 2:
        return z
    r = FALSE
    from props.c09 import VERS
    T = [q for q in VERS if p.types[ti]["path"].endswith("::" + q + "Data")]
    for a, b in VERS[T[0]] if T else []:
        r = OR(r, constrain(constrain(z, is_val(vs[0], a)), is_val(vs[1], b)))
    return r


def check(ctx, rep, ks):
    p = ctx.prog
    rep.explanation = ("The conversion from editable data to the file type is summarised for a symbolic value; the summary is given to the conversion back, and the "
                       "result is compared with the original value field by field, for a symbolic index in every list. Lists are compared in a normal form of "
                       "concatenations and comprehensions. Both conversions are analysed with everything they call in the workspace.")
    rep.rules = ["each field of the rebuilt data equals the field of the original", "the conversion back succeeds on every file the conversion produced",
                 "the conversion fails only for unsupported versions and for numbers that do not fit the file"]
    rep.assume.add("collections hold fewer than 2^32 elements")
    res = parallel(ks, lambda k: job(p, k), 700)
    n = 0
    for k in ks:
        r = res[k]
        if "missing" in r:
            rep.violation(f"{k}: conversion missing", "", "no function matches " + r["missing"])
            continue
        if "error" in r:
            rep.unknown(f"{k}: {r['error']}")
            n += 1
            continue
        n += 1
        rep.count("comparisons", r["n"])
        for key, where, t in r["viol"]:
            rep.violation(key, where, t)
        for t in r["unk"]:
            rep.unknown(t)
    rep.floor("round_trips", n, len(ks), "round trips")
