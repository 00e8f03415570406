"""C09: format versions: every documented version is read, written and converted as itself, every other version is rejected."""
import re
from props.fileapis import *
from props.layouts import short
from props.c06 import targets
import conv, fmt
import interp as IN
import models as M
from terms import *

VERS = {"Hlpb": {(1, 1): "V11"}, "Matl": {(1, 5): "V15", (1, 6): "V16"}, "Modl": {(1, 7): "V17"}, "Mesh": {(1, 8): "V8", (1, 9): "V9", (1, 10): "V10"},
        "Skel": {(1, 0): "V10"}, "Anim": {(1, 2): "V12", (2, 0): "V20", (2, 1): "V21"}, "Nlst": {(1, 0): "V10"}, "Nrpd": {(1, 6): "V16"},
        "Nufx": {(1, 0): "V0", (1, 1): "V1"}, "Shdr": {(1, 2): "V12"}}

# documented as readable only
READ_ONLY = {("Anim", (1, 2)), ("Matl", (1, 5))}


def pairs(cond, A, B):
    """accepting paths of cond as (major, minor, other conditions)"""
    out = []

    def go(t, a, b, rest):
        if t is FALSE or t is BOT:
            return
        if t is TRUE or t.op != "g":
            out.append((a, b, rest + ([t] if t is not TRUE else [])))
            return
        at, kids, d = t.a
        if at is A or at is B:
            for v, x in kids:
                go(x, v if at is A else a, v if at is B else b, rest)
            go(d, a, b, rest)
            return
        # the remaining diagram no longer depends on the version only through A and B
        if not (occurs(A, t) or occurs(B, t)):
            out.append((a, b, rest + [t]))
            return
        for v, x in kids:
            go(x, a, b, rest + [is_val(at, v)])
        go(d, a, b, rest + [not_vals(at, [v for v, _ in kids])])
    go(cond, None, None, [])
    return out


def at_version(t, A, B, a, b):
    return subst(subst(t, {A: I(a)}), {B: I(b)})


def shallow(keep):
    """conversions of parts that cannot see the version are not entered"""
    def hook(it, f, d, args, st, pc, ck, dty):
        r = conv.str_hook(it, f, d, args, st, pc, ck, dty)
        if r is not None:
            return r
        if f is None or f.crate != "ssbh_data" or f.kind != "item" or f.closure or not f.blocks or not args:
            return None
        for a in args:
            v = it.snap(st, a)
            if keep(v):
                return None
        return it.opaque_call(f.path, f, args, st, pc, dty)
    return hook


def run(ctx, rep):
    p = ctx.prog
    c = fmt.Codec(p)
    rep.explanation = ("The condition under which each format's reader succeeds, the version each value is written with and the version handling of each conversion are "
                       "decision diagrams over the (major, minor) pair; they are compared with the table of documented versions.")
    rep.rules = ["the version pair read from the file selects the variant of that name and no other pair is accepted",
                 "a variant is written with the pair it is read from",
                 "editable data converts to the variant its version pair names, to an error otherwise, and records the pair it was read from"]
    n = nv = nd = 0
    tis = {}
    for ti in c.readers:
        tn = p.tname(ti)
        s = tn.split("::")[-1]
        d = p.types[ti]
        if d["k"] == "enum" and s in VERS and tn.startswith("ssbh_lib::") and len(c.readers[ti].locals) > 3:
            tis[s] = ti
    for s, ti in sorted(tis.items()):
        tn = p.tname(ti)
        d = p.types[ti]
        f = c.readers[ti]
        at = f.locals[3]
        r = c.read_summary(ti)
        if r is None:
            rep.violation(s + ": no reader", tn, "no reader")
            continue
        n += 1
        A = r.it.proj_f(r.args, None, 0, at, p.types[at]["fs"][0])
        B = r.it.proj_f(r.args, None, 1, at, p.types[at]["fs"][1])
        want = VERS[s]
        got = set()
        for a, b, rest in pairs(r.ok, A, B):
            rep.count("obligations", 1)
            if a is None or b is None:
                if r.it.opaque or any(x.op == "g" and (occurs(A, x) or occurs(B, x)) for x in rest):
                    rep.unknown(f"{s}: the version test has another form")
                else:
                    rep.violation(f"{s}: version not tested", tn, f"{s} files are accepted with major version {a if a is not None else 'any'}, minor version {b if b is not None else 'any'}")
            elif (a, b) not in want:
                rep.violation(f"{s}: version {a}.{b} accepted", tn, f"{s} files of version {a}.{b} are accepted")
            else:
                got.add((a, b))
                v = at_version(r.value, A, B, a, b)
                vi = variant(r.it, v, ti)
                if vi is None:
                    rep.unknown(f"{s}: value for {a}.{b}")
                elif d["variants"][vi]["n"] != want[a, b]:
                    rep.violation(f"{s}: version {a}.{b} read as {d['variants'][vi]['n']}", tn, f"version {a}.{b} is read as {d['variants'][vi]['n']}")
        for k in want:
            if k not in got and not any(s + ":" in u for u in rep.undecided):
                rep.violation(f"{s}: version {k[0]}.{k[1]} not accepted", tn, f"{s} files of version {k[0]}.{k[1]} are rejected")
        # the pair written
        for g in p.fns:
            if g.crate == "sa_roots" and g.name == s.lower() + "_version" and g.blocks:
                it = M.base_interp(p)
                x = sym("x")
                v, pc = it.run(g, [x])
                nv += 1
                dx = it.discr(x, ti)
                for k in want:
                    vi = [i for i, q in enumerate(d["variants"]) if q["n"] == want[k]]
                    rep.count("obligations", 1)
                    if not vi:
                        rep.violation(f"{s}: variant {want[k]} missing", tn, f"{s} has no variant {want[k]}")
                        continue
                    w = IN.constrain_deep(v, test(dx, int(d["variants"][vi[0]]["d"])))
                    ma, mi = it.proj_f(w, None, 0, g.locals[0], None), it.proj_f(w, None, 1, g.locals[0], None)
                    if ma is not I(k[0]) or mi is not I(k[1]):
                        if ma.op == "int" and mi.op == "int":
                            rep.violation(f"{s}: {want[k]} written as {show(ma)}.{show(mi)}", tn, f"{s}::{want[k]} is written with version {show(ma)}.{show(mi)}")
                        else:
                            rep.unknown(f"{s}: version written for {want[k]}: {show(w)[:100]}")
    # the pair handed from the file to the format
    nw = 0
    for ti in c.readers:
        tn = p.tname(ti)
        m = re.match(r"ssbh_lib::Versioned<(.*)>$", tn)
        if not m:
            continue
        r = c.read_summary(ti)
        nw += 1
        subs = [e for e in r.it.ev if e.kind == "rsub" and e.d[0] == m.group(1)]
        rep.count("obligations", 1)
        want = (mk("rdT", "u16", sym("R"), sym("P0")), mk("rdT", "u16", sym("R"), add(sym("P0"), I(2))))
        if not subs:
            rep.unknown(f"{tn}: payload not recognised")
            continue
        a = subs[0].d[4]
        g = tuple(a.a) if a.op in ("tup", "tuple") else tuple(x for x in a.a if hasattr(x, "op"))
        if g != want:
            (rep.unknown if r.it.opaque else lambda t: rep.violation(short(tn) + ": version handed on", tn, t))(f"{tn}: the payload is read with version {show(a)[:200]}, not the two numbers at its start")
    # conversions
    cv, ts = targets(p)
    for what, rx in ts:
        m = re.match(r"(\w+): (data to file|file to data)$", what)
        T = {"hlpb": "Hlpb", "modl": "Modl", "matl": "Matl", "skel": "Skel", "mesh": "Mesh", "anim": "Anim"}.get(m.group(1)) if m else None
        if T is None or T not in tis:
            continue
        try:
            f = cv.one(rx)
        except LookupError:
            rep.violation(what + ": missing", "", "conversion not found")
            continue
        try:
            one(ctx, rep, p, cv, f, T, tis[T], m.group(2), what)
            nd += 1
        except Exception as e:
            rep.unknown(f"{what}: {e!r}"[:300])
    rep.floor("formats", n, 10, "versioned formats")
    rep.floor("version_functions", nv, 10, "version functions")
    rep.floor("versioned_payloads", nw, 10, "versioned payloads")
    rep.floor("conversions", nd, 8, "conversions")


def variant(it, v, ti):
    if v.op == "adt" and v.a[0] == ti:
        return v.a[1]
    dx = it.discr(v, ti)
    if dx.op == "int":
        for i, q in enumerate(it.p.types[ti]["variants"]):
            if int(q["d"]) == dx.a[0]:
                return i
    return None


def one(ctx, rep, p, cv, f, T, ti, way, what):
    x = sym("x")
    if way == "data to file":
        dt = p.types[f.locals[1]]
        while dt["k"] == "ref":
            dti = dt["to"]
            dt = p.types[dti]
        fs = dt["variants"][0]["f"]
        idx = {q[0]: i for i, q in enumerate(fs)}
        it0 = M.base_interp(p)
        A = it0.proj_f(x, None, idx["major_version"], dti, fs[idx["major_version"]][1])
        B = it0.proj_f(x, None, idx["minor_version"], dti, fs[idx["minor_version"]][1])
        v, ok, it, er = cv.run(f, [x], hook=shallow(lambda t: t is x or occurs(A, t) or occurs(B, t) or has_whole(t, x)))
        if it.notes:
            rep.unknown(f"{what}: {it.notes[0]}"[:200])
        if not (occurs(A, ok) or occurs(B, ok)):
            # one version only: the data's version numbers are not consulted
            vi = variant(it, v, ti)
            rep.count("obligations", 1)
            # formats with one version may convert without failing; a conversion that can fail has to reject other versions
            if len(VERS[T]) > 1 or p.types[f.locals[0]].get("path", "").endswith("result::Result"):
                if it.opaque and any("try_from" in k or "create" in k for k in it.opaque):
                    rep.unknown(f"{what}: version test not seen")
                else:
                    rep.violation(f"{what}: version not tested", f.full, "data of any version is converted")
            elif vi is None or p.types[ti]["variants"][vi]["n"] != next(iter(VERS[T].values())):
                rep.unknown(f"{what}: variant")
            return
        got = set()
        for a, b, rest in pairs(ok, A, B):
            rep.count("obligations", 1)
            if a is None or b is None:
                rep.violation(f"{what}: version not tested", f.full, f"data is converted with major version {a if a is not None else 'any'}, minor version {b if b is not None else 'any'}")
            elif (a, b) not in VERS[T]:
                rep.violation(f"{what}: version {a}.{b} converted", f.full, f"data of version {a}.{b} is converted instead of rejected")
            else:
                got.add((a, b))
                w = at_version(v, A, B, a, b)
                vi = variant(it, IN.constrain_deep(w, at_version(ok, A, B, a, b)), ti)
                if vi is None:
                    rep.unknown(f"{what}: value for {a}.{b}")
                elif p.types[ti]["variants"][vi]["n"] != VERS[T][a, b]:
                    rep.violation(f"{what}: version {a}.{b} becomes {p.types[ti]['variants'][vi]['n']}", f.full, f"data of version {a}.{b} is converted to {p.types[ti]['variants'][vi]['n']}")
        for k in VERS[T]:
            if k not in got and (T, k) not in READ_ONLY:
                rep.violation(f"{what}: version {k[0]}.{k[1]} rejected", f.full, f"data of version {k[0]}.{k[1]} cannot be converted")
        return
    v, ok, it, er = cv.run(f, [x], hook=shallow(lambda t: t is x or has_whole(t, x)))
    rt = f.locals[0]
    if p.types[rt].get("path", "").endswith("result::Result"):
        rt = p.types[rt]["args"][0]
    fs = p.types[rt]["variants"][0]["f"]
    idx = {q[0]: i for i, q in enumerate(fs)}
    dx = it.discr(x, ti)
    for a, b in VERS[T]:
        vi = [q for q in p.types[ti]["variants"] if q["n"] == VERS[T][a, b]]
        if not vi:
            continue
        c = AND(ok, test(dx, int(vi[0]["d"])))
        rep.count("obligations", 1)
        if c is FALSE:
            rep.violation(f"{what}: {VERS[T][a, b]} never converted", f.full, f"files of version {a}.{b} cannot be converted")
            continue
        w = IN.constrain_deep(v, c)
        ma = it.proj_f(w, None, idx["major_version"], rt, None)
        mi = it.proj_f(w, None, idx["minor_version"], rt, None)
        if ma is not I(a) or mi is not I(b):
            if ma.op == "int" and mi.op == "int":
                rep.violation(f"{what}: {VERS[T][a, b]} recorded as {show(ma)}.{show(mi)}", f.full, f"a file of version {a}.{b} becomes data of version {show(ma)}.{show(mi)}")
            else:
                rep.unknown(f"{what}: recorded version {show(ma)[:60]}.{show(mi)[:60]}")


def has_whole(t, x, n=0):
    """does t contain x itself, not only a part of it"""
    if t is x:
        return True
    if n > 6 or not hasattr(t, "op"):
        return False
    if t.op == "g" and t.a[0].op == "discr" and t.a[0].a and t.a[0].a[0] is x:
        return True
    if t.op in ("adt", "arr", "tup", "tuple", "cat", "g"):
        for k in kids_of(t):
            if hasattr(k, "op") and has_whole(k, x, n + 1):
                return True
    return False
