"""Summaries of the conversions of meshes, one for every version of the file.

The vertex data of a mesh is read and written at positions computed from the file's own offsets and strides. With the version
fixed, the whole conversion is one expression of the input: every attribute value is `rdT(type, bytes, position)`.
Loops are taken as running to their end: an error on the way makes the whole conversion fail.
"""
import json
import os
import sys

import conv
import convref
import interp as IN
import models as M
import refute
import seqs
import terms as TM
from terms import *

PATH = os.path.join(os.path.dirname(os.path.abspath(__file__)), "ref", "mesh.json")
VERSIONS = ("V8", "V9", "V10")
MINOR = {"V8": 8, "V9": 9, "V10": 10}
WAYS = ("file to data", "data to file")


def argument(p, f, way, ver):
    """the conversion's argument with the version fixed, its type and the variant or None"""
    x = sym("x")
    it = M.base_interp(p, conv.str_hook)
    ti = it.peel(f.locals[1])
    d = p.types[ti]
    if way == "file to data":
        for vi, v in enumerate(d["variants"]):
            if v["n"] == ver:
                return mk("adt", ti, vi, *[IN.fld(x, f"{ver}.{q[0]}") for q in v["f"]]), ti, vi
        raise convref.Unreadable("no variant " + ver)
    fs = d["variants"][0]["f"]
    pinned = {"major_version": I(1), "minor_version": I(MINOR[ver])}
    return mk("adt", ti, 0, *[pinned.get(q[0]) or IN.fld(x, q[0]) for q in fs]), ti, None


def summary(p, way, ver, found=0):
    c = conv.Conv(p)
    f = dict(convref.fns(c, "mesh"))[way]
    arg, ti, vi = argument(p, f, way, ver)
    v, ok, it, er = c.run(f, [arg], relpc=True)
    if v is None:
        return None, f, ti, vi, it
    v = IN.constrain_deep(v, ok)
    outcome = {t: I(0) for t in subterms(v) if t.op == "lx"}
    if found:
        # the meshes for which the one search among the data (an index above 65535) finds something
        if len(outcome) != 1:
            raise convref.Unreadable(f"{len(outcome)} searches instead of one")
        outcome = {t: I(1) for t in outcome}
    v = subst(v, outcome)
    v = seqs.Norm().norm(v)
    return v, f, ti, vi, it


# ------------------------------------------------------------------ the bytes of the buffers
def buffers_of(p, v, rt, ver):
    """[(name, term of the bytes)] of the buffers of a written mesh"""
    it = M.base_interp(p)
    d = p.types[rt]
    vi = [q["n"] for q in d["variants"]].index(ver)
    inner = it.proj_f(v, vi, 0, rt, d["variants"][vi]["f"][0][1])
    ti = d["variants"][vi]["f"][0][1]
    fs = [q[0] for q in p.types[ti]["variants"][0]["f"]]

    def get(t, ti, *names):
        for n in names:
            q = p.types[ti]["variants"][0]["f"]
            i = [x[0] for x in q].index(n)
            t, ti = it.proj_f(t, None, i, ti, q[i][1]), q[i][1]
        return t, ti
    t, tt = get(inner, ti, "vertex_buffers", "elements")
    el = p.types[tt]["args"][0]
    out = [(f"vertex buffer {i}", get(IN.seq_elem(t, I(i)), el, "elements")[0]) for i in range(4)]
    t, tt = get(inner, ti, "index_buffer")
    if p.types[tt].get("path", "").endswith("Vec") or p.types[tt]["k"] in ("slice", "array"):
        out.append(("index buffer", t))
    else:
        out.append(("index buffer", get(inner, ti, "index_buffer", "elements")[0]))
    return out


def written(p, ver):
    """(names of buffers, events of the writes into them, interpreter, function) of data to file"""
    c = conv.Conv(p)
    f = dict(convref.fns(c, "mesh"))["data to file"]
    arg, ti, vi = argument(p, f, "data to file", ver)
    made = {}

    def hook(it, f, d, args, st, pc, ck, dty):
        if f is not None and f.path.endswith("Cursor::<T>::new") and args and args[0].op == "arr" and not args[0].a:
            return mk("wr", mk("sym", "buf", made.setdefault(it.site, len(made))), I(0)), pc
        return conv.str_hook(it, f, d, args, st, pc, ck, dty)
    it = M.base_interp(p, hook, budget=400000)
    it.relpc = it.groups = True
    v, pc = it.run(f, [arg], {})
    v = IN.constrain_deep(v, pc)
    rt = f.locals[0]
    if p.types[rt].get("path", "").endswith("result::Result"):
        r0 = p.types[rt]
        okc = test(it.discr(v, rt), 0)
        v = IN.constrain_deep(it.proj_f(v, 0, 0, rt, r0["variants"][0]["f"][0][1]), okc)
        rt = r0["args"][0]
    names = {}
    for n, t in buffers_of(p, v, rt, ver):
        t = subst(t, {x: I(0) for x in subterms(t) if x.op == "lx"})
        if t.op == "written" and t.a[0] not in names:
            names[t.a[0]] = n
    return names, keep(it.ev, names), it, f, ti


def keep(evs, names):
    """the events that write into one of the buffers, with their loops and conditions"""
    out = []
    for e in evs:
        if e.kind in ("loop", "if"):
            sub = keep(e.sub, names)
            if sub:
                out.append(IN.Ev(e.pc, e.kind, e.d, e.site, sub))
        elif e.kind == "write" and e.d[0] in names:
            out.append(IN.Ev(e.pc, "write", (mk("str", names[e.d[0]]),) + e.d[1:], e.site))
    return out


def canonical(p, evs, it):
    """the events and what their loops need, written with loops in order of appearance"""
    kids, order = {}, []
    terms = []

    def visit(evs):
        for e in evs:
            if e.kind == "loop" and e.d[0] not in kids:
                kids[e.d[0]] = len(order)
                order.append(e.d[0])
            terms.append(e.pc)
            terms.extend(x for x in e.d if isinstance(x, T))
            if e.sub:
                visit(e.sub)
    visit(evs)
    lvs = []
    todo = list(terms)
    for t in todo:
        for x in in_order(t, ("lv",)):
            if x not in lvs and x in it.lv:
                lvs.append(x)
                todo += [y for y in it.lv[x] if y is not None]
    m = {}
    for k in order:
        m[it.loopinfo[k]["idx"]] = mk("idx", ("loop", kids[k]))
    for n, l in enumerate(lvs):
        m[l] = mk("lv", kids.get(l.a[0], -1), ("v", n), ())
    (flat,) = [[]]

    def tree(evs):
        out = []
        for e in evs:
            ds = []
            for x in e.d:
                if isinstance(x, T):
                    flat.append(subst(x, m))
                    ds.append(["t", len(flat) - 1])
                elif e.kind == "loop":
                    ds.append(["k", kids[x]])
                else:
                    ds.append(["x", x])
            flat.append(subst(e.pc, m))
            out.append([e.kind, len(flat) - 1, ds, tree(e.sub or [])])
        return out
    tr = tree(evs)
    vs = []
    for n, l in enumerate(lvs):
        ab = []
        for y in it.lv[l]:
            flat.append(subst(y if y is not None else l, m))
            ab.append(len(flat) - 1)
        vs.append([kids.get(l.a[0], -1), ab])
    lx = []
    # loops whose outcome matters
    for t in list(flat):
        for x in in_order(t, ("lx", "lvx", "brk", "trip")):
            if x not in lx:
                lx.append(x)
    mm = {x: mk("loop", x.op, n) for n, x in enumerate(lx)}
    outs = []
    for x in lx:
        info = it.loopinfo.get(x.a[0])
        if x.op == "lx" and info and list(info.get("early", {})) == [1] and not any(k == "lv" and mk("lv", x.a[0], *c) in subterms(info["early"][1]) for c, k in info["kinds"].items()):
            ix = mk("idx", ("search", len(outs)))
            flat.append(subst(subst(info["early"][1], {info["idx"]: ix}), m))
            flat.append(subst(info["trip"], m))
            outs.append([lx.index(x), len(flat) - 2, len(flat) - 1])
    flat = [subst(t, mm) for t in flat]
    return {"flat": flat, "tree": tr, "lvs": vs, "searches": outs}


def in_order(t, ops):
    """the subterms with these operators in order of appearance"""
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ops:
            out.append(x)
        for a in reversed(x.a):
            if isinstance(a, T):
                todo.append(a)
            elif isinstance(a, tuple):
                for b in reversed(a):
                    if isinstance(b, T):
                        todo.append(b)
                    elif isinstance(b, tuple):
                        todo += [c for c in reversed(b) if isinstance(c, T)]
    return out


class Stored:
    """events read back: what an interpreter would know of their loops"""

    def __init__(self, p, d):
        flat = convref.load(p, d["flat"]) if isinstance(d["flat"], dict) else d["flat"]
        self.flat, self.rest = flat, json.loads(json.dumps({k: v for k, v in d.items() if k != "flat"}))
        self.loopinfo, self.lv = {}, {}
        self.searches = {mk("loop", "lx", n): (mk("idx", ("search", i)), flat[e], flat[t]) for i, (n, e, t) in enumerate(d["searches"])}

        def tree(ts):
            out = []
            for kind, pc, ds, sub in ts:
                dd = tuple(flat[x] if k == "t" else x for k, x in ds)
                if kind == "loop":
                    self.loopinfo.setdefault(dd[0], {"idx": mk("idx", ("loop", dd[0])), "trip": dd[1], "kinds": {}, "early": {}})
                out.append(IN.Ev(flat[pc], kind, dd, "", tree(sub)))
            return out
        self.ev = tree(d["tree"])
        for n, (kid, (a, b)) in enumerate(d["lvs"]):
            self.lv[mk("lv", kid, ("v", n), ())] = (flat[a], flat[b])
            if kid in self.loopinfo:
                self.loopinfo[kid]["kinds"][(("v", n), ())] = "lv"


def compare_bytes(p, a, b, ti, ver, samples=60, limit=90.0):
    """(difference or None, samples evaluated) between two sets of stored events"""
    import time
    t0, n = time.time(), 0
    refute.gc.freeze()
    refute.gc.enable()
    why = {}
    for s in range(samples):
        if time.time() - t0 > limit:
            break
        inp = refute.Inputs(p, s * 3 + 1 if s % 4 else s, shape=shape(ver, "data to file"))
        res = []
        part = False
        try:
            for x in (a, b):
                E = refute.Eval(p, {sym("x"): inp.make(ti, ("x",))}, (x,), True)
                E.searches = x.searches
                res.append(E.writes(x, x.ev, {}))
                part |= E.partial
        except (refute.Undefined, RecursionError) as e:
            why[str(e)] = why.get(str(e), 0) + 1
            continue
        n += 1
        r = refute.same_bytes(*res, part)
        if r:
            return (r[0].a[0],) + r[1:], n, why
    return None, n, why


def shape(ver, way, big=False):
    """sample meshes whose buffers hold every value their objects speak of"""
    def go(inp, ti, path):
        last = path[-1]
        if way == "data to file":
            if len(path) == 2 and last == "major_version":
                return 1
            if len(path) == 2 and last == "minor_version":
                return MINOR[ver]
            if len(path) > 3 and path[1] == "objects":
                return vertices(inp, ti, path, big)
            return None
        if path == ("x",):
            d = inp.p.types[ti]
            for vi, v in enumerate(d["variants"]):
                if v["n"] == ver:
                    return refute.Rec(ti, vi, lambda i: inp.make(v["f"][i][1], path + (v["f"][i][0],)))
            return None
        r = inp.rnd(path)
        if last in ("vertex_count", "vertex_index_count"):
            return r.randrange(0, 5)
        if isinstance(last, str) and last.startswith("stride"):
            return r.randrange(1, 48)
        if isinstance(last, str) and (last.startswith("vertex_buffer") and last.endswith("_offset") or last in ("buffer_offset", "index_buffer_offset")):
            return r.randrange(0, 24)
        if last == "buffer_index":
            return r.randrange(0, 4)
        if last in ("mesh_object_name", "name") and len(path) in (5, 6):
            return refute.SStr(r.choice(("a", "b")))
        if last in ("mesh_object_subindex", "subindex") and len(path) in (5, 6):
            return r.randrange(0, 2)
        if last == "elements":
            el = inp.p.types[ti]
            el = (el.get("args") or [None])[0]
            if el is None:
                return None
            if inp.p.types[el].get("s") == "u8":
                n = 6 * r.randrange(0, 4) if "buffers" in path else 420
                if "vertex_buffers" in path:
                    n = 420
                return refute.Seq(n, lambda i: inp.rnd(path + (i,)).randrange(0, 256))
            if path[-2] == "vertex_buffers":
                return refute.Seq(4, lambda i: inp.make(el, path + (i,)))
            if path[-2] == "attribute_names":
                return refute.Seq(r.randrange(1, 3), lambda i: inp.make(el, path + (i,)))
        return None
    return go


def vertices(inp, ti, path, big):
    """objects whose attributes all have the same number of vertices"""
    r = inp.rnd(("count",) + path[:3])
    many = inp.seed % 5 == 4
    n = r.choice((0, 1, 2, 3, 4, 5))
    many = many and path[2] == 0 or big
    if many:
        n = 65537 + n
    el = (inp.p.types[ti].get("args") or [None])[0]
    if len(path) == 4 and path[3] == "vertex_indices":
        k = 3 * r.randrange(0, 3) if n else 0
        top = n - 1
        q = inp.rnd(path)
        vals = [q.choice((0, top, max(top - 1, 0), n // 2)) for _ in range(k)]
        if big:
            vals[:3] = [0, top, 1]
            k = max(k, 3)
        return refute.Seq(k, lambda i: vals[i])
    if len(path) == 7 and path[5] == "data" and path[6] == "0":
        return refute.Seq(n, lambda i: inp.make(el, path + (i,)))
    if len(path) == 4 and many and el is not None and path[3] in ("positions", "normals", "binormals", "tangents", "texture_coordinates", "color_sets"):
        return refute.Seq(0, lambda i: None) if path[3] != "positions" else refute.Seq(1, lambda i: inp.make(el, path + (i,)))
    return None


if __name__ == "__main__":
    import gc
    gc.disable()
    sys.setrecursionlimit(20000)
    import extract
    from load import Program
    TM.COUNT_MAX = (1 << 32) - 1
    IN.CLOSE_OTHERS = True
    p = Program(extract.extract()["mono"])
    ref = {}
    for way in WAYS:
        for ver in VERSIONS:
            v, f, ti, vi, it = summary(p, way, ver)
            (v,) = convref.loops_out([v])
            ref[f"{ver}: {way}"] = convref.dump(p, [v])
            if way == "data to file":
                (u,) = convref.loops_out([summary(p, way, ver, 1)[0]])
                ref[f"{ver}: {way}, long indices"] = convref.dump(p, [u])
            print(way, ver, len(subterms(v)), len([t for t in subterms(v) if t.op == "loop"]))
    for ver in VERSIONS:
        names, evs, it, f, ti = written(p, ver)
        d = canonical(p, evs, it)
        ref[f"{ver}: buffers"] = {"names": sorted(names.values()), "events": {**d, "flat": convref.dump(p, d["flat"])}}
        print(ver, names.values(), len(d["flat"]), d["searches"], compare_bytes(p, Stored(p, d), Stored(p, d), ti, ver, samples=30))
    with open(PATH, "w") as fh:
        json.dump(ref, fh, separators=(",", ":"))
