"""When the mesh conversions succeed, as an expression of the input: a loop that ends early with an error becomes a condition on all its rounds.
Run to regenerate ref/accept.json."""
import gc
import json
import os
import sys

import conv
import convref
import interp as IN
import meshconv
import refute
import seqs
import terms as TM
from terms import *

PATH = os.path.join(os.path.dirname(os.path.abspath(__file__)), "ref", "accept.json")
VERSIONS = ("V8", "V9", "V10")
WAYS = ("data to file", "file to data")


def conj(n, body, idx):
    """body holds for every idx below n"""
    body = IN.constrain_deep(body, lt(idx, n))
    if body is TRUE or body is FALSE and n is I(0):
        return TRUE
    if n.op == "int" and n.a[0] <= 16:
        r = TRUE
        for j in range(n.a[0]):
            r = AND(r, subst(body, {idx: I(j)}))
        return r
    # one condition per conjunct, in whatever order they are tested
    k, (b,) = IN.close(idx, body)
    return boolnode(mk("forall", n, b, k))


def split(b):
    """conjuncts of b: those atoms one of whose outcomes refutes b"""
    out, rest = [], b
    for a in sorted(atoms(b), key=lambda t: t.id):
        c = boolnode(a) if a.op != "lx" else None
        if c is None:
            continue
        for lit in (c, NOT(c)):
            if AND(rest, NOT(lit)) is FALSE and lit is not TRUE:
                out.append(lit)
                rest = IN.constrain_deep(rest, lit)
                break
    return out + ([rest] if rest is not TRUE else [])


def pure(it, c, memo=None):
    """the condition c without outcomes of loops"""
    memo = {} if memo is None else memo
    m = {}
    for t in subterms(c):
        if t.op != "lx":
            continue
        if t not in memo:
            memo[t] = ended(it, t.a[0], memo)
        m[t] = ite(memo[t], I(0), I(1))
    for t in m:
        codes = [k for k in it.loopinfo[t.a[0]].get("early", {})]
        if len({subst(c, {t: I(k)}) for k in codes}) > 1:
            raise convref.Unreadable("the way a loop is left matters")
    return subst(c, m) if m else c


def ended(it, kid, memo):
    """the loop performs all its rounds"""
    info = it.loopinfo[kid]
    n, idx = info["trip"], info["idx"]
    if n.op == "trip":
        raise convref.Unreadable("the number of rounds of a loop is not known")
    n = pure(it, n, memo)
    err = FALSE
    for code, e in sorted(info.get("early", {}).items()):
        err = OR(err, pure(it, IN.constrain_deep(e, lt(idx, n)), memo))
    lvs = {mk("lv", kid, c, q): it.lv.get(mk("lv", kid, c, q)) for (c, q), k in info["kinds"].items() if k == "lv"}
    used = [l for l in lvs if l in subterms(err)]
    m = {}
    for l in used:
        i0, u = lvs[l] or (None, None)
        if u is None:
            raise convref.Unreadable("a variable of a loop is not known")
        m[l] = IN.fold_term(l, pure(it, i0, memo) if i0.op != "lx" else i0, u, idx, idx, lvs)
    if m:
        err = subst(err, m)
    body = IN.constrain_deep(NOT(err), lt(idx, n))
    r = TRUE
    for b in split(body):
        r = AND(r, conj(n, b, idx))
    return r


def summary(p, way, ver):
    c = conv.Conv(p)
    f = dict(convref.fns(c, "mesh"))[way]
    arg, ti, vi = meshconv.argument(p, f, way, ver)
    IN.CLOSE_OTHERS = True
    v, ok, it, er = c.run(f, [arg], relpc=True)
    ok = subst(ok, it.ivals)
    ok = pure(it, ok)
    return seqs.Norm().norm(ok), f, ti, it


# ------------------------------------------------------------------ sample meshes, also malformed ones
def shape(ver, way):
    ok = meshconv.shape(ver, way)

    def data(inp, ti, path):
        bad = inp.rnd(("kind",)).choice(("none", "indices", "range", "lengths", "weights", "influences", "indices", "range", "lengths", "weights"))
        last = path[-1]
        if len(path) == 2 and last == "objects":
            el = inp.p.types[ti]["args"][0]
            return refute.Seq(inp.rnd(path).choice((1, 1, 2, 3)), lambda i: inp.make(el, path + (i,)))
        if len(path) == 3 and path[1] == "objects":
            return None
        v = ok(inp, ti, path)
        if len(path) >= 3 and inp.rnd(("which",)).randrange(3) < path[2]:
            return v
        if bad in ("indices", "range") and len(path) == 4 and last == "vertex_indices":
            r = inp.rnd(path)
            n = r.choice((0, 3, 6)) + (r.choice((1, 2)) if bad == "indices" else 0)
            # the number of vertices as meshconv.vertices draws it
            top = inp.rnd(("count",) + path[:3]).choice((0, 1, 2, 3, 4, 5))
            vals = [r.randrange(max(top, 1)) for _ in range(n)]
            if bad == "range" and n:
                vals[r.randrange(n)] = top + r.choice((-1, 0, 0, 1)) if top else 0
            return refute.Seq(n, lambda i: vals[i])
        if bad == "lengths" and len(path) == 7 and path[5] == "data" and last == "0":
            n = inp.rnd(path).choice((0, 1, 2, 3))
            el = (inp.p.types[ti].get("args") or [None])[0]
            return refute.Seq(n, lambda i: inp.make(el, path + (i,)))
        if bad == "weights" and last == "vertex_index":
            return inp.rnd(path).choice((0, 1, 65535, 65535, 65536, 70000))
        return v

    def file(inp, ti, path):
        v = ok(inp, ti, path)
        bad = inp.rnd(("kind",)).choice(("none", "index", "short", "stride", "far", "name"))
        r = inp.rnd(path + ("bad",))
        last = path[-1]
        if bad == "index" and last == "buffer_index":
            return r.choice((0, 1, 2, 3, 3, 4, 5))
        if bad == "far" and isinstance(last, str) and last.endswith("_offset"):
            return r.choice((0, 8, 100, 420) + ((2 ** 64 - 1, 2 ** 64 - 9) if last == "buffer_offset" else ()))
        if bad == "stride" and isinstance(last, str) and last.startswith("stride"):
            return r.choice((0, 1, 12, 16, 200))
        return v
    return data if way == "data to file" else file


def differ(p, a, b, ti, ver, way, samples=400, limit=60.0):
    """a sample mesh which one of the two conditions accepts and the other does not -> (description or None, samples decided)"""
    import time
    t0, n = time.time(), 0
    gc.freeze()
    gc.enable()
    shared = sorted((t for t in set(atoms(a)) & set(atoms(b)) if t.op == "forall"), key=lambda t: t.id)
    ks = refute.consts(a, TRUE)
    for s in range(samples):
        if time.time() - t0 > limit:
            break
        inp = refute.Inputs(p, s, (), tuple(ks) + tuple(c + 1 for c in ks), small=s % 2 == 0, shape=shape(ver, way))
        E = refute.Eval(p, {sym("x"): inp.make(ti, ("x",))}, (), True)
        inp.concrete = True
        for t in shared:
            # what both require and cannot be evaluated is taken to be met
            try:
                E.num(t)
            except (refute.Undefined, RecursionError):
                E.env[t] = 1
        E.memo.clear()
        E.memo_bound.clear()
        try:
            u, w = E.num(a), E.num(b)
        except (refute.Undefined, RecursionError):
            continue
        n += 1
        if u != w:
            return (f"{'accepts' if u else 'rejects'} a mesh that it {'rejects' if u else 'accepts'} as established (sample {s})"), n
    return None, n


if __name__ == "__main__":
    gc.disable()
    sys.setrecursionlimit(20000)
    import extract
    from load import Program
    TM.COUNT_MAX = (1 << 32) - 1
    p = Program(extract.extract()["mono"])
    out = {}
    for way in WAYS:
        for ver in VERSIONS:
            key = f"{ver}: {way}"
            try:
                ok, f, ti, it = summary(p, way, ver)
            except convref.Unreadable as e:
                print(key, "unreadable:", e)
                continue
            (u,) = convref.loops_out([ok])
            out[key] = convref.dump(p, [u])
            print(key, len(subterms(u)), "loops", len([t for t in subterms(u) if t.op == "loop"]), "notes", len(it.notes))
            r = differ(p, u, u, ti, ver, way, limit=10)
            print("   evaluated", r)
    json.dump(out, open(PATH, "w"), separators=(",", ":"))
