"""C17: mesh conversions put every attribute value where the file's offsets and strides say."""
import json

import conv
import convref
import interp as IN
import meshconv
import refute
import terms as TM
from props.c06 import parallel
from props.roundtrip import settle
from terms import *


def job(p, key, ref):
    TM.COUNT_MAX = (1 << 32) - 1
    IN.CLOSE_OTHERS = True
    ver, way = key.split(": ")
    if way == "buffers":
        return buffers(p, key, ver, ref)
    way, _, big = way.partition(", ")
    try:
        v, f, ti, vi, it = meshconv.summary(p, way, ver, bool(big))
    except convref.Unreadable as e:
        return {"fn": key, "viol": [], "unk": [f"{key}: {e}"], "n": 0}
    out = {"fn": f.full, "viol": [], "unk": [], "n": 0}
    if v is None:
        out["viol"].append([f"{key}: always fails", f.full, f"no {ver} mesh can be converted ({way})"])
        return out
    try:
        (want,) = convref.load(p, ref)
    except convref.Unreadable as e:
        out["unk"].append(f"{key}: {e}")
        return out
    out["terms"] = len(subterms(v))
    (u,) = convref.loops_out([v])
    rt = convref.result_type(p, f)
    S = conv.Same(it)
    S.eq(u, want, rt)
    out["n"] += S.n
    if S.diffs:
        settle(out, key, key, f.full, "result", S.diffs,
               lambda: refute.refute(p, sym("x"), ti, u, want, rt, shape=meshconv.shape(ver, way, bool(big)), limit=60.0))
    return out


def buffers(p, key, ver, ref):
    """the bytes of the vertex and index buffers"""
    names, evs, it, f, ti = meshconv.written(p, ver)
    got = meshconv.Stored(p, meshconv.canonical(p, evs, it))
    out = {"fn": f.full, "viol": [], "unk": [], "n": sum(1 for e in refute.flat_events(evs) if e.kind == "write"), "terms": len(got.flat)}
    try:
        want = meshconv.Stored(p, ref["events"])
    except convref.Unreadable as e:
        out["unk"].append(f"{key}: {e}")
        return out
    if got.rest == want.rest and all(a is b for a, b in zip(got.flat, want.flat)) and len(got.flat) == len(want.flat):
        return out
    if sorted(names.values()) != ref["names"]:
        out["unk"].append(f"{key}: not all buffers are found: {sorted(names.values())}")
        return out
    r, n, why = meshconv.compare_bytes(p, got, want, ti, ver)
    if r:
        out["viol"].append([f"{key}: {r[0]}", f.full, f"a byte of the {r[0]} of a mesh made from data: position {r[1]} holds {str(r[2])[:80]} instead of {str(r[3])[:80]}"])
    else:
        out["unk"].append(f"{key}: written in another way than established; no difference in {n} sample meshes {why or ''}")
    return out


def run(ctx, rep):
    p = ctx.prog
    rep.explanation = ("The conversions between mesh files and mesh data are summarised for each of the three versions with the version fixed: every value of the result is an "
                       "expression of the input, vertex values being reads of a type at a position of a buffer. Each is compared with the established expression in sa/ref/mesh.json.")
    rep.rules = ["every attribute value, index, weight and name of a mesh comes from the established place (buffer, offset, stride, type) of the file",
                 "every field of a written mesh is the established expression of the data"]
    rep.assume.add("collections hold fewer than 2^32 elements")
    with open(meshconv.PATH) as fh:
        ref = json.load(fh)
    res = parallel(sorted(ref), lambda k: job(p, k, ref[k]), 700)
    n = 0
    for k in sorted(ref):
        r = res[k]
        n += 1
        if "missing" in r:
            rep.violation(f"{k}: conversion missing", "", "no function matches " + r["missing"])
            continue
        if "error" in r:
            rep.unknown(f"{k}: {r['error']}")
            continue
        rep.count("comparisons", r["n"])
        rep.count("terms", r.get("terms", 0))
        rep.samples.append(f"{k}: {r['fn']}")
        for key, where, t in r["viol"]:
            rep.violation(key, where, t)
        for t in r["unk"]:
            rep.unknown(t)
    rep.floor("conversions", n, 12, "parts of conversions")
