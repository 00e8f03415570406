"""C18: animation conversions decode and encode every frame value as established."""
import json

import animconv
import conv
import convref
import interp as IN
import refute
import terms as TM
from props.c06 import parallel
from props.roundtrip import settle
from terms import *


def job(p, key, how, ref):
    TM.COUNT_MAX = (1 << 32) - 1
    IN.CLOSE_OTHERS = True
    way, ver, fixed = how
    v, f, ti, it = animconv.summary(p, way, ver, **fixed)
    out = {"fn": f.full, "viol": [], "unk": [], "n": 0}
    if v is None:
        out["viol"].append([f"{key}: always fails", f.full, f"no {ver} animation can be converted ({way})"])
        return out
    try:
        (want,) = convref.load(p, ref)
    except convref.Unreadable as e:
        out["unk"].append(f"{key}: {e}")
        return out
    out["terms"] = len(subterms(v))
    (u,) = convref.loops_out([v])
    if u is want:
        out["n"] = 1
        return out
    rt = convref.result_type(p, f)
    S = conv.Same(it)
    S.eq(u, want, rt)
    out["n"] += S.n
    if S.diffs:
        settle(out, key, key, f.full, "result", S.diffs,
               lambda: refute.refute(p, sym("x"), ti, u, want, rt, shape=animconv.shape(way, ver, fixed), limit=60.0, floats=True))
    return out


def run(ctx, rep):
    p = ctx.prog
    rep.explanation = ("The conversions between animation files and animation data are summarised for every type of track and every way of storing it: each frame value read is an expression of "
                       "the bytes of the file, each byte of a written buffer an expression of the frame values. Each is compared with the established expression in sa/ref/anim.json.")
    rep.rules = ["every frame value of a track is the established expression of the track's bytes", "every byte and field of a written track is the established expression of the frame values"]
    rep.assume.add("collections hold fewer than 2^32 elements")
    rep.assume.add("a 24 bit field per component for compressed transforms; floats compare as equal within a component either always or never where so named")
    with open(animconv.PATH) as fh:
        ref = json.load(fh)
    J = animconv.jobs()
    # the long ones first
    order = sorted(J, key=lambda k: -len(ref[k]["terms"]) if k in ref else 0)
    res = parallel(order, lambda k: job(p, k, J[k], ref[k]), 700)
    for k in sorted(J):
        r = res[k]
        if "missing" in r:
            rep.violation(f"{k}: conversion missing", "", "no function matches " + r["missing"])
            continue
        if "error" in r:
            rep.unknown(f"{k}: {r['error']}")
            continue
        rep.count("comparisons", r["n"])
        rep.count("terms", r.get("terms", 0))
        rep.samples.append(f"{k}: {r['fn']}")
        for key, where, t in r["viol"]:
            rep.violation(key, where, t)
        for t in r["unk"]:
            rep.unknown(t)
    rep.floor("conversions", len(J), 60, "parts of conversions")
