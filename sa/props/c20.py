"""C20: mesh conversions reject the malformed meshes, and only those."""
import json

import convref
import interp as IN
import okconv
import terms as TM
from props.c06 import parallel
from terms import *


def job(p, key, ref):
    TM.COUNT_MAX = (1 << 32) - 1
    IN.CLOSE_OTHERS = True
    ver, way = key.split(": ")
    out = {"fn": key, "viol": [], "unk": [], "n": 0}
    try:
        ok, f, ti, it = okconv.summary(p, way, ver)
        (u,) = convref.loops_out([ok])
        (want,) = convref.load(p, ref)
    except convref.Unreadable as e:
        out["unk"].append(f"{key}: {e}")
        return out
    out["fn"] = f.full
    out["n"] = max(len(TM.atoms(u)), 1)
    if u is want:
        return out
    if [x for x in subterms(u) if x.op == "loop"]:
        out["unk"].append(f"{key}: depends on a loop that is not understood")
        return out
    r, n = okconv.differ(p, u, want, ti, ver, way)
    if r:
        out["viol"].append([f"{key}: values accepted", f.full, r])
    else:
        out["unk"].append(f"{key}: another condition for success than established; no difference in {n} sample meshes")
    return out


def run(ctx, rep):
    p = ctx.prog
    rep.explanation = ("The condition under which a mesh conversion succeeds is derived for each version: a loop that ends early with an error becomes a condition on all its rounds, so the whole is an "
                       "expression of the input. It is compared with the established one in sa/ref/accept.json; a difference is confirmed by evaluating both for sample meshes, malformed ones among them.")
    rep.rules = ["a mesh conversion succeeds under the established condition on its input, and only then"]
    rep.assume.add("collections hold fewer than 2^32 elements")
    rep.assume.add("reads of a value inside a buffer succeed (C07 covers reads that fail)")
    with open(okconv.PATH) as fh:
        ref = json.load(fh)
    res = parallel(sorted(ref), lambda k: job(p, k, ref[k]), 700)
    n = 0
    for k in sorted(ref):
        r = res[k]
        n += 1
        if "missing" in r:
            rep.violation(f"{k}: conversion missing", "", "no function matches " + r["missing"])
            continue
        if "error" in r:
            rep.unknown(f"{k}: {r['error']}")
            continue
        rep.count("conditions", r["n"])
        rep.samples.append(r["fn"])
        for key, where, t in r["viol"]:
            rep.violation(key, where, t)
        for t in r["unk"]:
            rep.unknown(t)
    rep.floor("conversions", n, 6, "conversions")
