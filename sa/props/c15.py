"""C15: conversions put every value in its established place."""
import json
import conv
import convref
import interp as IN
import terms as TM
from props.c06 import parallel
import refute
import seqs
from props.roundtrip import plain, settle, versions
from terms import *


def job(p, key, ref):
    TM.COUNT_MAX = (1 << 32) - 1
    IN.CLOSE_OTHERS = True
    k, way = key.split(": ")
    c = conv.Conv(p)
    f = dict(convref.fns(c, k))[way]
    out = {"fn": f.full, "viol": [], "unk": [], "n": 0}
    v, ok, it = convref.summary(c, f)
    out["unk"] += [f"{key}: {str(n)[:200]}" for n in it.notes[:4]]
    try:
        want, wok = convref.load(p, ref)
    except convref.Unreadable as e:
        out["unk"].append(f"{key}: {e}")
        return out
    out["n"] += 1
    if ok is not wok:
        bad = plain(ok, wok)
        extra, lost = AND(ok, NOT(wok)), AND(wok, NOT(ok))
        if extra is not FALSE or lost is not FALSE:
            t = f"{key} succeeds when {show(ok)[:200]} instead of {show(wok)[:200]}"
            if bad is None and not out["unk"]:
                out["viol"].append([f"{key}: values accepted", f.full, t])
            else:
                out["unk"].append(t)
    S = conv.Same(it, okc=ok)
    S.eq(v, want, convref.result_type(p, f), pc=ok)
    out["n"] += S.n
    if S.diffs:
        x, ti = sym("x"), it.peel(f.locals[1])
        raw, rok, it2, _ = c.run(f, [x])
        settle(out, key, key, f.full, "result", S.diffs, lambda: refute.refute(p, x, ti, seqs.Norm().norm(raw), want, convref.result_type(p, f), rok, (it2,), versions=versions(k)))
    return out


def run(ctx, rep):
    p = ctx.prog
    rep.explanation = ("Each conversion is summarised as an expression of a symbolic input in every field of its result (lists as concatenations and comprehensions), and "
                       "compared with the established mapping in sa/ref/conversions.json field by field, for every version of the file.")
    rep.rules = ["each field of a conversion's result is the established expression of the input's fields"]
    rep.assume.add("collections hold fewer than 2^32 elements")
    with open(convref.PATH) as fh:
        ref = json.load(fh)
    res = parallel(sorted(ref), lambda k: job(p, k, ref[k]), 700)
    n = 0
    for k in sorted(ref):
        r = res[k]
        n += 1
        if "missing" in r:
            rep.violation(f"{k}: conversion missing", "", "no function matches " + r["missing"])
            continue
        if "error" in r:
            rep.unknown(f"{k}: {r['error']}")
            continue
        rep.count("comparisons", r["n"])
        rep.samples.append(r["fn"])
        for key, where, t in r["viol"]:
            rep.violation(key, where, t)
        for t in r["unk"]:
            rep.unknown(t)
    rep.floor("conversions", n, 12, "conversions")
