"""C31: numbers that do not fit a field are rejected, never truncated."""
import interp as IN
import terms as TM
from panics import describe
from props.c06 import HEAVY, job, parallel, targets


def run(ctx, rep):
    p = ctx.prog
    rep.explanation = ("Every conversion between a file type and its editable data type is analysed by abstract interpretation with everything it calls in the workspace. Each integer cast to a "
                       "narrower or differently signed type is an obligation: under the conditions that reach it the value lies in the range of the target type.")
    rep.rules = ["no integer conversion by `as` changes the value of the number", "arithmetic in the conversions does not wrap (C06)"]
    rep.assume |= {"collections and buffers in memory hold fewer than 2^32 elements and bytes"}
    IN.NARROW = True
    TM.COUNT_MAX = (1 << 32) - 1
    c, ts = targets(p)
    rx = dict(ts)
    order = sorted(rx, key=lambda k: k not in HEAVY)
    res = parallel(order, lambda k: job(p, c, k, rx[k]))
    n = done = 0
    for k in sorted(res):
        r = res[k]
        if "missing" in r:
            rep.unknown("conversion missing: " + k)
            continue
        n += 1
        if "error" in r:
            rep.unknown(f"{k}: {r['error'][-280:]}")
            continue
        done += 1
        for fn, kd, site, w, d in r["open"]:
            if kd == "narrow":
                rep.violation(f"narrowing in {fn}", site, f"a number can lose its value in {k}: when {d}")
        for fn, kd, site, why in r["soft"]:
            if kd == "narrow":
                rep.unknown(f"{k}: narrowing in {fn} at {site}: {why}")
        rep.count("casts_needing_proof", r.get("narrow", 0))
    import props.c05
    P, nr, nw, nf = props.c05.feed_all(ctx, rep)
    for (fn, kind, site), (where, o, path) in sorted(P.open.items()):
        if kind == "narrow":
            rep.violation(f"narrowing in {fn}", site, f"a number can lose its value while {where}: when {describe(path)[:700]}")
    for (fn, kind, site), (where, why) in sorted(P.soft.items()):
        if kind == "narrow":
            rep.unknown(f"narrowing in {fn} at {site}: {why}")
    rep.count("casts_needing_proof", P.narrow)
    rep.count("readers_and_writers", nr + nw)
    rep.count("casts_in_conversions", len(casts(ctx)))
    rep.floor("conversions", n, 18, "conversions")
    rep.floor("conversions_analysed", done, 9, "conversions")


def casts(ctx):
    out = set()
    for f in ctx.prog.fns:
        if f.crate in ("ssbh_lib", "ssbh_data") and f.blocks:
            for b in f.blocks:
                for pl, rv, sp in b["s"]:
                    if rv[0] == "cast" and rv[1].startswith("IntToInt"):
                        out.add((f.path, str(sp)))
    return out
