"""C05: reading any bytes and writing any value never panics."""
from props.layouts import *
from layout import P0, D0
from panics import Panics, describe
from terms import *


def run(ctx, rep):
    rep.explanation = ("Every reader and writer of every on-disk type, and every file-level read and write entry point, is summarised by abstract interpretation of its "
                       "MIR. Each place where it can panic (arithmetic overflow, indexing, unwrap, explicit panic, division, allocation size) is an obligation "
                       "under the conditions that reach it; it is discharged when no combination of decisions reaching it can make it fail.")
    rep.rules = ["no arithmetic overflow, out-of-range index, unwrap of an absent value or explicit panic is reachable from parsing or writing"]
    P, nr, nw, nf = feed_all(ctx, rep)
    finish(rep, P)
    rep.floor("readers", nr, 150, "readers")
    rep.floor("writers", nw, 150, "writers")
    rep.floor("file_entry_points", nf, 23, "file-level readers and writers")


def feed_all(ctx, rep):
    """obligations of every reader, writer and file entry point"""
    L = layout(ctx)
    p, c = ctx.prog, L.c
    P = Panics(p)
    nr = nw = nf = 0

    def guard(what, go):
        try:
            return go()
        except Exception as e:
            rep.unknown(f"{what}: {e!r}"[:300])
            return None
    for ti in sorted(c.writers):
        if not c.ws_type(ti):
            continue
        tn = p.tname(ti)
        w = guard("writer of " + tn, lambda: L.W(ti))
        if w is not None:
            nw += 1
            # the data pointer is past the record (proved for every caller by C03)
            P.feed(w.it, "writing " + short(tn), extra=(sub(add(P0, c.size(ti, w.self)), D0),))
        if ti in c.readers:
            r = guard("reader of " + tn, lambda: L.R(ti))
            if r is not None:
                nr += 1
                P.feed(r.it, "reading " + short(tn))
    for f in p.fns:
        if f.crate != "sa_roots" or "roots_lib" not in f.path:
            continue
        if f.name.endswith("_write"):
            s = guard(f.name, lambda: c.write_fn(f, f.path, I(0)))
        elif f.name.endswith("_read"):
            s = guard(f.name, lambda: c.read_fn(f, f.path, None, I(0)))
        else:
            continue
        if s is not None:
            nf += 1
            P.feed(s.it, f.name)
    return P, nr, nw, nf


def finish(rep, P, least=20):
    rep.count("obligations", P.n)
    rep.floor("possible_panic_sites", len(P.sites), least, "places that could panic")
    for (fn, kind, site), (where, o, path) in sorted(P.open.items()):
        rep.violation(f"{kind} in {fn}", site, f"{kind} can panic while {where}: when {describe(path)[:700]}")
    for (fn, kind, site), (where, why) in sorted(P.soft.items()):
        rep.unknown(f"{kind} in {fn} at {site}: {why}")
