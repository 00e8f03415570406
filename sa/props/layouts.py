"""Shared: the layout engine over every on-disk type of the current tree."""
from terms import *
import terms as TM
from layout import Layout, Eval, flat_events
from fmt import self_ti

FORMATS = "hlpb matl modl mesh skel anim nlst nrpd nufx shdr meshex adj".split()
OPAQUE = ("call", "mut")


def is_opaque(*ts):
    """does a failing term depend on code that was not modelled?"""
    for t in ts:
        if isinstance(t, T):
            for x in subterms(t):
                if x.op in OPAQUE:
                    return True
    return False


def by_remainder(atoms):
    """do positions depend on remainders of positions? (rounding in a form that is not brought to normal form)"""
    for at in atoms:
        for x in subterms(at):
            if x.op == "rem" and x.a[1].op == "int":
                return True
    return False


def layout(ctx):
    return Layout(ctx.prog)


def root(ctx, name, mod="roots_lib"):
    for f in ctx.prog.fns:
        if f.name == name and f.crate == "sa_roots" and mod in f.path:
            return f
    raise KeyError("entry point " + name)


def file_pairs(ctx):
    out = []
    for k in FORMATS:
        w, r = root(ctx, k + "_write"), root(ctx, k + "_read")
        d = ctx.prog.types[w.locals[1]]
        ti = d.get("to", d.get("t"))
        out.append((ctx.prog.tname(ti), w, r))
    return out


def span(ctx, L, ti, what="writers"):
    f = getattr(L.c, what).get(ti)
    return (f.span or "") if f is not None else ""


def short(tn):
    import re
    return re.sub(r"(?:\w+::)+", "", tn)
