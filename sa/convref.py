"""Conversion summaries as stored references: terms written to and read from JSON.

The reference of a conversion is its summary (the value of every field of the result as an expression of the input) in normal form.
Type numbers are stored as type names; names of loops are replaced by their order of appearance.
"""
import json
import os
import sys

import conv
import interp as IN
import models as M
import seqs
import terms as TM
from props.c06 import KINDS
from terms import *

PATH = os.path.join(os.path.dirname(os.path.abspath(__file__)), "ref", "conversions.json")
FORMATS = ("hlpb", "modl", "matl", "skel", "meshex", "adj")
UNSTABLE = ("lv", "lvx", "lx", "trip", "brk")


def loops_out(ts):
    """the terms with the names of loops replaced by their order of appearance"""
    found = {x for t in ts for x in subterms(t) if x.op in UNSTABLE}
    m = {t: mk("loop", t.op, n) for n, t in enumerate(sorted(found, key=lambda t: (t.op, t.a[0] if isinstance(t.a[0], int) else -1, t.id)))}
    return [subst(t, m) for t in ts]


def dump(p, ts):
    out, idx = [], {}

    def enc(a):
        if isinstance(a, T):
            return ["T", go(a)]
        if isinstance(a, tuple):
            return ["L", [enc(x) for x in a]]
        return a

    def go(t):
        if t in idx:
            return idx[t]
        if t.op == "adt":
            a = [["type", p.types[t.a[0]]["s"]], t.a[1]] + [enc(x) for x in t.a[2:]]
        else:
            a = [enc(x) for x in t.a]
        out.append([t.op, a])
        idx[t] = len(out) - 1
        return idx[t]
    roots = [go(t) for t in ts]
    return {"terms": out, "roots": roots}


class Unreadable(Exception):
    pass


def load(p, d):
    names = {}
    for i, t in enumerate(p.types):
        names.setdefault(t["s"], i)
    done = []

    def dec(a):
        if isinstance(a, list):
            if a[0] == "T":
                return done[a[1]]
            if a[0] == "type":
                if a[1] not in names:
                    raise Unreadable("type " + a[1] + " is gone")
                return names[a[1]]
            return tuple(dec(x) for x in a[1])
        return a
    for op, a in d["terms"]:
        a = [dec(x) for x in a]
        if op == "g" and a[0].op == "le0":
            # which of x <= 0 and its opposite is written depends on the order of terms
            kids = dict(a[1])
            t = ite(le0(a[0].a[0]), kids.get(1, a[2]), kids.get(0, a[2]))
        elif op == "g" and a[0].op in ("eq", "lin"):
            t = a[2]
            for v, y in a[1]:
                c = eq(a[0], I(v)) if a[0].op == "lin" else eq(*a[0].a) if v else NOT(eq(*a[0].a))
                t = ite(c, y, t)
        elif op == "mul":
            t = a[0]
            for y in a[1:]:
                t = mul(t, y)
        elif op in ("and", "or", "xor", "feq"):
            t = mk(op, *sorted(a, key=lambda z: z.id))
        elif op == "g":
            t = mux(a[0], list(a[1]), a[2])
        elif op == "lin":
            t = mk_lin(a[0], dict(a[1]))
        elif op in ("le0",):
            t = mk(op, *a)
        elif op in ("cat", "min"):
            t = seqs.rebuild(op, tuple(a)) if op == "cat" else mk("min", *sorted(a, key=lambda z: z.id))
        else:
            t = mk(op, *a)
        done.append(t)
    return [done[r] for r in d["roots"]]


def fns(c, k):
    T_ = KINDS[k]
    yield "data to file", c.one(rf"From<&ssbh_data::{k}_data::{T_}Data> for .*::{T_}>::(try_)?from$")
    yield "file to data", c.one(rf"^<ssbh_data::{k}_data::{T_}Data as std::convert::(Try)?From<&ssbh_lib::prelude::{T_}>>::(try_)?from$")


def summary(c, f):
    v, ok, it, er = c.run(f, [sym("x")])
    n = seqs.Norm().norm
    v, ok = loops_out([n(v), ok])
    return v, ok, it


def result_type(p, f):
    rt = f.locals[0]
    return p.types[rt]["args"][0] if p.types[rt].get("path", "").endswith("result::Result") else rt


if __name__ == "__main__":
    import gc
    gc.disable()
    sys.setrecursionlimit(20000)
    import extract
    from load import Program
    TM.COUNT_MAX = (1 << 32) - 1
    IN.CLOSE_OTHERS = True
    p = Program(extract.extract()["mono"])
    c = conv.Conv(p)
    ref = {}
    for k in FORMATS:
        for way, f in fns(c, k):
            v, ok, it = summary(c, f)
            ref[f"{k}: {way}"] = dump(p, [v, ok])
            print(k, way, len(subterms(v)), [t.op for t in subterms(v) if t.op == "loop"])
    with open(PATH, "w") as fh:
        json.dump(ref, fh, separators=(",", ":"))
