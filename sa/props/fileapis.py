"""Shared by the checks of the file-level functions."""
import re
import limits
from fileapi import Api
from terms import *

SKIP_LIB = ()


def roots(p):
    """(module, format, operation) -> root function"""
    out = {}
    for f in p.fns:
        if f.crate != "sa_roots" or not f.blocks or f.closure:
            continue
        m = re.match(r"sa_roots::(roots_lib|roots_data)::(\w+?)_(read|write|from_file|write_to_file)$", f.path)
        if m:
            out[m.group(1)[6:], m.group(2), m.group(3)] = f
    return out


def flat_ev(evs):
    out = []
    for e in evs:
        out.append(e)
        if e.sub:
            out += flat_ev(e.sub)
    return out


def same_cond(a, b):
    return a is b or (AND(a, NOT(b)) is FALSE and AND(b, NOT(a)) is FALSE)


def assume(c, atom, v):
    """condition c given that the boolean atom has value v"""
    return subst1(c, atom, v) if c.op == "g" else c


def name(k):
    m, fmt, op = k
    return f"{'ssbh_lib' if m == 'lib' else 'ssbh_data'} {fmt} {op}"


class Runs:
    def __init__(self, ctx, rep):
        self.p = ctx.prog
        self.api = Api(self.p)
        self.roots = roots(self.p)
        self.rep = rep
        self._r = {}

    def get(self, k):
        if k not in self._r:
            f = self.roots.get(k)
            try:
                with limits.limit(150):
                    self._r[k] = self.api.run(f) if f else None
            except limits.TimeUp:
                self.rep.unknown(f"{name(k)}: the analysis did not finish in time")
                self._r[k] = None
            except Exception as e:
                self.rep.unknown(f"{name(k)}: {e!r}"[:300])
                self._r[k] = None
        return self._r[k]
