"""Order facts between stream positions: lower bounds through data pointers, round-ups, loops."""
from terms import *
import terms as TM
from layout import P0, D0


class Order:
    def __init__(self, lv, facts=(), trips=None, size=None):
        self.lv = lv                # loop-carried value -> (initial, update)
        self.facts = facts          # terms f known to be <= 0
        self.trips = trips or {}
        self.size = size            # (type name, value) -> size term
        self.memo = {}
        self.busy = set()
        self.box = {}               # atom -> interval known from single-atom facts
        for f in self.facts:
            if f.op == "g":
                continue
            c, m = lin_parts(f)
            if len(m) == 1:
                (a, k), = m.items()
                lo, hi = self.box.get(a) or TM.rng(a)
                if k > 0:
                    b = (-c) // k
                    hi = b if hi is None else min(hi, b)
                else:
                    b = -(-c // -k)
                    lo = b if lo is None else max(lo, b)
                self.box[a] = (lo, hi)

    def ge(self, a, b):
        return self.ge0(sub(a, b))

    def ge0(self, d, depth=0):
        k = (d, depth > 8)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = False
        r = self._ge0(d, depth)
        self.memo[k] = r
        return r

    def _ge0(self, d, depth):
        if d is BOT:
            return True
        if d.op == "g":
            at = d.a[0]
            for v, x in d.a[1]:
                if not self.under(at, v, x, depth):
                    return False
            return self.under(at, None, d.a[2], depth, [v for v, _ in d.a[1]])
        lo, hi = TM.rng(d)
        if lo is not None and lo >= 0:
            return True
        if depth > 8:
            return False
        c, m = lin_parts(d)
        if self.box:
            t = c
            for a, k in m.items():
                lo, hi = self.box.get(a) or TM.rng(a)
                b = lo if k > 0 else hi
                if b is None:
                    break
                t += k * b
            else:
                if t >= 0:
                    return True
        # atoms that have a lower (upper) bound as terms
        for a, k in m.items():
            for b, up in self.bounds(a, k > 0):
                # a >= b (k > 0) or a <= b (k < 0)
                if self.ge0(add(d, scale(sub(b, a), k)), depth + 1):
                    return True
        for f in self.facts:
            if any(x in m for x in lin_parts(f)[1]):
                if self.ge0(add(d, f), depth + 3):
                    return True
        return False

    def under(self, at, v, x, depth, others=()):
        if x is BOT:
            return True
        if at.op in ("len", "sym", "cast") and v is not None:
            fs = [subst(f, {at: I(v)}) for f in self.facts]
            if any(f.op == "int" and f.a[0] > 0 for f in fs):
                return True
            o = Order(self.lv, tuple(fs), self.trips, self.size)
            o.busy = self.busy
            return o.ge0(subst(x, {at: I(v)}), depth)
        if at.op == "le0":
            f = None
            if v == 1 or (v is None and 0 in others):
                f = at.a[0]
            elif v == 0 or (v is None and 1 in others):
                f = sub(I(1), at.a[0])
            if f is not None:
                if f.op == "int" and f.a[0] > 0:
                    return True
                o = Order(self.lv, tuple(self.facts) + (f,), self.trips, self.size)
                o.busy = self.busy
                return o.ge0(x, depth)
        return self.ge0(x, depth)

    def bounds(self, a, lower):
        e = extreme(a)
        if e is not None:
            # minimum <= every element <= maximum of the same sequence
            which, seq = e
            if lower and which == "max":
                yield mk("fld", mk("it_min", seq), "Some.0"), True
            elif not lower and which == "min":
                yield mk("fld", mk("it_max", seq), "Some.0"), True
        elif a.op == "elem":
            yield mk("fld", mk("it_min" if lower else "it_max", a.a[0]), "Some.0"), True
        if lower:
            if a.op == "dpo":
                tn, x, pos, dp = a.a
                yield dp, True
                s = self.size(tn, x) if self.size else None
                if s is not None:
                    yield add(pos, s), True
            elif a.op in ("lv", "lvx") and a in self.lv and a not in self.busy:
                i0, u = self.lv[a]
                base = a if a.op == "lv" else mk("lv", *a.a)
                self.busy.add(a)
                ok = self.ge0(dist1(lambda x: sub(x, base), u), 2)
                self.busy.discard(a)
                if ok:
                    yield i0, True
            elif a.op == "fold":
                n, i0, b, k = a.a
                acc = mk("acc", k)
                if self.ge0(dist1(lambda x: sub(x, acc), b), 2):
                    yield i0, True
        else:
            if a.op == "idx" and a in self.trips:
                yield sub(self.trips[a], I(1)), True


def extreme(a):
    if a.op == "fld" and a.a[1] == "Some.0" and a.a[0].op in ("it_min", "it_max") and len(a.a[0].a) == 1:
        return a.a[0].op[3:], a.a[0].a[0]
    return None
