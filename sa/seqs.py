"""Normal form of sequence terms: concatenations of comprehensions.

    comp(n, body, k)   [body(b) for b < n]          flat(n, body, k)   body(0) ++ ... ++ body(n-1)
    positions(s, p)    the indices whose element satisfies p

Every rule is an identity on sequences; side conditions are decided by ranges and by equality of terms.
"""
from math import gcd

from terms import *
import terms as TM
import interp as IN
from interp import seq_elem, seq_len, seq_cat, mk_comp, close, max_bv

ARR0 = mk("arr")
_fresh = [0]


def fresh():
    _fresh[0] += 1
    return mk("idx", ("seqs", _fresh[0]))


class Norm:
    def __init__(self, below=None):
        """below: {index term: length it is known to be below}"""
        self.memo = {}
        self.below = below if below is not None else {}
        self.steps = 0

    def norm(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        self.steps += 1
        if self.steps > 200000:
            return t
        x = t
        if t.op == "g":
            at = self.norm(t.a[0])
            kids = [(v, self.norm(y)) for v, y in t.a[1]]
            d = self.norm(t.a[2])
            x = self.regate(t.a[0], at, kids, d)
        elif t.op == "lin":
            x = I(t.a[0])
            for k, v in t.a[1]:
                x = add(x, scale(self.norm(k), v))
        elif t.op == "le0":
            x = le0(self.norm(t.a[0]))
            if x.op == "g":
                y = self.bounded(x.a[0])
                if y is TRUE or y is FALSE:
                    x = dict(x.a[1]).get(y.a[0], x.a[2])
        elif t.op == "rep" and t.a[1].op != "int":
            k, (b,) = close(fresh(), self.norm(t.a[0]))
            x = mk("comp", self.norm(t.a[1]), b, k)
        elif t.op in ("flat", "comp", "sum"):
            n = self.norm(t.a[0])
            i = fresh()
            self.below[i] = n
            b = self.norm(subst(t.a[1], {mk("bv", t.a[2]): i}))
            k, (b,) = close(i, b)
            x = mk(t.op, n, b, k)
        elif t.op not in ("int", "str", "float", "bot", "sym", "idx", "bv"):
            na = tuple(self.norm(y) if isinstance(y, T) else y for y in t.a)
            x = t if na == t.a else rebuild(t.op, na)
        y = self.rules(x)
        if y is not x:
            y = self.norm(y)
        self.memo[t] = y
        return y

    def regate(self, old, at, kids, d):
        if at is old:
            return mux(at, kids, d)
        if old.op in ("le0", "eq") or at.op == "g" or at.op == "int":
            kd = dict(kids)
            if old.op in ("le0", "eq"):
                c = at if at.op in ("g", "int") else boolnode(at)
                return ite(c, kd.get(1, d), kd.get(0, d))
            r = d
            for v, y in kids:
                r = ite(test(at, v), y, r)
            return r
        return mux(at, kids, d)

    # ---------------------------------------------------------------- rules
    def rules(self, t):
        if t.op == "positions":
            s, p = t.a
            i = fresh()
            c = subst(p, {sym("arg", "positions"): seq_elem(s, i)})
            k, (b,) = close(i, ite(c, mk("arr", i), ARR0))
            return mk("flat", seq_len(s), b, k)
        if t.op == "len" and t.a[0].op in ("flat", "cat", "comp", "arr"):
            return self.length(t.a[0])
        if t.op == "flat":
            return self.flat(t)
        if t.op == "comp":
            return self.comp(t)
        if t.op == "sum":
            return self.sum(t)
        if t.op == "elem" and t.a[0].op == "flat":
            return self.flat_elem(t)
        return t

    def flat_elem(self, t):
        """element r of part i of a concatenation: its position is the total length of the parts before, plus r"""
        n, b, k = t.a[0].a
        c, d = lin_parts(t.a[1])
        for q, w in d.items():
            if w != 1 or q.op != "sum":
                continue
            i, sb, sk = q.a
            if self.below.get(i) is not n:
                continue
            L = self.norm(dist1(seq_len, subst(b, {mk("bv", k): i})))
            if self.norm(subst(sb, {mk("bv", sk): i})) is not L:
                continue
            r = sub(t.a[1], q)
            if self.below.get(r) is L:
                return seq_elem(subst(b, {mk("bv", k): i}), r)
        return t

    def bounded(self, t):
        """decide e <= 0 from the lengths indices are known to be below"""
        e = t.a[0]
        c, d = lin_parts(e)
        lo = hi = e
        for q, w in d.items():
            L = self.below.get(q)
            if L is not None:
                top = sub(L, I(1))
                if w < 0:
                    lo = subst(lo, {q: top})
                    hi = subst(hi, {q: I(0)})
                else:
                    hi = subst(hi, {q: top})
                    lo = subst(lo, {q: I(0)})
        if hi is not e and le0(hi) is TRUE:
            return TRUE
        if lo is not e and le0(lo) is FALSE:
            return FALSE
        # a total over all parts is at least the total before part i plus part i
        for q, w in d.items():
            if q.op == "sum" and rng(q.a[1])[0] is not None and rng(q.a[1])[0] >= 0:
                for i, n in list(self.below.items()):
                    if n is q.a[0] and (i in d or any(x.op == "sum" and x.a[0] is i for x in d)):
                        part = add(mk("sum", i, q.a[1], q.a[2]), self.norm(subst(q.a[1], {mk("bv", q.a[2]): i})))
                        z = le0(subst(e, {q: part}))
                        if w < 0 and z is TRUE or w > 0 and z is FALSE:
                            return z
        return t

    def length(self, s):
        if s.op == "flat":
            n, b, k = s.a
            return self.mksum(n, dist1(seq_len, b), k)
        if s.op == "cat":
            r = I(0)
            for x in s.a:
                r = add(r, self.length(x))
            return r
        return seq_len(s)

    def mksum(self, n, b, k):
        if mk("bv", k) not in subterms(b):
            return mul(n, b)
        return mk("sum", n, b, k)

    def sum(self, t):
        n, b, k = t.a
        if mk("bv", k) not in subterms(b):
            return mul(n, b)
        c, d = lin_parts(b)
        if b.op == "lin":
            g = gcd(c, *d.values())
            if g > 1:
                return scale(mk("sum", n, mk_lin(c // g, {q: w // g for q, w in d.items()}), k), g)
        r = self.point(n, b, k, I(0))
        if r is not None:
            return r
        c, d = lin_parts(n)
        if n.op == "lin" and 0 < c <= 4 and le0(mk_lin(0, {q: -w for q, w in d.items()})) is TRUE:
            m = mk_lin(0, d)
            r = mk("sum", m, b, k)
            for j in range(c):
                r = add(r, subst(b, {mk("bv", k): add(m, I(j))}))
            return r
        return t

    def fuse_over(self, n, b, k):
        """sequences indexed by the bound variable that span exactly its range"""
        v = mk("bv", k)
        out = []
        for x in subterms(b):
            if x.op == "elem" and x.a[1] is v and max_bv(x.a[0]) < k and seq_len_n(self, x.a[0]) is n:
                out.append(x)
        return out

    def flat(self, t):
        n, b, k = t.a
        v = mk("bv", k)
        if b is ARR0 or n is I(0):
            return ARR0
        if b.op == "arr" and len(b.a) == 1:
            i = fresh()
            return mk_comp(n, subst(b.a[0], {v: i}), i)
        if n.op == "int" and n.a[0] <= 16:
            return seq_cat(*[self.norm(subst(b, {v: I(j)})) for j in range(n.a[0])])
        # what is known about the index
        if has_g(b):
            b2 = self.inrange(b, v, n)
            if b2 is not b:
                return self.flat(mk("flat", n, b2, k))
        # an index range split in consecutive parts
        xs = self.fuse_over(n, b, k)
        for x in xs:
            if x.a[0].op == "cat":
                off, parts = I(0), []
                for p in x.a[0].a:
                    ln = self.norm(seq_len(p))
                    i = fresh()
                    m = {}
                    for y in xs:
                        m[y] = self.part(y.a[0], off, ln, i)
                    m[v] = add(off, i)
                    kk, (bb,) = close(i, subst(b, m))
                    parts.append(self.norm(mk("flat", ln, bb, kk)))
                    off = add(off, ln)
                return seq_cat(*parts)
        # an index range that is the concatenation of inner ranges
        for x in xs:
            if x.a[0].op == "flat":
                r = self.nest(n, b, k, x.a[0], xs)
                if r is not None:
                    return r
        # thresholds on the bound variable
        at = self.threshold(b, v)
        if at is not None:
            r = self.split(n, b, k, at)
            if r is not None:
                return r
        # only one index contributes
        r = self.point(n, b, k)
        if r is not None:
            return r
        # a body that is itself flat or a comprehension over a condition not depending on the inner index
        b2 = dist1(self.hoist, b)
        if b2 is not b:
            return mk("flat", n, b2, k)
        return t

    def inrange(self, b, v, n):
        m = {}
        for x in subterms(b):
            if x.op == "le0":
                c, d = lin_parts(x.a[0])
                if d.get(v) in (1, -1):
                    w = d[v]
                    rest = sub(x.a[0], scale(v, w))
                    if w == 1:
                        lo, hi = rest, add(rest, sub(n, I(1)))
                    else:
                        lo, hi = sub(rest, sub(n, I(1))), rest
                    if le0(hi) is TRUE:
                        m[x] = TRUE
                    elif le0(lo) is FALSE:
                        m[x] = FALSE
        return self.decide(b, m) if m else b

    def decide(self, t, m):
        """replace decided atoms of diagrams"""
        memo = {}

        def go(x):
            if x in memo:
                return memo[x]
            if x.op == "g":
                kd = dict(x.a[1])
                if x.a[0] in m:
                    r = go(kd.get(1, x.a[2]) if m[x.a[0]] is TRUE else kd.get(0, x.a[2]))
                else:
                    r = self.regate(x.a[0], go(x.a[0]), [(v, go(y)) for v, y in x.a[1]], go(x.a[2]))
            elif x.op == "lin":
                r = I(x.a[0])
                for k, v in x.a[1]:
                    r = add(r, scale(go(k), v))
            elif x.op in ("int", "str", "float", "bot", "sym", "idx", "bv"):
                r = x
            else:
                na = tuple(go(y) if isinstance(y, T) else y for y in x.a)
                r = x if na == x.a else rebuild(x.op, na)
            memo[x] = r
            return r
        return go(t)

    def hoist(self, b):
        """flat(m, c ? x : []) with c independent of the inner index"""
        if b.op == "flat":
            n, x, k = b.a
            v = mk("bv", k)
            if x.op == "g" and v not in subterms(x.a[0]):
                return mux(x.a[0], [(w, self.norm(mk("flat", n, y, k))) for w, y in x.a[1]], self.norm(mk("flat", n, x.a[2], k)))
        return b

    def part(self, s, off, ln, i):
        """element i of the part [off, off+ln) of s"""
        if s.op == "cat":
            o = I(0)
            for p in s.a:
                l = self.norm(seq_len(p))
                if o is off and l is ln:
                    return seq_elem(p, i)
                o = add(o, l)
        return seq_elem(s, add(off, i))

    def nest(self, n, b, k, s, xs):
        m_, ib, ik = s.a
        L = self.norm(dist1(seq_len, ib))
        o = fresh()
        v = mk("bv", k)
        obs = {}
        for y in xs:
            q = y.a[0]
            if q.op != "flat" or q.a[0] is not m_:
                return None
            ob = subst(q.a[1], {mk("bv", q.a[2]): o})
            if self.norm(dist1(seq_len, ob)) is not subst(L, {mk("bv", ik): o}):
                return None
            obs[y] = ob
        bad = []

        def leaf(w):
            if w.op == "arr":
                r = seq_cat(*[subst(b, {y: seq_elem(w if q is main else q, I(j)) for y, q in obs.items()}) for j in range(len(w.a))])
                if v in subterms(r):
                    bad.append(1)
                return r
            i = fresh()
            r = subst(b, {y: seq_elem(w if q is main else q, i) for y, q in obs.items()})
            if v in subterms(r):
                bad.append(1)
            kk, (ib2,) = close(i, r)
            return mk("flat", self.norm(seq_len(w)), ib2, kk)
        main = subst(s.a[1], {mk("bv", ik): o})
        inner = dist1(leaf, main)
        if bad:
            return None
        k2, (ob2,) = close(o, inner)
        return mk("flat", m_, ob2, k2)

    def threshold(self, b, v):
        if b.op != "g":
            return None
        at = b.a[0]
        if at.op == "le0":
            c, d = lin_parts(at.a[0])
            if d.get(v) in (1, -1) and not any(v in subterms(q) for q in d if q is not v):
                return at
        return None

    def split(self, n, b, k, at):
        c, d = lin_parts(at.a[0])
        v = mk("bv", k)
        rest = mk_lin(c, {q: w for q, w in d.items() if q is not v})
        if d[v] == 1:      # v + rest <= 0  iff  v < 1 - rest
            L = add(scale(rest, -1), I(1))
            lo, hi = 1, 0
        else:              # rest - v <= 0  iff  not v < rest
            L = rest
            lo, hi = 0, 1
        if le0(scale(L, -1)) is not TRUE or le0(sub(L, n)) is not TRUE:
            return None
        kd = dict(b.a[1])
        a, z = kd.get(lo, b.a[2]), kd.get(hi, b.a[2])
        i = fresh()
        k2, (z2,) = close(i, subst(z, {v: add(L, i)}))
        return seq_cat(self.norm(mk("flat", L, a, k)), self.norm(mk("flat", sub(n, L), z2, k2)))

    def point(self, n, b, k, none=ARR0):
        """[v == j ? x : []] for v < n with j known to be below n"""
        v = mk("bv", k)
        if b.op != "g" or b.a[0].op != "eq":
            return None
        d = sub(b.a[0].a[0], b.a[0].a[1])
        c, dd = lin_parts(d)
        if dd.get(v) not in (1, -1):
            return None
        j = mk_lin(c, {q: w for q, w in dd.items() if q is not v})
        if dd[v] == 1:
            j = scale(j, -1)
        if v in subterms(j) or self.norm(self.below.get(j, I(-1))) is not n:
            return None
        kd = dict(b.a[1])
        if kd.get(0, b.a[2]) is not none:
            return None
        return subst(kd.get(1, b.a[2]), {v: j})

    def comp(self, t):
        n, b, k = t.a
        v = mk("bv", k)
        xs = self.fuse_over(n, b, k)
        if any(x.a[0].op in ("cat", "flat") for x in xs):
            r = self.flat(mk("flat", n, mk("arr", b), k)) if False else self.comp_split(t, xs)
            if r is not None:
                return r
        if b.op == "elem" and b.a[1] is v and max_bv(b.a[0]) < k and seq_len_n(self, b.a[0]) is n:
            return b.a[0]
        at = self.threshold(b, v)
        if at is not None:
            c, d = lin_parts(at.a[0])
            bb = map_leaves(b, lambda x: mk("arr", x))
            r = self.split(n, bb, k, at)
            if r is not None:
                return r
        return t

    def comp_split(self, t, xs):
        n, b, k = t.a
        v = mk("bv", k)
        for x in xs:
            if x.a[0].op == "cat":
                off, parts = I(0), []
                for p in x.a[0].a:
                    ln = self.norm(seq_len(p))
                    i = fresh()
                    m = {y: self.part(y.a[0], off, ln, i) for y in xs}
                    m[v] = add(off, i)
                    parts.append(self.norm(mk_comp(ln, subst(b, m), i)))
                    off = add(off, ln)
                return seq_cat(*parts)
        for x in xs:
            if x.a[0].op == "flat":
                return self.nest(n, mk("arr", b), k, x.a[0], xs)
        return None


def seq_len_n(N, s):
    return N.norm(seq_len(s))


TM.REBUILD["text"] = lambda x: dist1(lambda y: y.a[0] if y.op == "sstr" else mk("text", y), x)
TM.REBUILD["hastext"] = lambda x: dist1(lambda y: I(1) if y.op == "sstr" else mk("hastext", y), x)
