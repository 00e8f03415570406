"""Hash-consed value-flow terms with linear integer arithmetic and decision diagrams.

A term stands for every value an expression can take.  Decision nodes ('g') are multi-way decision
diagrams over atoms (discriminants, comparisons), ordered by atom id, so equal functions of the same
atoms are the same object.  Nothing here executes the program: atoms are never given values.
"""
import itertools


class T:
    __slots__ = ("op", "a", "id", "_p")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_ids = itertools.count(1)


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = next(_ids)
        t._p = None
        _tab[k] = t
    return t


def I(n):
    return mk("int", n)


TRUE = I(1)
FALSE = I(0)
BOT = mk("bot")
UNIT = mk("tup")


def S(s):
    return mk("str", s)


def sym(*n):
    return mk("sym", *n)


# ------------------------------------------------------------- linear integers
def lin_parts(t):
    """(const, {atom: coeff})"""
    if t.op == "int":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mk_lin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk("lin", c, tuple(sorted(d.items(), key=lambda x: x[0].id)))


def add(a, b):
    if a.op == "g" or b.op == "g":
        return dist2(add, a, b)
    c1, d1 = lin_parts(a)
    c2, d2 = lin_parts(b)
    for k, v in d2.items():
        d1[k] = d1.get(k, 0) + v
    return mk_lin(c1 + c2, d1)


def scale(a, n):
    if a.op == "g":
        return dist1(lambda x: scale(x, n), a)
    c, d = lin_parts(a)
    return mk_lin(c * n, {k: v * n for k, v in d.items()})


def sub(a, b):
    return add(a, scale(b, -1))


def mul(a, b):
    if a.op == "int":
        return scale(b, a.a[0])
    if b.op == "int":
        return scale(a, b.a[0])
    if a.op == "g" or b.op == "g":
        return dist2(mul, a, b)
    if a.op == "lin" and len(a.a[1]) <= 4:
        r = scale(b, a.a[0])
        for k, v in a.a[1]:
            r = add(r, scale(mul(k, b), v))
        return r
    if b.op == "lin" and len(b.a[1]) <= 4:
        return mul(b, a)
    fs = []
    for x in (a, b):
        fs += list(x.a) if x.op == "mul" else [x]
    return mk("mul", *sorted(fs, key=lambda x: x.id))


# ------------------------------------------------------------- decision diagrams
# ('g', atom, ((val, t), ...), default-or-BOT)
DOM = {}   # atom -> finite tuple of its possible values
DOM_MAX = 24


LIN_TABLES = False
_at_memo = {}


def _at(t, atom, v):
    """t, a table of numbers, at atom = v"""
    k = (t, atom, v)
    r = _at_memo.get(k)
    if r is None:
        r = _at_memo[k] = dist1(lambda x: subst1(x, atom, v), t)
    return r


def node(atom, kids, default):
    dom = DOM.get(atom)
    if dom is not None:
        if default is not BOT:
            have = {v for v, _ in kids}
            kids = tuple(kids) + tuple((v, default) for v in dom if v not in have)
            default = BOT
        if len(dom) > DOM_MAX and len(kids) == len(dom):
            # canonical form for a large enumeration: the most frequent leaf is the default
            cnt = {}
            for _, t in kids:
                cnt[t] = cnt.get(t, 0) + 1
            cnt.pop(BOT, None)
            if cnt:
                default = max(cnt, key=lambda t: (cnt[t], -t.id))
                kids = tuple((v, t) for v, t in kids if t is not default)
    vals = [t for _, t in kids if t is not BOT]
    if default is not BOT:
        vals.append(default)
    if not vals:
        return BOT
    f = vals[0]
    if all(v is f for v in vals):
        return f
    if default is not BOT:
        kids = tuple((v, t) for v, t in kids if t is not default)
        if atom.op == "rem" and len(kids) == 1 and kids[0][0] == 0 and atom.a[1].op == "int" and atom.a[1].a[0] > 1 and default.op == "lin" \
                and kids[0][1] is atom.a[0] and add(default, atom) is add(atom.a[0], atom.a[1]):
            lo = rng(atom.a[0])[0]
            if lo is not None and lo >= 0:
                # the next multiple of n
                n = atom.a[1]
                return mul(n, REBUILD["div"](add(atom.a[0], I(n.a[0] - 1)), n))
        if default.op == "lin" or default.op == "mul" or default is atom:
            kids = tuple((v, t) for v, t in kids if t.op not in ("int", "lin") or subst1(default, atom, v) is not t)
            if not kids:
                return default
        elif default.op == "g" and LIN_TABLES and len(kids) == 1 and kids[0][1].op == "g" and _at(default, atom, kids[0][0]) is kids[0][1]:
            return default
    else:
        kids = tuple((v, t) for v, t in kids if t is not BOT)
    return mk("g", atom, tuple(sorted(kids, key=lambda x: x[0])), default)


def subst1(t, atom, v):
    if t is atom:
        return I(v)
    if t.op == "lin":
        r = I(t.a[0])
        for k, c in t.a[1]:
            r = add(r, scale(subst1(k, atom, v), c))
        return r
    if t.op == "mul":
        r = I(1)
        for k in t.a:
            r = mul(r, subst1(k, atom, v))
        return r
    return t


def is_val(atom, v):
    """condition atom == v"""
    return node(atom, ((v, TRUE),), FALSE)


def not_vals(atom, vs):
    return node(atom, tuple((v, FALSE) for v in vs), TRUE)


def _top(*ts):
    m = None
    for t in ts:
        if t.op == "g" and (m is None or t.a[0].id < m.id):
            m = t.a[0]
    return m


def _cof(t, atom, v):
    """cofactor of t at atom == v (v None: any value not listed)"""
    if t.op == "g" and t.a[0] is atom:
        if v is not None:
            for k, x in t.a[1]:
                if k == v:
                    return x
        return t.a[2]
    return t


_ite = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c is BOT:
        return BOT
    if a is b:
        return a
    if a is BOT:
        return b
    if b is BOT:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c, a, b)
    r = _ite.get(k)
    if r is not None:
        return r
    if a.op == b.op and a.op in ("adt", "tup", "arr", "clo", "it", "wr", "rd", "ptr") and len(a.a) == len(b.a) and _sameshape(a, b):
        r = mk(a.op, *[ite(c, x, y) if isinstance(x, T) else x for x, y in zip(a.a, b.a)])
        _ite[k] = r
        return r
    atom = _top(c, a, b)
    vals = set()
    for t in (c, a, b):
        if t.op == "g" and t.a[0] is atom:
            vals |= {v for v, _ in t.a[1]}
    kids = tuple((v, ite(_cof(c, atom, v), _cof(a, atom, v), _cof(b, atom, v))) for v in sorted(vals))
    d = ite(_cof(c, atom, None), _cof(a, atom, None), _cof(b, atom, None))
    r = node(atom, kids, d)
    _ite[k] = r
    return r


def _sameshape(a, b):
    for x, y in zip(a.a, b.a):
        if isinstance(x, T) != isinstance(y, T):
            return False
        if not isinstance(x, T) and x != y:
            return False
    return True


def NOT(c):
    return ite(c, FALSE, TRUE)


def AND(a, b):
    return ite(a, b, FALSE)


def OR(a, b):
    return ite(a, TRUE, b)


_d1 = {}


def dist1(f, t):
    """apply f to the leaves of a decision diagram (f must build non-'g' or 'g' terms)"""
    if t.op != "g":
        return f(t) if t is not BOT else BOT
    memo = {}

    def go(x):
        if x is BOT:
            return BOT
        if x.op != "g":
            return f(x)
        r = memo.get(x)
        if r is None:
            r = BOT
            atom = x.a[0]
            kids = [(v, go(y)) for v, y in x.a[1]]
            d = go(x.a[2])
            r = mux(atom, kids, d)
            memo[x] = r
        return r

    return go(t)


def mux(atom, kids, d):
    """general node builder: children may test atoms that come earlier in the order"""
    if all(x.op != "g" or x.a[0].id > atom.id for _, x in kids) and (d.op != "g" or d.a[0].id > atom.id):
        kids = list(kids)
        shapes = [x for _, x in kids if x is not BOT] + ([d] if d is not BOT else [])
        if shapes and shapes[0].op in ("adt", "tup", "ptr", "it", "wr", "rd", "clo", "arr") and len(set(shapes)) > 1:
            f = shapes[0]
            if all(x.op == f.op and len(x.a) == len(f.a) and _sameshape(f, x) for x in shapes):
                n = len(f.a)
                out = []
                for i in range(n):
                    if isinstance(f.a[i], T):
                        out.append(mux(atom, [(v, x.a[i] if x is not BOT else BOT) for v, x in kids], d.a[i] if d is not BOT else BOT))
                    else:
                        out.append(f.a[i])
                return mk(f.op, *out)
        return node(atom, tuple(kids), d)
    r = d
    for v, x in kids:
        c = is_val(atom, v)
        r = ite(c, x, r)
    return r


def dist2(f, a, b):
    if a.op == "g":
        return dist1(lambda x: dist2(f, x, b), a) if b.op != "g" else dist1(lambda x: dist1(lambda y: f(x, y), b), a)
    if b.op == "g":
        return dist1(lambda y: f(a, y), b)
    return f(a, b)


def test(t, v):
    """condition: t == v (v an int)"""
    def leaf(x):
        if x.op == "int":
            return TRUE if x.a[0] == v else FALSE
        return eq(x, I(v))
    return dist1(leaf, t)


def boolnode(atom):
    return node(atom, ((0, FALSE),), TRUE)


# ranges of atoms: filled by the interpreter from types; used to decide comparisons
RANGE = {}


COUNT_MAX = 1 << 48   # no collection is longer


def set_range(t, lo, hi):
    if t.op in ("int", "g"):
        return
    o = RANGE.get(t)
    if o is None:
        RANGE[t] = (lo, hi)


def elem_rng(s, depth):
    """interval of every element of a sequence of integers"""
    if depth > 6:
        return None
    if s.op == "comp":
        return rng(s.a[1])
    if s.op in ("cat", "arr", "g"):
        ps = [x for x in ([y for _, y in s.a[1]] + [s.a[2]] if s.op == "g" else s.a) if x is not BOT]
        rs = [rng(x) if s.op == "arr" else elem_rng(x, depth + 1) for x in ps]
        if not rs or None in rs:
            return None
        los, his = [l for l, _ in rs], [h for _, h in rs]
        return (None if None in los else min(los)), (None if None in his else max(his))
    return None


def rng(t):
    """sound interval of an integer term; None = unbounded side"""
    if t.op == "int":
        return t.a[0], t.a[0]
    r = RANGE.get(t)
    if t.op == "lin":
        lo = hi = t.a[0]
        for k, v in t.a[1]:
            if k.op == "div" and k.a[1].op == "int" and k.a[1].a[0] > 1 and v % k.a[1].a[0] == 0:
                # k*div(a,k) lies in [a-k+1, a]
                q = k.a[1].a[0]
                la, _ = rng(k.a[0])
                if la is not None and la >= 0:
                    c = v // q
                    base = add(sub(t, scale(k, v)), scale(k.a[0], c))
                    bl, bh = rng(base)
                    e1, e2 = (-c * (q - 1), 0) if c > 0 else (0, -c * (q - 1))
                    xl, xh = (None if bl is None else bl + e1), (None if bh is None else bh + e2)
                    r = (xl, xh) if r is None else (xl if r[0] is None else r[0] if xl is None else max(r[0], xl),
                                                    xh if r[1] is None else r[1] if xh is None else min(r[1], xh))
            a, b = rng(k)
            if v < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + v * a
            hi = None if hi is None or b is None else hi + v * b
        if r:
            lo = r[0] if lo is None else (lo if r[0] is None else max(lo, r[0]))
            hi = r[1] if hi is None else (hi if r[1] is None else min(hi, r[1]))
        return lo, hi
    if t.op == "elem":
        e = elem_rng(t.a[0], 0)
        if e is not None:
            if r is None:
                return e
            return (e[0] if r[0] is None else r[0] if e[0] is None else max(e[0], r[0])), (e[1] if r[1] is None else r[1] if e[1] is None else min(e[1], r[1]))
    if t.op in ("len", "idx", "bv", "trip", "end"):
        return (0, COUNT_MAX) if not r or r[1] is None or r[1] > COUNT_MAX else r
    if r:
        return r
    if t.op == "g":
        los, his = [], []
        for x in [y for _, y in t.a[1]] + [t.a[2]]:
            if x is BOT:
                continue
            a, b = rng(x)
            los.append(a)
            his.append(b)
        return (None if None in los or not los else min(los)), (None if None in his or not his else max(his))
    if t.op == "mul":
        rs = [rng(x) for x in t.a]
        if all(l is not None and l >= 0 for l, _ in rs):
            lo = 1
            hi = 1
            for l, h in rs:
                lo *= l
                hi = None if hi is None or h is None else hi * h
            return lo, hi
    if t.op == "div" and t.a[1].op == "int" and t.a[1].a[0] > 0:
        l, h = rng(t.a[0])
        if l is not None and l >= 0:
            return l // t.a[1].a[0], (None if h is None else h // t.a[1].a[0])
    if t.op == "rem" and t.a[1].op == "int" and t.a[1].a[0] > 0:
        l, h = rng(t.a[0])
        if l is not None and l >= 0:
            return 0, (t.a[1].a[0] - 1 if h is None else min(h, t.a[1].a[0] - 1))
    if t.op == "rem":
        l, h = rng(t.a[0])
        if l is not None and l >= 0:
            return 0, h
    if t.op == "shl" and isinstance(t.a[2], str) and t.a[2][0] == "u" and t.a[2][1:].isdigit():
        # the amount is taken modulo the width, so a one bit stays a one bit
        return (1 if t.a[0].op == "int" and t.a[0].a[0] == 1 else 0), (1 << int(t.a[2][1:])) - 1
    if t.op == "min":
        rs = [rng(x) for x in t.a]
        los = [l for l, _ in rs]
        his = [h for _, h in rs if h is not None]
        return (None if None in los else min(los)), (min(his) if his else None)
    if t.op == "max":
        rs = [rng(x) for x in t.a]
        los = [l for l, _ in rs if l is not None]
        his = [h for _, h in rs]
        return (max(los) if los else None), (None if None in his else max(his))
    if t.op == "and":
        hs = [rng(x)[1] for x in t.a if rng(x)[0] is not None and rng(x)[0] >= 0]
        hs = [h for h in hs if h is not None]
        if hs:
            return 0, min(hs)
    if t.op == "shr" and t.a[1].op == "int":
        l, h = rng(t.a[0])
        if l is not None and l >= 0:
            return l >> t.a[1].a[0], (None if h is None else h >> t.a[1].a[0])
    return None, None


def le0(t):
    """condition t <= 0"""
    if t.op == "g":
        return dist1(le0, t)
    if t.op == "int":
        return TRUE if t.a[0] <= 0 else FALSE
    lo, hi = rng(t)
    if hi is not None and hi <= 0:
        return TRUE
    if lo is not None and lo > 0:
        return FALSE
    c, d = lin_parts(t)
    import math
    g = 0
    for v in d.values():
        g = math.gcd(g, v)
    if g > 1:
        # sum + c <= 0  <=>  sum/g <= floor(-c/g)
        c = -((-c) // g)
        d = {k: v // g for k, v in d.items()}
    first = min(d, key=lambda k: k.id)
    # natural unsigned zero tests become value tests
    if len(d) == 1:
        k = first
        v = d[k]
        lo, hi = rng(k)
        if v == 1 and lo is not None and -c == lo:          # k <= lo  <=> k == lo
            return eq(k, I(lo))
        if v == -1 and lo is not None and c == lo + 1:      # k >= lo+1 <=> k != lo
            return NOT(eq(k, I(lo)))
    if d[first] > 0:
        return boolnode(mk("le0", mk_lin(c, d)))
    n = mk_lin(1 - c, {k: -v for k, v in d.items()})
    return NOT(boolnode(mk("le0", n)))


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return le0(add(sub(a, b), I(1)))


_const_ops = ("int", "str", "float")


def is_const(t):
    if t.op in _const_ops:
        return True
    if t.op in ("tup", "arr"):
        return all(is_const(x) for x in t.a)
    if t.op == "adt":
        return all(is_const(x) for x in t.a[2:])
    return False


def eq(a, b, ints=True):
    if a is b:
        return TRUE
    if a.op == "g" or b.op == "g":
        return dist2(eq, a, b)
    if is_const(a) and is_const(b):
        return FALSE
    if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        r = TRUE
        for x, y in zip(a.a[2:], b.a[2:]):
            r = AND(r, eq(x, y))
        return r
    if a.op in ("tup", "arr") and b.op == a.op and len(a.a) == len(b.a):
        r = TRUE
        for x, y in zip(a.a, b.a):
            r = AND(r, eq(x, y))
        return r
    if a.op in ("int", "lin") or b.op in ("int", "lin"):
        d = sub(a, b)
        c, p = lin_parts(d)
        if not p:
            return TRUE if c == 0 else FALSE
        if len(p) == 1:
            (k, v), = p.items()
            if c % v:
                return FALSE
            n = -c // v
            lo, hi = rng(k)
            if (lo is not None and n < lo) or (hi is not None and n > hi):
                return FALSE
            return is_val(k, n)
        lo, hi = rng(d)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return FALSE
        f = min(p, key=lambda k: k.id)
        if p[f] < 0:
            d = scale(d, -1)
        return is_val(d, 0)
    x, y = (a, b) if a.id < b.id else (b, a)
    return boolnode(mk("eq", x, y))


def constrain(t, pc):
    """simplify the top-level decisions of t that pc decides"""
    if t.op != "g" or pc is TRUE:
        return t
    memo = {}

    def go(x, p):
        if p is FALSE or p is BOT:
            return BOT
        if x.op != "g" or p is TRUE:
            return x
        k = (x, p)
        r = memo.get(k)
        if r is not None:
            return r
        ax, ap = x.a[0], (p.a[0] if p.op == "g" else None)
        if ap is not None and ap.id < ax.id:
            # quantify: all branches of p that are possible
            rs = []
            for v, q in p.a[1]:
                z = go(x, q)
                if z is not BOT:
                    rs.append((v, z))
            d = go(x, p.a[2])
            vals = [z for _, z in rs] + ([d] if d is not BOT else [])
            if not vals:
                r = BOT
            elif all(z is vals[0] for z in vals):
                r = vals[0]
            else:
                r = x
        else:
            same = ap is ax
            kids = [(v, go(y, _cof(p, ax, v) if same else p)) for v, y in x.a[1]]
            extra = []
            if same:
                have = {v for v, _ in x.a[1]}
                for v, q in p.a[1]:
                    if v not in have:
                        kids.append((v, go(x.a[2], q)))
            d = go(x.a[2], p.a[2] if same else p)
            if not [1 for _, z in kids if z is not BOT] and d is BOT:
                r = BOT
            else:
                r = mux(ax, kids, d)
        memo[k] = r
        return r

    r = go(t, pc)
    return t if r is BOT else r


def pin(t, pc):
    """t, or the constant that pc forces it to be"""
    if t.op == "g" and all(x.op == "int" and x.a[0] == v for v, x in t.a[1]):
        dom = DOM.get(t.a[0])
        if t.a[2] is BOT and dom is not None and set(v for v, _ in t.a[1]) == set(dom):
            return t.a[0]        # a table that maps every value to itself
        if t.a[2] is t.a[0]:
            return t.a[0]
        if dom is not None and t.a[2].op == "int" and set(dom) - set(v for v, _ in t.a[1]) == {t.a[2].a[0]}:
            return t.a[0]
    if t.op in ("int", "g", "bot") or pc.op != "g":
        return t
    vals = set()
    seen = set()
    st = [pc]
    while st:
        x = st.pop()
        if x in seen or x.op != "g":
            continue
        seen.add(x)
        if x.a[0] is t:
            vals |= {v for v, _ in x.a[1]}
        st += [y for _, y in x.a[1]] + [x.a[2]]
    for v in vals:
        n = AND(pc, NOT(is_val(t, v)))
        if n is FALSE or n is BOT:
            return I(v)
    return t


def exists_or(pc, atom):
    """forget an atom"""
    if pc.op != "g":
        return pc
    if pc.a[0] is atom:
        r = FALSE
        for _, x in pc.a[1]:
            r = OR(r, x) if x is not BOT else r
        return OR(r, pc.a[2]) if pc.a[2] is not BOT else r
    if pc.a[0].id > atom.id:
        return pc
    return mux(pc.a[0], [(v, exists_or(x, atom)) for v, x in pc.a[1]], exists_or(pc.a[2], atom))


def atoms(t, acc=None, seen=None):
    """decision atoms of a diagram"""
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    if t.op != "g" or t in seen:
        return acc
    seen.add(t)
    if t.a[0] not in acc:
        acc.append(t.a[0])
    for _, x in t.a[1]:
        atoms(x, acc, seen)
    atoms(t.a[2], acc, seen)
    return acc


def leaves(t, acc=None, seen=None):
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    if t in seen or t is BOT:
        return acc
    seen.add(t)
    if t.op != "g":
        if t not in acc:
            acc.append(t)
        return acc
    for _, x in t.a[1]:
        leaves(x, acc, seen)
    leaves(t.a[2], acc, seen)
    return acc


def cases(t, pc=None, pre=()):
    """[(assignment tuple of (atom, val|('not', vals)), leaf)]"""
    if t is BOT:
        return []
    if t.op != "g":
        return [(pre, t)]
    out = []
    for v, x in t.a[1]:
        out += cases(x, None, pre + ((t.a[0], v),))
    if t.a[2] is not BOT:
        out += cases(t.a[2], None, pre + ((t.a[0], ("not",) + tuple(v for v, _ in t.a[1])),))
    return out


def subst(t, m, memo=None):
    """replace terms by terms everywhere (rebuilding arithmetic and diagrams)"""
    memo = {} if memo is None else memo

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ("int", "str", "float", "bot", "sym"):
            r = x
        elif x.op == "lin":
            r = I(x.a[0])
            for k, v in x.a[1]:
                r = add(r, scale(go(k), v))
        elif x.op == "mul":
            r = go(x.a[0])
            for y in x.a[1:]:
                r = mul(r, go(y))
        elif x.op == "g":
            at = x.a[0]
            nat = go(at)
            kids = [(v, go(y)) for v, y in x.a[1]]
            d = go(x.a[2])
            if nat is at:
                r = mux(at, kids, d)
            elif at.op == "le0":
                c = le0(go(at.a[0]))
                z = dict(kids).get(0, d)
                o = d if 0 in dict(kids) else dict(kids).get(1, d)
                r = ite(c, o, z)
            elif at.op == "eq":
                c = eq(go(at.a[0]), go(at.a[1]))
                z = dict(kids).get(0, d)
                o = d if 0 in dict(kids) else dict(kids).get(1, d)
                r = ite(c, o, z)
            else:
                r = d
                for v, y in kids:
                    r = ite(test(nat, v), y, r)
        elif x.op == "le0":
            r = mk("le0", go(x.a[0]))
        else:
            na = tuple(go(y) if isinstance(y, T) else y for y in x.a)
            r = x if na == x.a else rebuild(x.op, na)
        memo[x] = r
        return r

    return go(t)


def has_g(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = memo[t] = t.op == "g" or any(has_g(x) for x in kids_of(t))
    return r


def kids_of(t):
    if t.op == "lin":
        return [k for k, _ in t.a[1]]
    return [x for x in t.a if isinstance(x, T)]


def constrain_all(t, pc, memo):
    """constrain, also the diagrams inside operands"""
    r = memo.get(t)
    if r is not None:
        return r
    if not has_g(t):
        r = t
    elif t.op == "g":
        r = constrain(t, pc)
        if r.op != "g":
            r = constrain_all(r, pc, memo)
        else:
            r = map_leaves(r, lambda x: constrain_all(x, pc, memo))
    elif t.op == "lin":
        r = I(t.a[0])
        for k, v in t.a[1]:
            r = add(r, scale(constrain_all(k, pc, memo), v))
    elif t.op == "mul":
        r = constrain_all(t.a[0], pc, memo)
        for y in t.a[1:]:
            r = mul(r, constrain_all(y, pc, memo))
    else:
        na = tuple(constrain_all(x, pc, memo) if isinstance(x, T) else x for x in t.a)
        r = t if na == t.a else rebuild(t.op, na)
    memo[t] = r
    return r


def map_leaves(t, f, memo=None):
    memo = {} if memo is None else memo
    if t.op != "g":
        return f(t) if t is not BOT else t
    if t in memo:
        return memo[t]
    r = mux(t.a[0], [(v, map_leaves(x, f, memo)) for v, x in t.a[1]], map_leaves(t.a[2], f, memo))
    memo[t] = r
    return r


REBUILD = {}


def rebuild(op, a):
    f = REBUILD.get(op)
    return f(*a) if f else mk(op, *a)


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, T):
                        st.append(z)
                    elif isinstance(z, tuple):
                        st += [w for w in z if isinstance(w, T)]
    return seen


def occurs(x, t):
    return x in subterms(t)


# ------------------------------------------------------------- printing
PROG = None


def show(t, d=0):
    if d > 14:
        return "…"
    o, a = t.op, t.a
    f = lambda x: show(x, d + 1) if isinstance(x, T) else str(x)
    if o == "int":
        return str(a[0])
    if o == "str":
        return repr(a[0])
    if o == "float":
        return a[0] + "f"
    if o == "sym":
        return ":".join(map(str, a))
    if o == "lin":
        s = " + ".join((f"{v}*" if v != 1 else "") + f(k) for k, v in a[1])
        return f"({s} + {a[0]})" if a[0] else f"({s})"
    if o == "tup":
        return "(" + ", ".join(map(f, a)) + ")"
    if o == "adt":
        if PROG is not None:
            ty = PROG.types[a[0]]
            v = ty["variants"][a[1]]
            nm = ty["path"].split("::")[-1] + ("::" + v["n"] if ty["k"] == "enum" else "")
            fs = ", ".join(f"{v['f'][i][0]}: {f(x)}" if i < len(v["f"]) else f(x) for i, x in enumerate(a[2:]))
            return f"{nm}{{{fs}}}"
        return f"adt{a[:2]}{tuple(map(f, a[2:]))}"
    if o == "fld":
        return f"{f(a[0])}.{a[2] if len(a) > 2 else a[1]}"
    if o == "g":
        ks = "; ".join(f"{v}→{f(x)}" for v, x in a[1])
        return f"[{f(a[0])}: {ks}" + (f"; _→{f(a[2])}" if a[2] is not BOT else "") + "]"
    if o == "elem":
        return f"{f(a[0])}[{f(a[1])}]"
    if o == "le0":
        return f"{f(a[0])}≤0"
    if o == "discr":
        return f"#{f(a[0])}"
    return f"{o}({', '.join(map(f, a))})"
