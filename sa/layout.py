"""Byte-layout obligations: what a writer puts at each position against what the reader takes from there.

For every on-disk type the writer's summary is turned into a map position -> value ("memory").  The reader's
summary is then evaluated on that map: each of its reads is replaced by what the writer put at that position,
nested types by induction.  The claim per type is  read(write(v)) = v, in normal form, for every v.
"""
from terms import *
import terms as TM
import interp as IN
from interp import seq_elem, seq_len, constrain_deep
from conv import Same
from fmt import Codec, self_ti

BIG = 1 << 48
P0, D0 = sym("P0"), sym("D0")


def pos_atoms(t, acc):
    """decision atoms at the top of a term"""
    if t.op == "g":
        acc.add(t.a[0])
        for _, x in t.a[1]:
            pos_atoms(x, acc)
        pos_atoms(t.a[2], acc)


def top_atom(ts):
    m = None
    for t in ts:
        if t.op == "g" and (m is None or t.a[0].id < m.id):
            m = t.a[0]
    return m


class Regime:
    """one combination of the decisions that positions depend on"""

    def __init__(self, pc, m, desc):
        self.pc, self.m, self.desc = pc, m, desc
        self.memo = {}
        self.cm = {}

    def __call__(self, t):
        if self.pc is not TRUE:
            t = TM.constrain_all(t, self.pc, self.cm)
        if self.m:
            t = subst(t, self.m, self.memo)
            if self.pc is not TRUE:
                t = TM.constrain_all(t, self.pc, self.cm)
        return t


def is_eq(at, v, opts):
    return v == 0 and at.op == "lin" or at.op == "eq" and (v == 1 or v is None and tuple(opts) == (0,))


def eq_fact(at, m):
    """the substitution a decided equality x - y = 0 gives"""
    c, d = lin_parts(sub(at.a[0], at.a[1]) if at.op == "eq" else at)
    if c == 0 and len(d) == 2 and sorted(d.values()) == [-1, 1]:
        x, y = sorted(d, key=lambda t: t.id)
        m = dict(m)
        if y in m:
            x, y = y, x
        m[y] = m.get(x, x)
        if x.op == "cast" and y.op == "cast" and x.a[1].op == "len" and y.a[1].op == "len":
            m[y.a[1]] = m.get(x.a[1], x.a[1])
        return m
    return m


def regimes(terms, limit=4096, pc0=TRUE, m0=None):
    """enumerate assignments to the atoms that decide `terms`; facts D0 >= e become D0 := e + slack"""
    out = []

    def go(ts, pc, m, desc, n):
        ts = [t for t in ts if t.op == "g"]
        if not ts:
            out.append(Regime(pc, m, desc))
            if len(out) > limit:
                raise OverflowError("regimes")
            return
        at = top_atom(ts)
        vals = set()
        for t in ts:
            if t.a[0] is at:
                vals |= {v for v, _ in t.a[1]}
        opts = sorted(vals)
        hasdef = any(t.a[0] is at and t.a[2] is not BOT for t in ts)
        if TM.DOM.get(at):
            hasdef = hasdef and not set(TM.DOM[at]) <= set(opts)
        for v in opts + ([None] if hasdef else []):
            c = is_val(at, v) if v is not None else not_vals(at, opts)
            npc = AND(pc, c)
            if npc is FALSE or npc is BOT:
                continue
            nts = [constrain(t, c) for t in ts]
            m2 = m
            if at.op == "le0" and (v is None or v == 1):
                cst, d = lin_parts(at.a[0])
                if d.get(D0) == -1 and D0 not in m:
                    e = add(at.a[0], D0)          # e <= D0
                    s = sym("slack")
                    TM.RANGE.setdefault(s, (0, BIG))
                    m2 = dict(m)
                    m2[D0] = add(e, s)
                    nts = [subst(t, {D0: m2[D0]}) for t in nts]
            if v is not None and at.op == "len":
                m2 = dict(m2)
                m2[at] = I(v)
            if v is not None and at.op == "cast" and at.a[1].op == "len" and v == 0:
                m2 = dict(m2)
                m2[at] = m2[at.a[1]] = I(0)
            if is_eq(at, v, opts):
                m2 = eq_fact(at, m2)
            go(nts, npc, m2, desc + ((at, v, tuple(opts)),), n)

    m0 = {k: subst(v, m0) for k, v in (m0 or {}).items()}
    r0 = Regime(pc0, m0, ())
    go([r0(t) for t in terms], pc0, dict(m0 or {}), (), 0)
    return out


class WEv:
    __slots__ = ("kind", "pos", "size", "val", "ty", "ti", "dp", "loop", "ev")

    def __init__(self, kind, pos, size, val, ty, ti=None, dp=None, loop=(), ev=None):
        self.kind, self.pos, self.size, self.val, self.ty, self.ti, self.dp, self.loop, self.ev = kind, pos, size, val, ty, ti, dp, loop, ev


def flat_events(evs, loop=(), pc=TRUE, out=None):
    out = [] if out is None else out
    for e in evs:
        p = AND(pc, e.pc) if e.pc is not TRUE else pc
        if e.kind in ("write", "wsub", "seek", "align"):
            out.append((p, e, loop))
        elif e.kind == "loop":
            out.append((p, e, loop))
            flat_events(e.sub, loop + ((e.d[0], e.d[1]),), p, out)
    return out


def subtypes(evs, kind, out=None):
    out = set() if out is None else out
    for e in evs:
        if e.kind == kind:
            out.add(e.d[1])
        if e.sub:
            subtypes(e.sub, kind, out)
    return out


class Layout:
    def __init__(self, prog):
        self.p = prog
        self.c = Codec(prog)
        self.ws_cache, self.rs_cache = {}, {}
        self.rt = {}
        self.fail = []           # (type name, regime, what, detail)
        self.stats = {"types": 0, "regimes": 0, "lookups": 0, "fields": 0, "files": 0}
        self.filesum = {}
        self.inlined = set()     # parts decided inside the type that holds them
        self.assume = set()
        self.pending = []

    def W(self, ti):
        if ti not in self.ws_cache:
            self.ws_cache[ti] = self.c.write_summary(ti)
        return self.ws_cache[ti]

    def R(self, ti):
        if ti not in self.rs_cache:
            self.rs_cache[ti] = self.c.read_summary(ti)
        return self.rs_cache[ti]

    def pair(self, ti):
        """summaries of writer and reader at the same granularity: a part only one side treats as a unit is opened up"""
        for _ in range(4):
            w, r = self.W(ti), self.R(ti)
            if w is None or r is None:
                return w, r
            wt, rt = subtypes(w.ev, "wsub"), subtypes(r.ev, "rsub")
            if wt == rt:
                break
            self.c.inline |= (wt ^ rt) - {ti}
            self.inlined |= self.c.inline
            try:
                if wt - rt:
                    self.ws_cache[ti] = self.c.write_summary(ti)
                if rt - wt:
                    self.rs_cache[ti] = self.c.read_summary(ti)
            finally:
                self.c.inline = set()
        return self.W(ti), self.R(ti)

    def wregimes(self, ti, facts=()):
        return self.regs(self.W(ti), facts)

    def regs(self, w, facts=()):
        if not hasattr(w, "regimes"):
            w.regimes = {}
        if facts in w.regimes:
            return w.regimes[facts]
        pc0, m0 = TRUE, {}
        for at, v, opts in facts:
            pc0 = AND(pc0, is_val(at, v) if v is not None else not_vals(at, opts))
            if v is not None and at.op == "len":
                m0[at] = I(v)
            if v == 0 and at.op == "cast" and at.a[1].op == "len":
                m0[at] = m0[at.a[1]] = I(0)
            if is_eq(at, v, opts):
                m0 = eq_fact(at, m0)
        fl = flat_events(w.ev)
        ts = [w.ok]
        for pc, e, lp in fl:
            if e.kind in ("write", "wsub"):
                pos = e.d[1] if e.kind == "write" else e.d[4]
                q = pc
                # the loop's own "not finished" test is implied inside it
                for k, n in lp:
                    q = drop_trip(q, k, n)
                ts += [q, pos]
                if e.kind == "wsub":
                    ts.append(e.d[5])
            elif e.kind in ("seek",):
                ts += [pc, e.d[1]]
        if w.dp is not None:
            ts.append(w.dp)
        ts = [t for t in ts if t.op == "g"]
        w.flat = fl
        out = w.regimes[facts] = []
        for r in regimes(ts, pc0=pc0, m0=m0):
            okr = r(w.ok)
            if okr is FALSE or okr is BOT:
                continue
            out.append(r)
        return out

    def mem(self, w, r):
        out = []
        for pc, e, lp in w.flat:
            q = pc
            for kk, n in lp:
                q = drop_trip(q, kk, n)
            q = r(q)
            if q is FALSE or q is BOT:
                continue
            lp2 = tuple((kk, r(n)) for kk, n in lp)
            if any(n is FALSE for _, n in lp2):
                continue
            if e.kind == "write":
                src, pos, size, val = e.d[:4]
                out.append(WEv("w", r(pos), r(size), r(val), None, loop=lp2, ev=e))
            elif e.kind == "wsub":
                tn, t2, x, src, pos, dp = e.d
                x = r(x)
                out.append(WEv("s", r(pos), r(self.c.size(t2, x)), x, tn, t2, r(dp), lp2, ev=e))
            elif e.kind == "seek":
                out.append(WEv("k", r(e.d[1]), None, None, None, loop=lp2, ev=e))
            elif e.kind == "loop":
                out.append(WEv("l", None, r(e.d[1]), e.d[0], None, loop=lp2, ev=e))
        return out

    def takes_args(self, ti):
        f = self.c.readers.get(ti)
        if f is None:
            return False
        at = self.p.types[f.locals[3]]
        return not (at["k"] == "tuple" and not at["fs"])

    # ------------------------------------------------------------------ C01
    def roundtrip(self, ti, args=None, facts=()):
        """read(write(v)) = v for type ti, the reader being given args (a term over self), for every v satisfying facts"""
        key = (ti, args, facts)
        if key in self.rt:
            return self.rt[key]
        self.rt[key] = True
        tn = self.p.tname(ti)
        w, rs = self.pair(ti)
        if w is None or rs is None:
            return None
        self.stats["types"] += 1
        ok = self.check(w, rs, tn, ti, args, facts)
        self.rt[key] = ok
        return ok

    def files(self, root_pairs):
        """whole files: what the public write function emits against what the public read function takes"""
        for tn, wf, rf in root_pairs:
            ti = next(i for i, t in enumerate(self.p.types) if t["k"] in ("struct", "enum") and self.p.tname(i) == tn)
            self.c.inline = {i for i, t in enumerate(self.p.types) if t["k"] in ("struct", "enum") and t["path"] in ("ssbh_lib::SsbhFile", "ssbh_lib::Ssbh", "ssbh_lib::Versioned")}
            try:
                w, rs = self.c.write_fn(wf, tn, I(0)), self.c.read_fn(rf, "file", None, I(0))
            finally:
                self.c.inline = set()
            self.filesum[tn] = (w, rs)
            self.stats["files"] += 1
            self.rt[("file", tn)] = self.check(w, rs, tn + " file", ti, None, ())

    def check(self, w, rs, tn, ti, args, facts):
        ok = True
        me = w.self
        for r in self.regs(w, facts):
            self.stats["regimes"] += 1
            mem = self.mem(w, r)
            ev = Eval(self, rs, mem, r)
            ev.facts = tuple(facts)
            if args is not None:
                ev.argm[rs.args] = ev.go(r(args))
            val, okc = rs.value, rs.ok
            okv = ev.go(okc)
            d = ""
            if r.desc:
                d = ",".join(f"{str(a)[:60]}={'other' if v is None else v}" for a, v, _ in r.desc)[:160]
            if "rem(" not in d:
                if any(x.op == "rem" and x.a[1].op == "int" for t in [*[a for a, _, _ in r.desc], r.pc, w.ok, *[e.pos for e in mem]] if isinstance(t, T) for x in subterms(t)):
                    d += " rem(..)"
            okv = constrain(okv, r.pc)
            if okv is not TRUE:
                self.fail.append((tn, d, "the reader does not accept what the writer produced", f"accepts iff {show(okv)[:220]}" + ev.why(), (okv,)))
                ok = False
                continue
            v = ev.go(constrain_deep(val, okc))
            sm = Same(w.it)
            sm.norm = r
            if not sm.eq(constrain_deep(v, r.pc), r(me), ti, "", r.pc):
                ok = False
                for pth, a, b, why in sm.diffs[:4]:
                    self.fail.append((tn, d, f"field {pth or '.'} read back differs from what was written", f"{why} read={show(a)[:160]} written={show(b)[:160]}" + ev.why(), (a, b)))
            self.stats["fields"] += sm.n
            self.stats["lookups"] += ev.n
        return ok


def drop_trip(q, kid, n):
    """remove from a condition inside loop kid the test idx < trip"""
    if q.op != "g":
        return q
    idx = mk("idx", kid)
    c = le0(sub(n, idx))        # n <= idx: finished
    q = constrain(q, NOT(c)) if c.op == "g" else q
    c = lt(idx, n)
    return constrain(q, c) if c.op == "g" else q


class Eval:
    """the reader's terms on the writer's memory"""

    def __init__(self, L, rs, mem, r):
        self.L, self.mem, self.r = L, mem, r
        self.memo = {}
        self.bounds = {}
        self.argm = {}
        self.n = 0
        self.missed = []
        self.facts = ()
        self.R = rs

    def why(self):
        return (" [no such write: " + "; ".join(self.missed[:3]) + "]") if self.missed else ""

    def go(self, t):
        m = self.memo
        r = m.get(t)
        if r is not None:
            return r
        op = t.op
        if op in ("int", "str", "float", "bot"):
            r = t
        elif op == "sym":
            r = self.argm.get(t) or self.r.m.get(t, t)
        elif op in ("rdT",):
            r = self.rd(t)
        elif op == "rok":
            r = self.rok(t)
        elif op == "rsz":
            r = self.rsz(t)
        elif op == "rdb":
            r = self.rdb(t)
        elif op == "rdeof":
            r = self.rdeof(t)
        elif op == "avail":
            r = self.avail(t)
        elif op == "lx":
            r = self.lx(t)
        elif op == "trip":
            r = self.trip(t)
        elif op == "lin":
            r = I(t.a[0])
            for k, v in t.a[1]:
                r = add(r, scale(self.go(k), v))
        elif op == "mul":
            r = self.go(t.a[0])
            for y in t.a[1:]:
                r = mul(r, self.go(y))
        elif op == "g":
            r = self.dec(t)
        elif op == "le0":
            r = le0(self.go(t.a[0]))
        elif op == "cast" and t.a[0] in CNT:
            x = self.go(t.a[1])
            if x.op == "cast" and x.a[0] in CNT:
                x = x.a[1]
            if x.op == "len":
                self.L.assume.add("element counts fit the count field (see C31)")
                r = x
            else:
                r = rebuild("cast", (t.a[0], x))
        elif op == "comp":
            n, body, d = t.a[0], t.a[1], t.a[2]
            n2 = self.go(n)
            bv = mk("bv", d)
            old = self.bounds.get(bv)
            self.bounds[bv] = n2
            sv, self.memo = self.memo, {}
            b2 = self.go(body)
            self.memo = sv
            self.bounds[bv] = old
            m = self.memo
            r = IN_comp(n2, b2, d)
        else:
            na = tuple(self.go(y) if isinstance(y, T) else y for y in t.a)
            r = t if na == t.a else rebuild(op, na)
        m[t] = r
        return r

    def dec(self, x):
        at = x.a[0]
        if at.op == "le0":
            c = le0(self.go(at.a[0]))
        elif at.op == "eq":
            c = eq(self.go(at.a[0]), self.go(at.a[1]))
        else:
            c = None
        if c is not None:
            kd = dict(x.a[1])
            z = kd.get(0, x.a[2])
            o = kd.get(1, x.a[2])
            c = constrain(c, self.r.pc) if self.r.pc is not TRUE else c
            if c is TRUE:
                return self.go(o)
            if c is FALSE:
                return self.go(z)
            return ite(c, self.go(o), self.go(z))
        nat = self.go(at)
        if self.r.pc is not TRUE:
            nat = constrain(nat, self.r.pc)
        if nat.op == "int":
            for v, y in x.a[1]:
                if v == nat.a[0]:
                    return self.go(y)
            return self.go(x.a[2])
        if nat is at:
            return mux(at, [(v, self.go(y)) for v, y in x.a[1]], self.go(x.a[2]))

        def leaf(l):
            if l.op == "int":
                for v, y in x.a[1]:
                    if v == l.a[0]:
                        return self.go(y)
                return self.go(x.a[2])
            r = self.go(x.a[2])
            for v, y in x.a[1]:
                r = ite(test(l, v), self.go(y), r)
            return r
        return dist1(leaf, nat)

    # ---- lookups
    def find(self, tn, pos, size):
        """the writer event that covers [pos, pos+size), with the value it gives there"""
        for e in reversed(self.mem):
            if e.kind not in ("w", "s"):
                continue
            r = self.match(e, tn, pos, size)
            if r is not None:
                return r
        return None

    def match(self, e, tn, pos, size):
        p = e.pos
        m = None
        if e.loop:
            if len(e.loop) > 1:
                return None
            kid, n = e.loop[0]
            idx = mk("idx", kid)
            p0 = subst(p, {idx: I(0)})
            st = sub(p, p0)
            c, d = lin_parts(st)
            if st.op == "int" and st.a[0] == 0 or c != 0 or set(d) != {idx}:
                return None
            stride = d[idx]
            off = sub(pos, p0)
            co, do = lin_parts(off)
            if any(v % stride for v in do.values()):
                return None
            rest = co % stride
            i = mk_lin((co - rest) // stride, {k: v // stride for k, v in do.items()})
            if not self.inside(i, n):
                return None
            m = {idx: i}
            if rest and e.kind == "s":
                return None
            v = subst(e.val, m)
            if e.kind == "s":
                return ("s", v, e) if e.ty == tn else None
            return self.wval(v, e, I(rest), subst(e.size, m), tn, size)
        off = sub(pos, p)
        if e.kind == "s":
            if off.op == "int" and off.a[0] == 0 and e.ty == tn:
                return ("s", e.val, e)
            return None
        return self.wval(e.val, e, off, e.size, tn, size)

    def inside(self, i, n):
        """0 <= i < n, using the bounds of the comprehension variables"""
        c, d = lin_parts(i)
        if n is i:
            return False
        if not d:
            lo, hi = rng(n)
            return c >= 0 and (n.op != "int" or c < n.a[0])
        if len(d) == 1:
            (k, v), = d.items()
            if v == 1:
                b = self.bounds.get(k)
                if b is None and k.op == "idx":
                    b = self.tripof(k)
                if b is not None and c >= 0:
                    q = sub(n, add(b, I(c)))
                    lo, hi = rng(q)
                    return lo is not None and lo >= 0
        return False

    def tripof(self, k):
        info = self.R.it.loopinfo.get(k.a[0])
        return self.go(info["trip"]) if info else None

    def wval(self, v, e, off, size, tn, want):
        if off.op != "int":
            # an element of a byte run
            if want == 1 and tn == "u8" and self.inside(off, size):
                if v.op == "lebytes":
                    return None
                return ("w", seq_elem(v, off), e)
            return None
        o = off.a[0]
        if o == 0 and size.op == "int" and size.a[0] == want and v.op == "lebytes":
            if v.a[2] == tn or self.samekind(v.a[2], tn):
                return ("w", v.a[0], e)
            return None
        if v.op == "lebytes" or (v.op == "g" and any(x.op == "lebytes" for x in leaves(v))):
            if o == 0 and size.op == "int" and size.a[0] == want:
                bad = [x for x in leaves(v) if x is not BOT and (x.op != "lebytes" or not self.samekind(x.a[2], tn))]
                if not bad:
                    return ("w", dist1(lambda x: x.a[0], v), e)
            return None
        if tn == "u8" and o >= 0 and (size.op != "int" or o < size.a[0]):
            return ("w", seq_elem(v, off), e)
        return None

    def samekind(self, a, b):
        if a == b:
            return True
        return False

    def rd(self, t):
        tn, src, pos = t.a[0], t.a[1], self.go(t.a[2])
        args = t.a[3] if len(t.a) > 3 else None
        if pos.op == "g":
            return dist1(lambda q: self.rd(mk("rdT", tn, src, q, *t.a[3:])), pos)
        self.n += 1
        want = PSIZE.get(tn)
        f = self.find(tn, pos, want)
        if f is None:
            self.missed.append(f"{tn}@{show(sub(pos, P0))[:60]}")
            return mk("rdT", tn, src, pos, *t.a[3:])
        kind, v, e = f
        if kind == "w" and v.op == "cast" and v.a[0] in CNT and v.a[1].op == "len":
            self.L.assume.add("element counts fit the count field (see C31)")
            v = v.a[1]
        if kind == "s":
            a = self.go(args) if args is not None else None
            self.sub(e, v, a)
            return v
        return v

    def sub(self, e, v, a):
        """obligation: the nested type reads back, given the arguments the reader passes"""
        if a is None or a is UNIT or not self.L.takes_args(e.ti):
            return
        w = self.L.W(e.ti)
        if w is None:
            return
        m = {v: w.self}
        a2 = subst(a, m)
        facts, have = [], {v}
        cand = [(at, frozenset(x for x in subterms(at) if x.op == "len"), val, opts) for at, val, opts in self.facts + self.r.desc
                if not any(x.op == "sym" and x.a[0] in ("P0", "D0", "slack") for x in subterms(at))]
        for _ in range(3):
            for c in cand:
                at, ls, val, opts = c
                if (at, val, opts) not in [f[0] for f in facts] and (occurs(v, at) or ls & have):
                    facts.append(((at, val, opts), (subst(at, m), val, opts)))
                    have |= ls
        facts = [f[1] for f in facts]
        self.L.pending.append((e.ti, a2, tuple(facts)))

    def rok(self, t):
        x = t.a[0]
        if x.op != "rdT":
            return mk("rok", self.go(x))
        pos = self.go(x.a[2])

        def leaf(q):
            f = self.find(x.a[0], q, PSIZE.get(x.a[0]))
            if f is None:
                self.missed.append(f"{x.a[0]}@{show(sub(q, P0))[:60]}")
                return boolnode(mk("rok", mk("rdT", x.a[0], x.a[1], q, *x.a[3:])))
            return TRUE
        return dist1(leaf, pos)

    def rsz(self, t):
        return mk("rsz", self.go(t.a[0]))

    def rdb(self, t):
        pos, n = self.go(t.a[1]), self.go(t.a[2])
        self.n += 1
        if n is FALSE:
            return mk("arr")
        for e in reversed(self.mem):
            if e.kind == "w" and not e.loop and e.pos is pos and e.size is n:
                return e.val
            if e.kind == "w" and self.run(e) is pos and e.loop[0][1] is n:
                return IN_mk(e.loop[0][1], e.val.a[0], mk("idx", e.loop[0][0]))
        self.missed.append(f"bytes@{show(sub(pos, P0))[:60]}+{show(n)[:40]}")
        return mk("rdb", t.a[0], pos, n)

    def run(self, e):
        """the start of a run of single bytes written in a loop"""
        if len(e.loop) != 1 or e.size is not TRUE or e.val.op != "lebytes":
            return None
        idx = mk("idx", e.loop[0][0])
        p0 = subst(e.pos, {idx: I(0)})
        return p0 if sub(e.pos, p0) is idx else None

    def rdeof(self, t):
        """elements up to the end of the stream: what the writer put last"""
        pos = self.go(t.a[2])
        for e in self.mem:
            if e.kind in ("w", "s") and len(e.loop) == 1:
                kid, n = e.loop[0]
                idx = mk("idx", kid)
                if subst(e.pos, {idx: I(0)}) is pos:
                    st = sub(subst(e.pos, {idx: I(1)}), pos)
                    if st is e.size:
                        self.L.assume.add("data read up to the end of the stream is what was written last (pointer order decided in C03)")
                        v = e.val
                        if e.kind == "w":
                            v = v.a[0] if v.op == "lebytes" else None
                        if v is not None:
                            return IN.mk_comp(n, v, idx)
        if any(e.kind == "l" and e.size is FALSE for e in self.mem):
            return mk("arr")
        self.missed.append(f"to end@{show(sub(pos, P0))[:60]}")
        return mk("rdeof", t.a[0], t.a[1], pos)

    def avail(self, t):
        if len(t.a) == 2:
            pos = self.go(t.a[1])
            for e in self.mem:
                if e.kind == "w" and not e.loop and e.pos is pos:
                    self.L.assume.add("data read up to the end of the stream is what was written last (pointer order decided in C03)")
                    return e.size
                if e.kind == "w" and self.run(e) is pos:
                    self.L.assume.add("data read up to the end of the stream is what was written last (pointer order decided in C03)")
                    return e.loop[0][1]
            if not any(e.kind in ("w", "s") for e in self.mem):
                return FALSE
            return mk("avail", t.a[0], pos)
        pos, n = self.go(t.a[1]), self.go(t.a[2])
        if n is FALSE:
            return FALSE
        for e in self.mem:
            if e.kind == "w" and (not e.loop and e.pos is pos and e.size is n or self.run(e) is pos and e.loop[0][1] is n):
                return n
        return mk("avail", t.a[0], pos, n)

    def lx(self, t):
        info = self.R.it.loopinfo.get(t.a[0])
        if not info or "early" not in info:
            return t
        n = self.go(info["trip"])
        idx = info["idx"]
        self.bounds[idx] = n
        for code, epc in info["early"].items():
            q = drop_trip(epc, t.a[0], info["trip"])
            q = self.go(q)
            q = drop_trip(q, t.a[0], n)
            if q is not FALSE and q is not BOT and n is not FALSE:
                return t
        return FALSE

    def trip(self, t):
        """a loop that stops at the first zero byte stops at the terminator the writer put"""
        info = self.R.it.loopinfo.get(t.a[0])
        if not info:
            return t
        idx = info["idx"]
        ex = info["exits"]
        want = None
        for tgt, epc in ex:
            if epc.op == "g" and epc.a[0].op == "rdT" and epc.a[0].a[0] == "u8" and epc.a[1] == ((0, TRUE),) and epc.a[2] is FALSE:
                base = sub(epc.a[0].a[2], idx)
                if idx not in subterms(base):
                    want = self.go(base)
        if want is None:
            return t
        pos = want
        for _ in range(8):
            hit = None
            for e in self.mem:
                if e.kind == "w" and not e.loop and e.pos is pos:
                    hit = e
            if hit is None:
                return t
            v = hit.val
            if v.op == "arr":
                for j, b in enumerate(v.a):
                    if b is FALSE:
                        return add(sub(pos, want), I(j))
                    if b.op != "int":
                        return t
            elif v.op == "lebytes":
                if v.a[0] is FALSE:
                    return sub(pos, want)
                return t
            else:
                self.L.assume.add("text holds no NUL byte (enforced where text is built, see C21)")
            pos = add(pos, hit.size)
        return t


CNT = ("u16", "u32", "u64", "usize")
PSIZE = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "f32": 4, "f64": 8, "u128": 16, "i128": 16}


def IN_mk(n, body, idx):
    return IN.mk_comp(n, body, idx)


def IN_comp(n, body, d):
    f = TM.REBUILD.get("comp")
    return f(n, body, d) if f else mk("comp", n, body, d)
