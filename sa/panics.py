"""Panic obligations: which of the possible panics found by the interpretation can really happen.

An obligation is a condition that must hold at a site or the program panics there. It is discharged when every
combination of decisions that reaches the site with the condition false is contradictory (intervals and order facts).
"""
from terms import *
import terms as TM
from order import Order
from interp import asbool
import re

WS = ("ssbh_lib", "ssbh_data", "ssbh_write", "ssbh_write_derive", "sa_roots")
SKIP = re.compile(r"MisalignedPointer|NullPointer")
UNBOUND = ("lv", "lvx", "fold", "acc", "trip", "lx", "brk", "unzip", "sum", "mapiter", "iter")


def atom_facts(at, v, others):
    """terms f known <= 0 when atom `at` has value v (None: none of others)"""
    if at.op == "le0":
        if v == 1 or (v is None and 0 in others):
            return [at.a[0]]
        if v == 0 or (v is None and 1 in others):
            return [sub(I(1), at.a[0])]
        return []
    if v is not None and isinstance(v, int) and TM.rng(at) != (None, None):
        return [sub(at, I(v)), sub(I(v), at)]
    if v is None and at.op in ("len", "sym", "cast", "lin") and 0 in others:
        lo, _ = TM.rng(at)
        if lo is not None and lo >= 0:
            return [sub(I(1), at)]
    return []


def forced(pc):
    """facts every path of the condition pc shares at its top"""
    out = []
    while pc.op == "g":
        live = [(v, x) for v, x in pc.a[1] if x is not FALSE and x is not BOT]
        if pc.a[2] is not FALSE and pc.a[2] is not BOT:
            live.append((None, pc.a[2]))
        if len(live) != 1:
            break
        v, x = live[0]
        out += atom_facts(pc.a[0], v, tuple(w for w, _ in pc.a[1]))
        pc = x
    return out


def bad_paths(g, limit=400):
    """combinations of decisions under which the boolean term g is true"""
    out = []

    def go(t, pre):
        if len(out) > limit:
            return
        if t is FALSE or t is BOT:
            return
        if t is TRUE:
            out.append(pre)
            return
        if t.op != "g":
            out.append(pre + [(t, 1, ())])
            return
        at, kids, d = t.a
        for v, x in kids:
            go(x, pre + [(at, v, ())])
        go(d, pre + [(at, None, tuple(v for v, _ in kids))])
    go(g, [])
    return out if len(out) <= limit else None


def feasible(it, path, size=None, extra=()):
    fs = list(extra)
    for at, v, others in path:
        fs += atom_facts(at, v, others)
    trips = {i["idx"]: i["trip"] for i in it.loopinfo.values() if i["trip"].op != "trip"}
    for i, f in enumerate(fs):
        # contradiction: f > 0 provable from the others
        o = Order(it.lv, tuple(x for j, x in enumerate(fs) if j != i), trips, size)
        try:
            if o.ge0(sub(f, I(1))):
                return False
        except RecursionError:
            pass
    return True


def for_every(it, o, bad):
    """use conditions on every element of a sequence at the index the obligation is about"""
    qs = [q for q in tuple(o.outer) + (o.pc,)]
    fas = {x for q in qs for x in subterms(q) if x.op == "forall"}
    if not fas:
        return bad
    idxs = {x for x in subterms(bad) if x.op == "idx"}
    trips = {i["idx"]: i["trip"] for i in it.loopinfo.values()}
    for F in fas:
        if not any(AND(q, NOT(boolnode(F))) is FALSE for q in qs):
            continue
        n, body, k = F.a
        for i in idxs:
            if trips.get(i) is n:
                bad = AND(bad, asbool(subst(body, {mk("bv", k): i})))
    return bad


def site_fn(it, o):
    """innermost workspace function on the call chain"""
    for i in reversed(o.chain):
        f = it.p.fns[i]
        if f.crate in WS:
            return f
    return o.fn


class Panics:
    def __init__(self, prog):
        self.p = prog
        self.n = 0
        self.narrow = 0
        self.open = {}       # (fn, kind) -> obligation text
        self.soft = {}
        self.sites = set()
        self.done = set()

    def feed(self, it, where, size=None, extra=()):
        self.sites |= it.sites
        for o in it.obl:
            if SKIP.search(o.kind):
                continue
            self.n += 1
            self.narrow += o.kind == "narrow"
            f = site_fn(it, o)
            key = (f.full, o.kind, str(o.site))
            if key in self.open:
                continue
            bad = AND(o.pc, NOT(o.cond))
            if bad is FALSE or bad is BOT:
                continue
            ctxf = []
            for q in o.outer:
                ctxf += forced(q)
            if o.fn.crate not in WS and f.crate == "sa_roots":
                self.soft.setdefault(key, (where, "inside a dependency"))
                continue
            bad = for_every(it, o, bad)
            if bad is FALSE or bad is BOT:
                continue
            ps = bad_paths(bad)
            if ps is None:
                self.soft.setdefault(key, (where, "too many cases"))
                continue
            live = [p for p in ps if feasible(it, p, size, tuple(extra) + tuple(ctxf))]
            if not live:
                continue
            why = self.weak(o, live)
            if why:
                self.soft.setdefault(key, (where, why))
                continue
            self.open[key] = (where, o, live[0])

    def weak(self, o, live):
        """is the failure only an artefact of something the analysis does not track?"""
        best = "?"
        for p in live:
            w = None
            for at, v, oth in p:
                for x in subterms(at):
                    if x.op in ("call", "mut") or (x.op == "sym" and x.a and x.a[0] == "uninit"):
                        w = "depends on unmodelled code"
                        break
                if w:
                    break
            if w is None and o.kind == "index" and any(x.op in ("lv", "lvx", "acc", "fold") for x in subterms(o.cond)):
                w = "position accumulated by a loop"
            if w is None and o.kind.startswith("overflow"):
                for x in list(subterms(o.cond)):
                    if x.op in UNBOUND:
                        w = "arithmetic on a value accumulated by a loop"
                        break
            if w is None and o.kind == "narrow" and o.ops[1].a[0] >= (1 << 31) - 1 and any(x.op in UNBOUND + ("len", "it_position", "it_max", "it_min") for x in subterms(o.ops[0])):
                w = "a total of sizes"
            if w is None:
                return None
            best = w
        return best


def describe(path):
    out = []
    for at, v, oth in path[-4:]:
        out.append(f"{show(at)[:140]} {'= ' + str(v) if v is not None else 'not in ' + str(list(oth))}")
    return "; ".join(out)


class Modular:
    """panic analysis with heavy functions cut off at their boundary: such a function is analysed once for all arguments;
    when it is free of panics for all of them, its callers see an arbitrary result."""
    STATIC = 1500
    HEAVY = 1500

    def __init__(self, prog, base_hook, panics):
        self.p = prog
        self.base = base_hook
        self.P = panics
        self.tc = {}
        self.memo = {}
        self.busy = set()
        self.opaque = {}
        self.cuts = 0
        self.notes = []

    def callees(self, f):
        out = []
        for b in f.blocks or []:
            if b.get("cleanup"):
                continue
            t = b["t"]
            if t[0] == "call" and isinstance(t[1].get("i"), int):
                out.append(t[1]["i"])
            for pl, r, sp in b["s"]:
                if r[0] == "agg" and r[1][0] == "closure":
                    d = self.p.types[r[1][1]]
                    if "inst" in d:
                        out.append(d["inst"])
        return out

    def cost(self, i):
        if i in self.tc:
            return self.tc[i]
        f = self.p.fns[i]
        n = self.tc[i] = len(f.blocks or [])
        for c in self.callees(f):
            n = min(n + self.cost(c), 1 << 30)
        self.tc[i] = n
        return n

    def fnlike(self, ti, depth=0):
        d = self.p.types[ti]
        if d["k"] in ("closure", "fnptr", "fndef", "dyn", "fn"):
            return True
        if depth > 4:
            return False
        if d["k"] in ("ref", "ptr"):
            return self.fnlike(d["to"], depth + 1)
        if d["k"] == "struct":
            return any(isinstance(a, int) and self.fnlike(a, depth + 1) for a in d.get("args") or [])
        if d["k"] == "tuple":
            return any(self.fnlike(a, depth + 1) for a in d["fs"])
        return False

    def candidate(self, f):
        if f.crate != "ssbh_data" or f.kind != "item" or f.closure or not f.blocks:
            return False
        if any(self.fnlike(t) for t in f.locals[1:1 + f.argc]):
            return False
        return self.cost(f.i) > self.STATIC

    def hook(self, it, f, d, args, st, pc, ck, dty):
        if self.base is not None:
            r = self.base(it, f, d, args, st, pc, ck, dty)
            if r is not None:
                return r
        if f is None or not self.candidate(f) or f.i in self.busy:
            return None
        ok, cost = self.alone(f)
        if not ok or cost < self.HEAVY:
            return None
        self.cuts += 1
        return it.opaque_call(f.path, f, args, st, pc, dty)

    def run(self, f, args, st=None):
        import models as M
        it = M.base_interp(self.p, hook=self.hook, budget=600000)
        it.relpc = True
        st = {} if st is None else st
        v, pc = it.run(f, args, st)
        for k, n in it.opaque.items():
            self.opaque[k] = self.opaque.get(k, 0) + n
        self.notes += it.notes[:5]
        return it, v, pc

    def args_for(self, f, st):
        out = []
        for n in range(f.argc):
            ti = f.locals[1 + n]
            d = self.p.types[ti]
            x = sym("p%d" % n, f.full)
            if d["k"] == "ref" and d.get("mut", True):
                to = self.p.types[d["to"]]
                if "Cursor" in to["s"] or "io::Rd" in to["s"]:
                    return None
                st[("A", n)] = sym("p%d*" % n, f.full)
                x = mk("ptr", ("A", n), ())
            out.append(x)
        return out

    def alone(self, f):
        r = self.memo.get(f.i)
        if r is not None:
            return r
        self.busy.add(f.i)
        st = {}
        a = self.args_for(f, st)
        if a is None:
            r = (False, 0)
        else:
            import interp as IN
            try:
                it, v, pc = self.run(f, a, st)
                q = Panics(self.p)
                q.feed(it, f.full)
                r = (not q.open, 600000 - it.budget)
                if not q.open:
                    self.P.n += q.n
                    self.P.narrow += q.narrow
                    self.P.sites |= it.sites
                    for k, x in q.soft.items():
                        self.P.soft.setdefault(k, x)
                if self.verbose:
                    print("   alone", f.full[:110], r, {k[1:]: describe(v[2])[:200] for k, v in list(q.open.items())[:3]})
            except IN.Budget:
                r = (False, 0)
        self.busy.discard(f.i)
        self.memo[f.i] = r
        return r

    verbose = False
