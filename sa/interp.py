"""Abstract interpreter over monomorphic MIR.

State: cells -> terms.  Control flow is merged at every join under explicit path conditions (decision
diagrams), loops are solved by widening changed cells to loop variables, recognised afterwards as
inductions, comprehensions, sums or folds.  Nothing is executed: inputs are symbols.
"""
from terms import *
import terms as TM
import sys

sys.setrecursionlimit(20000)

INT_RANGE = {}
for _b in (8, 16, 32, 64, 128):
    INT_RANGE[f"u{_b}"] = (0, (1 << _b) - 1)
    INT_RANGE[f"i{_b}"] = (-(1 << (_b - 1)), (1 << (_b - 1)) - 1)
INT_RANGE["usize"] = INT_RANGE["u64"]
INT_RANGE["isize"] = INT_RANGE["i64"]
INT_RANGE["bool"] = (0, 1)
INT_RANGE["char"] = (0, 0x10FFFF)
FLOATS = ("f32", "f64", "f16")


WRAPPERS = ("std::boxed::Box", "alloc::boxed::Box", "std::ptr::Unique", "std::ptr::NonNull", "std::mem::MaybeUninit", "std::mem::ManuallyDrop", "std::mem::MaybeDangling")


class Lost(Exception):
    pass


class Budget(Exception):
    pass


class Ev:
    __slots__ = ("pc", "kind", "d", "site", "sub")

    def __init__(self, pc, kind, d, site, sub=None):
        self.pc, self.kind, self.d, self.site, self.sub = pc, kind, d, site, sub

    def __repr__(self):
        return f"{self.kind}{self.d}" + (f" if {self.pc}" if self.pc is not TRUE else "") + (f" {{{self.sub}}}" if self.sub else "")


class Obl:
    """a site that panics unless cond holds"""
    __slots__ = ("pc", "kind", "cond", "site", "fn", "ops", "chain", "outer")

    def __init__(self, pc, kind, cond, site, fn, ops, chain):
        self.pc, self.kind, self.cond, self.site, self.fn, self.ops, self.chain = pc, kind, cond, site, fn, ops, chain
        self.outer = ()


# ---- cfg helpers (cached on Fn)
def cfg(f):
    c = f._c.get("cfg")
    if c:
        return c
    n = len(f.blocks)
    succ = []
    for b in f.blocks:
        t = b["t"]
        k = t[0]
        if k == "goto":
            s = [t[1]]
        elif k == "switch":
            s = [x[1] for x in t[2]] + [t[3]]
        elif k == "drop":
            s = [t[2]]
        elif k == "call":
            s = [t[4]] if t[4] is not None else []
        elif k == "assert":
            s = [t[5]]
        else:
            s = []
        succ.append(list(dict.fromkeys(s)))
    # rpo
    seen = set()
    order = []
    st = [(0, iter(succ[0]))]
    seen.add(0)
    while st:
        b, it = st[-1]
        for x in it:
            if x not in seen:
                seen.add(x)
                st.append((x, iter(succ[x])))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    rpo = {b: i for i, b in enumerate(order)}
    pred = {b: [] for b in order}
    for b in order:
        for s in succ[b]:
            pred[s].append(b)
    # dominators
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in pred[b] if p in idom]
            x = ps[0]
            for p in ps[1:]:
                y = p
                while x != y:
                    while rpo[x] > rpo[y]:
                        x = idom[x]
                    while rpo[y] > rpo[x]:
                        y = idom[y]
            if idom.get(b) != x:
                idom[b] = x
                ch = True

    def dom(a, b):
        while rpo[b] > rpo[a]:
            b = idom[b]
        return a == b

    loops = {}
    for b in order:
        for s in succ[b]:
            if dom(s, b):
                body = loops.setdefault(s, {s})
                w = [b]
                while w:
                    x = w.pop()
                    if x in body:
                        continue
                    body.add(x)
                    w += pred[x]
    # RPO in which every loop body is contiguous is not needed: loops are collapsed
    c = {"succ": succ, "rpo": rpo, "order": order, "loops": loops, "pred": pred, "dom": dom}
    f._c["cfg"] = c
    return c


def replace(st, ns):
    """make st equal to ns, in place"""
    if ns is not st:
        st.clear()
        st.update(ns)


class Frame:
    __slots__ = ("f", "ctx", "depth")

    def __init__(self, f, ctx, depth):
        self.f, self.ctx, self.depth = f, ctx, depth


class Interp:
    def __init__(self, prog, models, hook=None, budget=400000, maxdepth=70):
        self.p = prog
        TM.PROG = prog
        self.models = models
        self.hook = hook
        self.ev = []
        self.obl = []
        self.cur_pc = None
        self.notes = []
        self.lv = {}          # loop variable -> (init, update)
        self.loopinfo = {}    # loop key -> dict
        self.ctxs = {}
        self.stack = []       # call chain of (fn, ctx)
        self.extra_back = []
        self.ivals = {}
        self.loopkinds = {}  # stack of lists, one per active loop
        self.budget = budget
        self.maxdepth = maxdepth
        self.site = ""
        self.fields_seen = set()
        self.opaque = {}
        self.unr = ()           # the rounds of the loops being followed round by round
        self.groups = False     # keep the conditions of events in groups when path conditions are relative
        self.relpc = False    # path conditions relative to the enclosing call or loop (self.outer holds the rest)
        self.outer = []
        self.sites = set()    # places that may panic, whatever became of them

    def con(self, t, pc):
        """simplify t under pc and everything known where the enclosing calls and loops started"""
        t = constrain(t, pc)
        if t.op == "g":
            for o in reversed(self.outer):
                t = constrain(t, o)
                if t.op != "g":
                    break
        return t

    # ------------------------------------------------------------ types
    def ty(self, i):
        return self.p.types[i]

    def peel(self, i):
        t = self.p.types[i]
        while t["k"] in ("ref", "ptr"):
            i = t["to"]
            t = self.p.types[i]
        return i

    def place_ty(self, f, pl):
        t = f.locals[pl[0]]
        for e in pl[1]:
            if e == "*":
                d = self.p.types[t]
                if d["k"] in ("ref", "ptr"):
                    t = d["to"]
                elif d["k"] == "struct" and d["s"].startswith("std::boxed::Box") and d["args"]:
                    t = d["args"][0]
            elif e[0] == "f":
                t = e[2]
            elif e[0] in ("i", "ci"):
                d = self.p.types[t]
                t = d.get("of", t)
        return t

    def op_ty(self, f, o):
        if o[0] == "c":
            return o[1].get("ty")
        return self.place_ty(f, o[1])

    def tname(self, i):
        return self.p.types[i]["s"] if i is not None else "?"

    def as_one(self, x):
        """x, whatever decisions it is made of, as one number, until the loop it bounds is summarised"""
        r = mk("ival", x)
        ls = [TM.RANGE.get(y) if y.op != "int" else (y.a[0], y.a[0]) for y in leaves(x)]
        if all(ls):
            TM.RANGE[r] = (min(a for a, _ in ls), max(b for _, b in ls))
        self.ivals[r] = x
        return r

    def note_range(self, t, ti):
        if ti is None or t.op in ("int", "g", "adt", "tup"):
            return t
        n = self.p.types[ti]
        if n["k"] == "array" and n.get("len") is not None:
            ARRLEN.setdefault(t, int(n["len"]))
            return t
        if n["k"] == "prim":
            r = INT_RANGE.get(n["s"])
            if r and t not in TM.RANGE:
                TM.RANGE[t] = r
        return t

    def fkey(self, ti, variant, i):
        """name of field i of type ti"""
        d = self.p.types[ti] if ti is not None else {"k": "?"}
        if d["k"] in ("struct", "union"):
            fs = d["variants"][0]["f"] if d["variants"] else []
            return fs[i][0] if i < len(fs) else str(i)
        if d["k"] == "enum":
            v = d["variants"][variant or 0]
            return v["n"] + "." + (v["f"][i][0] if i < len(v["f"]) else str(i))
        return str(i)

    # ------------------------------------------------------------ values
    def proj_f(self, t, variant, i, ti, fty=None):
        def leaf(x):
            if x.op == "adt":
                if variant is not None and x.a[1] != variant:
                    return BOT
                if i + 2 < len(x.a):
                    return x.a[i + 2]
                return BOT
            if x.op in ("tup",):
                return x.a[i] if i < len(x.a) else BOT
            if x.op == "clo":
                return x.a[1 + i]
            if x.op == "bot":
                return x
            if x.op == "ptr":
                return self.ptr_step(x, ("f", -1 if variant is None else variant, i, self.fkey(ti, variant, i), ti))
            if ti is not None:
                d = self.p.types[ti]
                # newtype pointers and boxes are transparent
                if d["k"] == "struct" and d["path"] in ("std::boxed::Box", "alloc::boxed::Box", "std::ptr::Unique", "std::ptr::NonNull"):
                    return x
            r = mk("fld", x, self.fkey(ti, variant, i))
            self.note_range(r, fty)
            return r
        return dist1(leaf, t)

    def ptr_step(self, p, step):
        if step[0] == "f" and step[4] is not None and p.a[0][:1] == ("box",) and self.p.types[step[4]].get("path") in WRAPPERS:
            return p        # wrappers without content of their own, around a value being put into a new box
        return mk("ptr", p.a[0], p.a[1] + (step,))

    def expand(self, t, ti, variant):
        """symbolic value -> explicit aggregate of its fields"""
        d = self.p.types[ti]
        if d["k"] == "tuple":
            return mk("tup", *[self.proj_f(t, None, i, ti, ft) for i, ft in enumerate(d["fs"])])
        if d["k"] in ("struct", "enum"):
            v = variant if d["k"] == "enum" else 0
            if v is None:
                raise Lost("expand enum")
            fs = d["variants"][v]["f"]
            return mk("adt", ti, v, *[self.proj_f(t, variant if d["k"] == "enum" else None, i, ti, f[1]) for i, f in enumerate(fs)])
        raise Lost("expand " + d["k"])

    def elem(self, s, i):
        return seq_elem(s, i)

    def length(self, s):
        return seq_len(s)

    def load(self, st, ptr):
        """value behind a ptr term"""
        if ptr.op == "g":
            return dist1(lambda x: self.load(st, x), ptr)
        if ptr.op != "ptr":
            return ptr
        v = st.get(ptr.a[0])
        if v is None:
            return mk("sym", "uninit", str(ptr.a[0]))
        for s in ptr.a[1]:
            v = self.step_val(v, s)
        return v

    def step_val(self, v, s):
        if s[0] == "f":
            return self.proj_f(v, None if s[1] == -1 else s[1], s[2], s[4])
        if s[0] == "e":
            return dist1(lambda x: self.elem(x, s[1]), v)
        if s[0] == "sl":
            return dist1(lambda x: seq_slice(x, s[1], s[2]), v)
        if s[0] == "*":
            return v
        raise Lost("step")

    def store(self, st, ptr, val, pc=TRUE):
        if ptr.op == "g":
            for pre, leaf in cases(ptr):
                c = TRUE
                for at, v in pre:
                    c = AND(c, is_val(at, v) if not isinstance(v, tuple) else
                            not_vals(at, v[1:]))
                if leaf.op == "ptr":
                    old = self.load(st, leaf)
                    self.store(st, leaf, ite(c, val, old))
            return
        if ptr.op != "ptr":
            self.notes.append(("lost-store", show(ptr)[:80], self.site))
            return
        base = st.get(ptr.a[0])
        if base is None:
            base = mk("sym", "uninit", str(ptr.a[0]))
        st[ptr.a[0]] = self.upd(base, ptr.a[1], val)

    def upd(self, base, path, val):
        if not path:
            return val
        s = path[0]
        if base.op == "g":
            return dist1(lambda x: self.upd(x, path, val), base)
        if base.op == "bot":
            return base
        if s[0] == "f":
            var = None if s[1] == -1 else s[1]
            if base.op not in ("adt", "tup", "clo"):
                if s[4] is None:
                    raise Lost("upd")
                d = self.p.types[s[4]]
                if d["k"] not in ("struct", "enum", "tuple"):
                    raise Lost("upd " + d["k"])
                if len(path) == 1 and d["k"] == "struct" and len(d["variants"][0]["f"]) == 1:
                    return mk("adt", s[4], 0, val)
                base = self.expand(base, s[4], var)
            off = 2 if base.op == "adt" else (1 if base.op == "clo" else 0)
            if base.op == "adt" and var is not None and base.a[1] != var:
                return BOT
            a = list(base.a)
            a[s[2] + off] = self.upd(a[s[2] + off], path[1:], val)
            return mk(base.op, *a)
        if s[0] == "e":
            old = self.elem(base, s[1])
            new = self.upd(old, path[1:], val)
            return seq_store(base, s[1], new)
        if s[0] == "sl":
            old = seq_slice(base, s[1], s[2])
            new = self.upd(old, path[1:], val)
            return seq_splice(base, s[1], s[2], new)
        if s[0] == "*":
            return self.upd(base, path[1:], val)
        raise Lost("upd")

    # ------------------------------------------------------------ places
    def resolve(self, st, fr, pl):
        """-> ('ptr', term) or ('val', term)"""
        cell = (fr.ctx, pl[0])
        cur = mk("ptr", cell, ())
        t = fr.f.locals[pl[0]]
        val = None
        variant = None
        for e in pl[1]:
            if e == "*":
                v = self.load(st, cur) if val is None else val
                d = self.p.types[t]
                if d["k"] in ("ref", "ptr"):
                    t = d["to"]
                elif d["k"] == "struct" and d.get("args"):
                    # box: contents live in the same cell
                    t = d["args"][0]
                    if val is None and v.op != "ptr":
                        continue
                if v.op == "ptr" or (v.op == "g" and any(x.op == "ptr" for x in leaves(v))):
                    cur, val = v, None
                else:
                    val = v
                continue
            if e[0] == "v":
                variant = e[1]
                continue
            if e[0] == "f":
                d = self.p.types[t]
                if d["k"] == "enum" and variant is None:
                    variant = 0
                vv = variant if d["k"] == "enum" else None
                if val is None:
                    if cur.op == "g":
                        cur = dist1(lambda x: self.ptr_step(x, ("f", -1 if vv is None else vv, e[1], self.fkey(t, vv, e[1]), t)) if x.op == "ptr" else self.proj_f(x, vv, e[1], t, e[2]), cur)
                    else:
                        cur = self.ptr_step(cur, ("f", -1 if vv is None else vv, e[1], self.fkey(t, vv, e[1]), t))
                else:
                    val = self.proj_f(val, vv, e[1], t, e[2])
                t = e[2]
                variant = None
                continue
            if e[0] == "i" or e[0] == "ci":
                if e[0] == "i":
                    ix = self.load(st, mk("ptr", (fr.ctx, e[1]), ()))
                else:
                    base = self.load(st, cur) if val is None else val
                    ix = sub(self.length(base), I(e[1])) if e[2] else I(e[1])
                d = self.p.types[t]
                t = d.get("of", t)
                if val is None:
                    cur = dist1(lambda x: self.ptr_step(x, ("e", ix)), cur)
                else:
                    val = dist1(lambda x: self.elem(x, ix), val)
                continue
            if e[0] == "sub":
                base = self.load(st, cur) if val is None else val
                hi = sub(self.length(base), I(e[2])) if e[3] else I(e[2])
                if val is None:
                    cur = dist1(lambda x: self.ptr_step(x, ("sl", I(e[1]), hi)), cur)
                else:
                    val = seq_slice(val, I(e[1]), hi)
                continue
            # casts: no change
        if val is None:
            return "ptr", cur, t
        return "val", val, t

    def read(self, st, fr, pl):
        if not pl[1]:
            v = st.get((fr.ctx, pl[0]))
            if v is None:
                v = mk("sym", "uninit", fr.f.name, fr.f.lname(pl[0]))
            return v
        k, v, t = self.resolve(st, fr, pl)
        if k == "ptr":
            v = self.load(st, v)
        return self.note_range(v, t)

    def write(self, st, fr, pl, val):
        if not pl[1]:
            st[(fr.ctx, pl[0])] = val
            return
        k, v, t = self.resolve(st, fr, pl)
        if k == "val":
            self.notes.append(("lost-store", show(v)[:80], self.site))
            return
        self.store(st, v, val)

    def const(self, c):
        if "fn" in c:
            k = c["fn"]
            return mk("fn", k if isinstance(k, int) else str(k))
        if "rc" in c:
            return FALSE
        if "v" not in c:
            return mk("sym", "const", c.get("err", "?"), c.get("ty"))
        return self.cval(c["v"], c["ty"])

    def cval(self, v, ti):
        d = self.p.types[ti]
        k = d["k"]
        if v is None:
            return mk("sym", "const?", d["s"])
        if isinstance(v, str):
            if d["s"] in FLOATS:
                return mk("float", v)
            return I(int(v))
        if "str" in v:
            return S(v["str"])
        if "ref" in v:
            return self.cval(v["ref"], d["to"]) if k in ("ref", "ptr") else mk("sym", "cref")
        if "arr" in v:
            return mk("arr", *[self.cval(x, d["of"]) for x in v["arr"]])
        if "tup" in v:
            return mk("tup", *[self.cval(x, d["fs"][i]) for i, x in enumerate(v["tup"])])
        if "adt" in v:
            fs = self.p.types[v["adt"]]["variants"][v["var"]]["f"]
            return mk("adt", v["adt"], v["var"], *[self.cval(x, fs[i][1]) for i, x in enumerate(v["fs"])])
        if "fn" in v:
            return mk("fn", v["fn"] if isinstance(v["fn"], int) else str(v["fn"]))
        if k == "closure" and not d.get("up"):
            return mk("clo", ti)
        return mk("sym", "const", str(sorted(v.items())), d["s"])

    def operand(self, st, fr, o):
        if o[0] == "c":
            if o[1].get("ty") is not None:
                d = self.p.types[o[1]["ty"]]
                if d["k"] == "closure" and "fn" not in o[1]:
                    return mk("clo", o[1]["ty"])
                if d["k"] == "fndef" and isinstance(d.get("inst"), int):
                    return mk("fn", d["inst"])
            return self.const(o[1])
        return self.read(st, fr, o[1])

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, pl):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k in ("ref", "reborrow"):
            kind, v, t = self.resolve(st, fr, r[1])
            if kind == "val":
                return v
            if r[2]:
                return v
            return self.note_range(self.load(st, v), t)
        if k == "cast":
            x = self.operand(st, fr, r[2])
            v = self.cast(r[1], x, r[3], r[4])
            if NARROW and v is not x and r[1].startswith("IntToInt") and fr.f.crate in ("ssbh_lib", "ssbh_data") and self.cur_pc is not None:
                c = NOT(ovf("", x, None, None, self.tname(r[4])))
                if c is not TRUE:
                    self.obligation(self.cur_pc, "narrow", c, [x, I(INT_RANGE[self.tname(r[4])][1])])
            return v
        if k == "bin":
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            return self.binop(r[1], a, b, self.op_ty(fr.f, r[2]))
        if k == "un":
            a = self.operand(st, fr, r[2])
            t = self.tname(self.op_ty(fr.f, r[2]))
            if r[1] == "Not":
                if t == "bool":
                    return NOT(asbool(a))
                return a.op == "int" and t.startswith("u") and I(INT_RANGE[t][1] ^ a.a[0]) or mk("not", a)
            if r[1] == "Neg":
                if t in FLOATS:
                    return mk("fneg", a)
                return scale(a, -1)
            if r[1] == "PtrMetadata":
                return dist1(lambda x: self.length(self.load(st, x)), a)
            return mk("un", r[1], a)
        if k == "discr":
            v = self.read(st, fr, r[1])
            return self.discr(v, r[2])
        if k == "agg":
            h = r[1]
            ops = [self.operand(st, fr, x) for x in r[2]]
            if h[0] == "adt":
                d = self.p.types[h[1]]
                if d["k"] == "union":
                    return ops[0] if ops else UNIT
                return mk("adt", h[1], h[2], *ops)
            if h[0] == "tuple":
                return mk("tup", *ops)
            if h[0] == "array":
                return mk("arr", *ops)
            if h[0] == "closure":
                return mk("clo", h[1], *ops)
            if h[0] == "rawptr":
                return ops[0]
            return mk("agg", h[0], *ops)
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            n = int(r[2]) if r[2] is not None else None
            if n is not None and n <= 64:
                return mk("arr", *([v] * n))
            return mk("rep", v, I(n) if n is not None else mk("sym", "replen"))
        return mk("sym", "rv", k, self.site)

    def discr(self, v, ti):
        d = self.p.types[ti]

        def leaf(x):
            if x.op == "adt":
                dd = self.p.types[x.a[0]]
                if dd["k"] == "enum":
                    return I(int(dd["variants"][x.a[1]]["d"]))
                return I(0)
            if x.op == "bot":
                return x
            if d["k"] == "enum" and len(d["variants"]) == 1 and d["variants"][0]["d"] is not None:
                return I(int(d["variants"][0]["d"]))
            if ti in PINS:
                return I(PINS[ti])
            a = mk("discr", x)
            if d["k"] == "enum" and a not in TM.RANGE:
                ds = [int(w["d"]) for w in d["variants"] if w["d"] is not None]
                if ds:
                    TM.RANGE[a] = (min(ds), max(ds))
                    DISCR_DOM[a] = TM.DOM[a] = tuple(sorted(ds))
            return a
        return dist1(leaf, v)

    def cast(self, kind, v, ft, tt):
        f, t = self.tname(ft), self.tname(tt)
        if kind.startswith("IntToInt"):
            return dist1(lambda x: int_cast(x, f, t), v)
        if kind.startswith("IntToFloat"):
            if v.op == "int":
                return mk("float", str(float(v.a[0])))
            return mk("i2f", t, asint(v))
        if kind.startswith("FloatToInt"):
            r = mk("f2i", t, v)
            TM.RANGE.setdefault(r, INT_RANGE[t])
            return r
        if kind.startswith("FloatToFloat"):
            return v if t == "f64" else mk("f2f", t, v)
        if kind.startswith("Transmute"):
            if ft == tt:
                return v
            a, b = self.p.types[ft], self.p.types[tt]
            if a["k"] in ("ref", "ptr", "array", "slice") or b["k"] in ("ref", "ptr"):
                return v
            if b["k"] in ("struct", "union") and a["k"] not in ("prim",):
                return v
            return dist1(lambda x: mk("transmute", t, x), v)
        if "Unsize" in kind or kind.startswith("PtrToPtr") or kind.startswith("PointerCoercion") or kind.startswith("Subtype"):
            if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind:
                d = self.p.types[ft]
                if d["k"] == "fndef" and isinstance(d.get("inst"), int):
                    return mk("fn", d["inst"])
            return v
        return v

    def binop(self, op, a, b, ti):
        t = self.tname(ti)
        if t in FLOATS:
            return self.fbin(op, a, b)
        if op.endswith("WithOverflow"):
            o = op[:-12]
            r = self.arith(o, a, b, t)
            return mk("tup", r, ovf(o, r, a, b, t))
        if op.endswith("Unchecked"):
            op = op[:-9]
        if op in ("Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor", "Shl", "Shr"):
            return self.arith(op, a, b, t)
        if t in INT_RANGE and t not in ("bool",) or True:
            if op == "Eq":
                if t == "bool":
                    a, b = asbool(a), asbool(b)
                return eq(a, b)
            if op == "Ne":
                if t == "bool":
                    a, b = asbool(a), asbool(b)
                return NOT(eq(a, b))
            if op == "Lt":
                return lt(a, b)
            if op == "Le":
                return le(a, b)
            if op == "Gt":
                return lt(b, a)
            if op == "Ge":
                return le(b, a)
        if op == "Offset":
            return mk("offset", a, b)
        if op == "Cmp":
            return mk("cmp", a, b)
        return mk("bin", op, a, b)

    def fbin(self, op, a, b):
        n = {"Add": "fadd", "Mul": "fmul"}.get(op)
        if n:
            x, y = sorted((a, b), key=lambda z: z.id)
            return mk(n, x, y)
        if op in ("Eq", "Ne"):
            if "feq" in PINS:
                r = TRUE if PINS["feq"] else FALSE
                return r if op == "Eq" else NOT(r)
            r = boolnode(mk("feq", *sorted((a, b), key=lambda z: z.id))) if a.op != "g" and b.op != "g" else dist2(lambda p, q: boolnode(mk("feq", p, q)), a, b)
            return r if op == "Eq" else NOT(r)
        if op in ("Lt", "Gt", "Le", "Ge"):
            if op in ("Gt", "Ge"):
                a, b = b, a
            return dist2(lambda p, q: boolnode(mk("flt" if op in ("Lt", "Gt") else "fle", p, q)), a, b)
        return mk({"Sub": "fsub", "Div": "fdiv", "Rem": "frem"}.get(op, "f" + op), a, b)

    def arith(self, op, a, b, t):
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if op == "Mul":
            return mul(a, b)
        if t == "bool":
            a, b = asbool(a), asbool(b)
            if op == "BitAnd":
                return AND(a, b)
            if op == "BitOr":
                return OR(a, b)
            if op == "BitXor":
                return ite(a, NOT(b), b)
        return dist2(lambda x, y: arith2(op, x, y, t), a, b)

    # ------------------------------------------------------------ running
    def ctx(self, *k):
        if self.unr:
            k += (("rounds",) + self.unr,)
        c = self.ctxs.get(k)
        if c is None:
            c = self.ctxs[k] = len(self.ctxs) + 1
        return c

    def run(self, f, args, st=None, pc=TRUE):
        st = {} if st is None else st
        return self.invoke(f, args, st, pc, ("root", f.i))

    def group(self, n0, pc):
        """the events since n0 happen under pc"""
        if self.groups and len(self.ev) > n0:
            self.ev[n0:] = [Ev(pc, "if", (), self.site, self.ev[n0:])]

    def invoke(self, f, args, st, pc, ckey):
        """inline f; returns value (state updated in place), or None when it cannot return"""
        if self.relpc and pc is not TRUE:
            self.outer.append(pc)
            n0 = len(self.ev)
            try:
                v, npc = self.invoke(f, args, st, TRUE, ckey)
            finally:
                self.outer.pop()
            self.group(n0, pc)
            return v, AND(pc, npc)
        ctx = self.ctx(*ckey)
        fr = Frame(f, ctx, len(self.stack))
        for i, a in enumerate(args):
            st[(ctx, i + 1)] = a
        self.stack.append((f, ctx))
        try:
            rets = []
            self.region(fr, 0, None, pc, st, None, rets)
        finally:
            self.stack.pop()
        if not rets:
            return None, FALSE
        npc, ns = self.merge(rets)
        val = ns.get((ctx, 0), UNIT)
        for k in [k for k in ns if k[0] == ctx]:
            del ns[k]
        replace(st, ns)
        return val, npc

    def merge(self, edges):
        if len(edges) == 1:
            return edges[0]
        pc, s = edges[0]
        s = dict(s)
        for pc2, s2 in edges[1:]:
            if s2 is s:
                continue
            for k, v in s2.items():
                o = s.get(k)
                if o is None:
                    s[k] = v
                elif o is not v:
                    s[k] = ite(pc, o, v)
            pc = OR(pc, pc2)
        return pc, s

    def region(self, fr, entry, body, pc, st, loop, rets):
        """evaluate the blocks of body (None: whole function) from entry; loop: entry is a loop header being solved.
        returns (back edges, exits{target: edges})"""
        c = cfg(fr.f)
        rpo, loops = c["rpo"], c["loops"]
        pend = {entry: [(pc, st)]}
        back = []
        exits = {}
        import heapq
        heap = [rpo[entry]]
        first = True
        order = c["order"]

        def edge(t, epc, est):
            if epc is FALSE or epc is BOT:
                return
            if loop is not None and t == entry:
                back.append((epc, est))
                return
            if body is not None and t not in body:
                exits.setdefault(t, []).append((epc, est))
                return
            if t not in pend:
                pend[t] = []
                heapq.heappush(heap, rpo[t])
            pend[t].append((epc, est))

        while heap:
            b = order[heapq.heappop(heap)]
            edges = pend.pop(b)
            bpc, bst = self.merge(edges)
            if bpc is FALSE:
                continue
            if b in loops and not (loop is not None and b == entry and first):
                first = False
                for t, es in self.loop(fr, b, loops[b], bpc, bst, rets).items():
                    for e in es:
                        edge(t, *e)
                continue
            first = False
            self.block(fr, b, bpc, bst, edge, rets)
        return back, exits

    def block(self, fr, b, pc, st, edge, rets):
        self.budget -= 1
        if self.budget <= 0:
            raise Budget()
        f = fr.f
        blk = f.blocks[b]
        for pl, r, sp in blk["s"]:
            self.site = sp
            self.cur_pc = pc
            if r[0] == "setdiscr":
                old = self.read(st, fr, pl)
                ti = self.place_ty(f, pl)
                d = self.p.types[ti]
                if d["k"] == "enum":
                    if old.op == "adt" and old.a[0] == ti and old.a[1] == r[1]:
                        continue
                    n = len(d["variants"][r[1]]["f"])
                    self.write(st, fr, pl, mk("adt", ti, r[1], *[mk("sym", "uninit")] * n))
                continue
            v = self.rvalue(st, fr, r, pl)
            self.write(st, fr, pl, v)
        t = blk["t"]
        k = t[0]
        self.site = blk["sp"]
        if k == "goto":
            edge(t[1], pc, st)
        elif k == "drop":
            edge(t[2], pc, st)
        elif k == "return":
            rets.append((pc, st))
        elif k == "switch":
            v = self.operand(st, fr, t[1])
            self.switch(v, t, pc, st, edge)
        elif k == "assert":
            c = asbool(self.operand(st, fr, t[1]))
            c = c if t[2] else NOT(c)
            c = self.con(c, pc)
            self.sites.add((f.i, b))
            if c is not TRUE:
                ops = [self.operand(st, fr, x) for x in t[4]]
                self.obligation(pc, t[3], c, ops)
                if c is FALSE:
                    return
            edge(t[5], pc, st)
        elif k == "call":
            self.call(fr, b, t, pc, st, edge)
        elif k == "unreachable" or k == "unwind":
            pass
        else:
            self.notes.append(("unknown-term", k, self.site))

    def obligation(self, pc, kind, cond, ops):
        f = self.stack[-1][0]
        self.sites.add((f.i, kind, str(self.site)))
        o = Obl(pc, kind, cond, self.site, f, ops, tuple(x[0].i for x in self.stack))
        o.outer = tuple(self.outer)
        self.obl.append(o)

    def switch(self, v, t, pc, st, edge):
        ty = self.tname(t[4])
        if ty == "bool":
            v = asbool(v)
        v = self.con(v, pc)
        vals = [self.sval(int(x[0]), ty) for x in t[2]]
        groups = {}
        for val, (_, tgt) in zip(vals, t[2]):
            c = test(v, val)
            groups[tgt] = OR(groups.get(tgt, FALSE), c)
        oth = TRUE
        for c in groups.values():
            oth = AND(oth, NOT(c))
        # exhaustive discriminants have no other value
        if v.op == "discr" and set(DISCR_DOM.get(v, (None,))) <= set(vals):
            oth = FALSE
        if oth is not FALSE:
            groups[t[3]] = OR(groups.get(t[3], FALSE), oth)
        n = len(groups)
        for i, (tgt, c) in enumerate(groups.items()):
            npc = AND(pc, c)
            if npc is FALSE or npc is BOT:
                continue
            s = st if i == n - 1 else dict(st)
            edge(tgt, npc, s)

    def sval(self, v, ty):
        r = INT_RANGE.get(ty)
        if r and r[0] < 0 and v > r[1]:
            return v - (r[1] - r[0] + 1)
        return v

    # ------------------------------------------------------------ calls
    def call(self, fr, b, t, pc, st, edge):
        callee, argo, dest, target = t[1], t[2], t[3], t[4]
        args = [self.operand(st, fr, a) for a in argo]
        dty = self.place_ty(fr.f, dest)
        site = self.site
        i = callee.get("i")
        if "op" in callee:
            fv = self.operand(st, fr, callee["op"])
            val, npc = self.apply(fv, args, st, pc, (fr.ctx, b), dty)
        else:
            f = self.p.fns[i] if isinstance(i, int) else None
            val, npc = self.call_fn(f, callee.get("d", ""), args, st, pc, (fr.ctx, b), dty)
        self.site = site
        if val is None or target is None or npc is FALSE:
            return
        self.note_range(val, dty)
        self.write(st, fr, dest, val)
        edge(target, npc, st)

    def apply(self, fv, args, st, pc, ckey, dty=None):
        """call a callable value with positional args"""
        if fv.op == "g":
            fv = self.con(fv, pc)
        if fv.op == "g":
            rs = []
            for n, (pre, leaf) in enumerate(cases(fv)):
                c = pc
                for at, v in pre:
                    c = AND(c, is_val(at, v) if not isinstance(v, tuple) else not_vals(at, v[1:]))
                if c is FALSE:
                    continue
                s2 = dict(st)
                val, npc = self.apply(leaf, args, s2, c, ckey + (n,), dty)
                if val is not None and npc is not FALSE:
                    s2[("tmp", 0)] = val
                    rs.append((npc, s2))
            if not rs:
                return None, FALSE
            npc, ns = self.merge(rs)
            val = ns.pop(("tmp", 0))
            replace(st, ns)
            return val, npc
        if fv.op == "ptr":
            inner = self.load(st, fv)
            if inner.op == "clo":
                return self.apply_clo(inner, fv, args, st, pc, ckey, dty)
            return self.apply(inner, args, st, pc, ckey, dty)
        if fv.op == "clo":
            cell = (self.ctx(*ckey, "clo"), 0)
            st[cell] = fv
            r = self.apply_clo(fv, mk("ptr", cell, ()), args, st, pc, ckey, dty)
            st.pop(cell, None)
            return r
        if fv.op == "fn" and isinstance(fv.a[0], int):
            return self.call_fn(self.p.fns[fv.a[0]], self.p.fns[fv.a[0]].path, args, st, pc, ckey, dty)
        if fv.op == "sym" and fv.a[0] == "restore_position":
            # binrw rewinds the reader and hands the error back
            e = [i for i, v in enumerate(self.p.types[dty]["variants"]) if v["n"] == "Err"] if dty is not None else []
            if e:
                return mk("adt", dty, e[0], args[0]), pc
        for a in args:
            self.havoc(st, a, fv, args, "apply")
        return mk("app", fv, *[self.snap(st, a) for a in args]), pc

    def apply_clo(self, clo, ptr, args, st, pc, ckey, dty):
        d = self.p.types[clo.a[0]]
        f = self.p.fns[d["inst"]]
        if not f.blocks:
            return mk("app", clo, *args), pc
        selfty = self.p.types[f.locals[1]]
        if selfty["k"] == "ref":
            s = ptr
        else:
            s = clo
        return self.do_inline(f, [s] + list(args), st, pc, ckey, dty)

    def snap(self, st, a):
        """argument value with mutable pointers replaced by what they point to"""
        if a.op == "ptr":
            return self.load(st, a)
        if a.op == "g":
            return dist1(lambda x: self.snap(st, x), a)
        if a.op in ("tup", "adt", "clo"):
            if any(isinstance(x, T) and x.op in ("ptr", "g", "tup", "adt", "clo") for x in a.a):
                return mk(a.op, *[self.snap(st, x) if isinstance(x, T) else x for x in a.a])
        return a

    def havoc(self, st, a, fname, args, why):
        if a.op == "ptr":
            old = self.load(st, a)
            self.store(st, a, mk("mut", fname if isinstance(fname, str) else "app", *[self.snap(st, x) for x in args]))
        elif a.op in ("tup", "adt", "clo"):
            for x in a.a:
                if isinstance(x, T):
                    self.havoc(st, x, fname, args, why)
        elif a.op == "g":
            for x in leaves(a):
                self.havoc(st, x, fname, args, why)

    def call_fn(self, f, d, args, st, pc, ckey, dty):
        if f is None:
            return self.opaque_call(d, None, args, st, pc, dty)
        if self.hook is not None:
            r = self.hook(self, f, d, args, st, pc, ckey, dty)
            if r is not None:
                return r
        # closures reached through the Fn traits
        name = d.rsplit("::", 1)[-1]
        if name in ("call", "call_mut", "call_once") and ("ops::Fn" in d or "function::Fn" in d or f.closure or f.kind in ("closure_once", "fnptr_shim")):
            if len(args) == 2 and args[1].op == "tup":
                return self.apply(args[0], list(args[1].a), st, pc, ckey, dty)
            if len(args) == 2:
                n = self.p.types[dty] if dty is not None else None
                return self.apply(args[0], [args[1]], st, pc, ckey, dty)
        if f.ctor:
            return mk("adt", f.ctor_ty, f.ctor_variant, *args), pc
        m = self.models.lookup(self, f, d)
        if m is not None:
            r = m(self, f, args, st, pc, ckey, dty)
            if r is not None:
                return r
        if not f.blocks:
            return self.opaque_call(d, f, args, st, pc, dty)
        return self.do_inline(f, args, st, pc, ckey, dty)

    def do_inline(self, f, args, st, pc, ckey, dty):
        if len(self.stack) > self.maxdepth or sum(1 for g, _ in self.stack if g is f) > 2:
            self.notes.append(("depth", f.full, self.site))
            return self.opaque_call(f.path, f, args, st, pc, dty)
        return self.invoke(f, args, st, pc, ckey + (f.i,))

    def opaque_call(self, d, f, args, st, pc, dty):
        self.opaque[d] = self.opaque.get(d, 0) + 1
        if dty is not None and self.p.types[dty]["k"] == "never":
            self.obligation(pc, "call " + d, FALSE, [])
            return None, FALSE
        vals = [self.snap(st, a) for a in args]
        for a in args:
            self.havoc(st, a, d, args, "opaque")
        r = mk("call", d, *vals)
        if f is not None and f.targs:
            r = mk("call", d + "<" + ",".join(self.tname(x) for x in f.targs) + ">", *vals) if self.models.keep_targs(d) else r
        return self.note_range(r, dty), pc

    # ------------------------------------------------------------ loops
    def loop(self, fr, header, body, pc, st, rets):
        key = (fr.ctx, header)

        def run_body(hpc, hst, rets2):
            return self.region(fr, header, body, hpc, hst, True, rets2)

        return self.solve_loop(key, run_body, pc, st, rets)

    def solve_loop(self, key, run_body, pc, st, rets):
        """run_body(pc, state, rets) -> (back edges, exits)"""
        if self.relpc and pc is not TRUE:
            self.outer.append(pc)
            rs = []
            n0 = len(self.ev)
            try:
                out = self.solve_loop(key, run_body, TRUE, st, rs)
            finally:
                self.outer.pop()
            self.group(n0, pc)
            rets += [(AND(pc, p), s) for p, s in rs]
            return {t: [(AND(pc, p), s) for p, s in es] for t, es in out.items()}
        kid0 = self.ctx("loop", *key)
        again = self.loopkinds.get(kid0)
        if again is not None:
            out = self.solve_again(kid0, again, run_body, pc, st, rets)
            if out is not None:
                return out
        # 1. constant trip counts: follow them
        cur = [(pc, dict(st))]
        evmark, oblmark = len(self.ev), len(self.obl)
        acc = {}
        n = 0
        base_budget = self.budget
        unrolled = True
        retmark = len(rets)
        unr = self.unr
        while True:
            mpc, mst = self.merge(cur)
            rr = []
            self.extra_back.append([])
            self.unr = unr + (n,) if n else unr
            try:
                back, exits = run_body(mpc, dict(mst), rr)
            finally:
                self.unr = unr
            back = back + self.extra_back.pop()
            back = [e for e in back if e[0] is not FALSE]
            live_exit = {t: [e for e in es if e[0] is not FALSE] for t, es in exits.items()}
            live_exit = {t: es for t, es in live_exit.items() if es}
            if back and (live_exit or rr):
                unrolled = False
                break
            if not back:
                rets += rr
                for t, es in live_exit.items():
                    acc.setdefault(t, []).extend(es)
                break
            n += 1
            if n > 40:
                unrolled = False
                break
            cur = back
        if unrolled:
            return acc
        del self.ev[evmark:]
        del self.obl[oblmark:]
        del rets[retmark:]
        # 2. widening
        kid = self.ctx("loop", *key)
        idx = mk("idx", kid)
        TM.RANGE.setdefault(idx, (0, (1 << 48)))
        init = dict(st)
        h = dict(st)
        kinds = {}       # (cell, path) -> ('ind', c) | 'lv'
        inits = {}
        outer_ev, outer_obl = self.ev, self.obl
        for rounds in range(40):
            self.ev, self.obl = [], []
            self.extra_back.append([])
            rr = []
            try:
                back, exits = run_body(pc, dict(h), rr)
            finally:
                extra = self.extra_back.pop()
                sub_ev, sub_obl = self.ev, self.obl
                self.ev, self.obl = outer_ev, outer_obl
            back = back + extra
            if not back:
                break
            bpc, bst = self.merge(back)
            changed = False
            updates = {}
            for cell, hv in h.items():
                bv = bst.get(cell, hv)
                if bv is hv:
                    continue
                bv = constrain_deep(bv, bpc)
                if bv is hv:
                    continue
                nv = self.widen(cell, (), init.get(cell), hv, bv, kid, idx, kinds, inits, updates)
                if nv is not hv:
                    h[cell] = nv
                    changed = True
            if not changed:
                break
        else:
            self.notes.append(("loop-unstable", str(key), self.site))
        self.loopkinds[kid] = dict(kinds)
        return self.loop_exit(kid, idx, kinds, inits, updates if back else {}, back, exits, rr, pc, st, sub_ev, sub_obl, rets)

    def solve_again(self, kid, was, run_body, pc, st, rets):
        """a loop met before (an enclosing loop is being solved): its variables are as they were, if that is still a solution"""
        idx = mk("idx", kid)
        h = dict(st)
        kinds, inits = {}, {}

        def place(v, path, k, key):
            if not path:
                if v is None:
                    return None
                inits[key], kinds[key] = v, k
                return mk("lv", kid, *key) if k == "lv" else add(v, scale(idx, k[1]))
            if v is None or v.op not in ("adt", "tup", "it", "clo", "wr", "rd") or path[0] >= len(v.a):
                return None
            a = list(v.a)
            a[path[0]] = place(a[path[0]], path[1:], k, key)
            return None if a[path[0]] is None else mk(v.op, *a)
        for key, k in was.items():
            nv = place(h.get(key[0]), key[1], k, key)
            if nv is None:
                return None
            h[key[0]] = nv
        notes = len(self.notes)
        outer_ev, outer_obl = self.ev, self.obl
        self.ev, self.obl = [], []
        self.extra_back.append([])
        rr = []
        try:
            back, exits = run_body(pc, dict(h), rr)
        finally:
            extra = self.extra_back.pop()
            sub_ev, sub_obl = self.ev, self.obl
            self.ev, self.obl = outer_ev, outer_obl
        back = back + extra
        updates = {}
        same = bool(back)
        if same:
            bpc, bst = self.merge(back)
            for cell, hv in h.items():
                bv = bst.get(cell, hv)
                if bv is hv:
                    continue
                bv = constrain_deep(bv, bpc)
                if bv is hv:
                    continue
                nk = dict(kinds)
                if self.widen(cell, (), st.get(cell), hv, bv, kid, idx, nk, dict(inits), updates) is not hv or nk != kinds:
                    same = False
                    break
        if not same or set(updates) != set(kinds):
            del self.notes[notes:]
            del self.loopkinds[kid]
            return None
        return self.loop_exit(kid, idx, kinds, inits, updates, back, exits, rr, pc, st, sub_ev, sub_obl, rets)

    def widen(self, cell, path, init, hv, bv, kid, idx, kinds, inits, updates):
        key = (cell, path)
        if hv is bv:
            return hv
        k = kinds.get(key)
        if k is None and hv.op == bv.op and hv.op in ("adt", "tup", "it", "clo", "wr", "rd") and len(hv.a) == len(bv.a) and all(
                isinstance(x, T) == isinstance(y, T) and (isinstance(x, T) or x == y) for x, y in zip(hv.a, bv.a)):
            ni = init if init is not None and init.op == hv.op and len(init.a) == len(hv.a) else hv
            out = []
            for j, (x, y) in enumerate(zip(hv.a, bv.a)):
                if isinstance(x, T) and x is not y:
                    out.append(self.widen(cell, path + (j,), ni.a[j], x, y, kid, idx, kinds, inits, updates))
                else:
                    out.append(x)
            return mk(hv.op, *out)
        lvt = mk("lv", kid, cell, path)
        if k is None:
            inits[key] = init if init is not None else hv
            d = None
            dd = int_delta(hv, bv)
            if dd is not None and dd.op == "int":
                d = dd.a[0]
            if d is not None:
                kinds[key] = ("ind", d)
                return add(hv, scale(idx, d))
            kinds[key] = "lv"
            self.seed_range(lvt, hv)
            return lvt
        if k == "lv":
            updates[key] = bv
            return hv
        # induction: bv must be hv + d
        dd = int_delta(hv, bv)
        if dd is not None and dd.op == "int" and dd.a[0] == k[1]:
            updates[key] = bv
            return hv
        kinds[key] = "lv"
        return lvt

    def seed_range(self, lvt, hv):
        pass

    def loop_exit(self, kid, idx, kinds, inits, updates, back, exits, rr, pc, st, sub_ev, sub_obl, rets):
        # the normal exit: the one not controlled by anything but the trip count
        trip = None
        trip_key = None
        flat = [(t, e) for t, es in exits.items() for e in es]
        lens = None
        for t, (epc, est) in flat:
            c = rel(epc, pc)
            n = trip_of(c, idx)
            if n is not None and any(x.op == "len" and x.a[0].op == "lv" for x in subterms(n)):
                # the length of a list changed in place
                if lens is None:
                    lens = same_lengths(kid, kinds, inits, updates)
                n = subst(n, lens)
            if n is not None and not any(x is idx or x.op in ("lv", "lvx") and x.a[0] == kid for x in subterms(n)):
                trip = n
                trip_key = (t, epc)
                break
        if trip is None and len(flat) == 1 and not rr:
            trip_key = (flat[0][0], flat[0][1][0])
        n = trip if trip is not None else mk("trip", kid)
        if self.ivals:
            n = subst(n, self.ivals)
            updates = {k: subst(u, self.ivals) for k, u in updates.items()}
        info = {"idx": idx, "trip": n, "kinds": kinds, "inits": inits, "updates": updates, "exits": [(t, e[0]) for t, e in flat],
                "rets": [e[0] for e in rr], "site": self.site}
        self.loopinfo[kid] = info
        # values at the normal exit
        k = 1
        norm = {}
        lvs = {mk("lv", kid, c, p): (inits[(c, p)], updates.get((c, p))) for (c, p), kk in kinds.items() if kk == "lv"}
        for lvt, (i0, u) in lvs.items():
            if u is None:
                u = lvt
            self.lv[lvt] = (i0, u)
        for lvt, (i0, u) in lvs.items():
            if u is None:
                u = lvt
            norm[lvt] = fold_term(lvt, i0, u, n, idx, lvs)
        m_norm = dict(norm)
        m_norm[idx] = n
        m_norm.update(self.ivals)
        brk = mk("brk", kid)
        m_brk = {idx: brk}
        m_brk.update(self.ivals)
        for t in norm:
            m_brk[t] = mk("lvx", *t.a)
            self.lv[m_brk[t]] = self.lv[t]
        # events
        if sub_ev:
            self.ev.append(Ev(pc, "loop", (kid, n), self.site, sub_ev))
        self.obl += sub_obl
        out = {}
        early = 0
        memo_n, memo_b = {}, {}
        nexits = len(flat) + len(rr)
        lx = mk("lx", kid)

        def conv(epc, est, m, memo, code):
            s = {}
            for c, v in est.items():
                if c in st and st[c] is v:
                    s[c] = v
                else:
                    s[c] = subst(v, m, memo)
            if nexits == 1:
                return pc, s
            # the exits exclude one another and together cover everything
            return AND(pc, not_vals(lx, tuple(range(1, nearly + 1))) if code == 0 or code > nearly else is_val(lx, code)), s

        normal = bool(trip_key) and any(t == trip_key[0] and e[0] is trip_key[1] for t, e in flat)
        nearly = nexits - 1 if normal else nexits
        if not normal:
            nearly -= 1

        for t, (epc, est) in flat:
            if trip_key and t == trip_key[0] and epc is trip_key[1]:
                out.setdefault(t, []).append(conv(epc, est, m_norm, memo_n, 0))
            else:
                early += 1
                info.setdefault("early", {})[early] = subst(epc, self.ivals) if self.ivals else epc
                out.setdefault(t, []).append(conv(epc, est, m_brk, memo_b, early))
        for epc, est in rr:
            early += 1
            info.setdefault("early", {})[early] = subst(epc, self.ivals) if self.ivals else epc
            rets.append(conv(epc, est, m_brk, memo_b, early))
        return out


DISCR_DOM = {}


def int_delta(hv, bv):
    """bv - hv when both are integers"""
    if not any(x.op in ("int", "lin") for y in (hv, bv) for x in leaves(y)):
        return None
    if any(x.op in ("adt", "tup", "arr", "str", "cat", "ptr", "clo", "it", "rd", "wr", "float") for y in (hv, bv) for x in leaves(y)):
        return None
    return sub(bv, hv)


SHAPES = ("adt", "tup", "it", "clo", "wr", "rd")


def constrain_deep(t, pc):
    """constrain, also inside aggregates"""
    t = constrain(t, pc)
    if t.op in SHAPES and any(isinstance(x, T) and (x.op == "g" or x.op in SHAPES) for x in t.a):
        return mk(t.op, *[constrain_deep(x, pc) if isinstance(x, T) else x for x in t.a])
    return t


def rel(epc, pc):
    """epc simplified under pc"""
    if epc is pc:
        return TRUE
    return constrain(epc, pc)


def same_lengths(kid, kinds, inits, updates):
    """{length of a loop variable: its initial length} for the lists that no round makes longer or shorter"""
    out = {}
    for key, k in kinds.items():
        if k != "lv" or key not in inits or updates.get(key) is None:
            continue
        l = mk("lv", kid, *key)
        try:
            if seq_len(updates[key]) is mk("len", l):
                out[mk("len", l)] = seq_len(inits[key])
        except Lost:
            pass
    return out


def trip_of(c, idx, depth=0):
    """n such that c is exactly 'not (idx < n)'"""
    if c is TRUE:
        return I(0)
    if c.op == "g" and depth < 1 and idx not in subterms(c.a[0]):
        # the exit depends on something that is the same in every round
        arms = []
        for k, t in c.a[1]:
            n = trip_of(t, idx, depth + 1)
            if n is None:
                return None
            arms.append((k, n))
        df = trip_of(c.a[2], idx, depth + 1) if c.a[2] is not BOT else BOT
        return None if df is None else mux(c.a[0], arms, df)
    if c.op != "g" or (c.a[2].op == "g"):
        return None
    at = c.a[0]
    # le0(idx - n + 1) false  ->  {0: TRUE} else FALSE
    kids = dict(c.a[1])
    if at.op == "le0":
        cc, d = lin_parts(at.a[0])
        if idx not in d:
            return None
        z, o = kids.get(0, c.a[2]), (c.a[2] if 0 in kids else kids.get(1, c.a[2]))
        k = d[idx]
        rest = mk_lin(cc, {x: v for x, v in d.items() if x is not idx})
        if k == 1 and z is TRUE and o is FALSE:
            # exit when not (idx + rest <= 0): continue while idx <= -rest
            return add(scale(rest, -1), I(1))
        if k == -1 and o is TRUE and z is FALSE:
            # exit when -idx + rest <= 0: idx >= rest
            return rest
        return None
    if at is idx and c.a[2] is FALSE and len(c.a[1]) == 1 and c.a[1][0][1] is TRUE:
        return I(c.a[1][0][0])
    if at.op == "lin" and idx in dict(at.a[1]) and len(c.a[1]) == 1 and c.a[1][0][0] == 0 and c.a[1][0][1] is TRUE and c.a[2] is FALSE:
        cc, d = lin_parts(at)
        k = d[idx]
        rest = mk_lin(cc, {x: v for x, v in d.items() if x is not idx})
        if k == 1:
            return scale(rest, -1)
        if k == -1:
            return rest
    return None


def max_bv(t):
    m = 0
    for x in subterms(t):
        if x.op == "bv" and x.a[0] > m:
            m = x.a[0]
    return m


def close(idx, *bodies):
    """replace idx by a bound variable that does not clash; canonical up to renaming"""
    k = 1 + max([max_bv(b) for b in bodies] + [0])
    b = mk("bv", k)
    memo = {}
    return k, [subst(x, {idx: b}, memo) for x in bodies]


NARROW = False              # also oblige integer casts to keep their value
PINS = {}  # type: discriminant assumed for every symbolic value of it
ONE_LENGTH = False          # take the length of a list as one number while a loop over it is solved (the caller puts it back in)
CLOSE_OTHERS = False        # set by analyses of conversions; bit-level loops become too large with it


def fold_term(lvt, init, upd, n, idx, lvs):
    if upd is lvt:
        return init
    others = [x for x in lvs if x is not lvt and x in subterms(upd)]
    m = {}
    for o in others if CLOSE_OTHERS else ():
        # another variable that is a running total or list on its own: its value at this iteration
        i0, u = lvs[o]
        if u is None or any(x is not o and x in subterms(u) for x in lvs):
            continue
        v = fold_term(o, i0, u, idx, idx, {o: lvs[o]})
        if v.op not in ("fold", "last", "updall"):
            m[o] = v
    if m:
        upd = subst(upd, m)
        others = [x for x in others if x not in m]
    if lvt not in subterms(upd) and not others:
        # last value written (or init when no iteration)
        if idx not in subterms(upd):
            return mk("last", n, init, upd)
        k, (b,) = close(idx, upd)
        return mk("last", n, init, b, k)
    if not others:
        # push accumulators
        if upd.op == "push" and upd.a[0] is lvt and lvt not in subterms(upd.a[1]):
            return seq_cat(init, mk_comp(n, upd.a[1], idx))
        if upd.op == "cat" and upd.a[0] is lvt and not any(lvt in subterms(x) for x in upd.a[1:]):
            rest = seq_cat(*upd.a[1:])
            if rest.op == "arr" and len(rest.a) == 1:
                return seq_cat(init, mk_comp(n, rest.a[0], idx))
            k, (b,) = close(idx, rest)
            return seq_cat(init, mk("flat", n, b, k))
        if upd.op == "g" and not any(lvt in subterms(at) for at in atoms(upd)):
            lf = leaves(upd)
            if all(x is lvt or (x.op == "cat" and x.a[0] is lvt and not any(lvt in subterms(y) for y in x.a[1:])) for x in lf):
                # conditional pushes
                b = dist1(lambda x: mk("arr") if x is lvt else seq_cat(*x.a[1:]), upd)
                k, (b,) = close(idx, b)
                return seq_cat(init, mk("flat", n, b, k))
        if upd.op == "lin" or upd.op == "g":
            d = dist1(lambda x: sub(x, lvt), upd)
            if lvt not in subterms(d):
                if idx not in subterms(d):
                    return add(init, mul(n, d))
                k, (b,) = close(idx, d)
                return add(init, mk("sum", n, b, k))
        if upd.op == "store" and upd.a[0] is lvt and upd.a[1] is idx and not occurs_bad(upd.a[2], lvt, idx):
            v = subst(upd.a[2], {mk("elem", lvt, idx): seq_elem(init, idx)})
            k, (b,) = close(idx, v)
            return mk("updall", init, n, b, k)
    k, (b,) = close(idx, upd)
    acc = mk("acc", k)
    return mk("fold", n, init, subst(b, {subst(lvt, {}): acc}), k)


def occurs_bad(t, lvt, idx):
    t2 = subst(t, {mk("elem", lvt, idx): UNIT})
    return lvt in subterms(t2)


# ------------------------------------------------------------- sequences
def mk_comp(n, body, idx):
    if n.op == "int" and n.a[0] <= 16:
        return mk("arr", *[subst(body, {idx: I(j)}) for j in range(n.a[0])])
    k, (b,) = close(idx, body)
    # eta: [s[i] for i < len s] is s
    if b.op == "elem" and b.a[1] is mk("bv", k) and max_bv(b.a[0]) < k and seq_len(b.a[0]) is n:
        return b.a[0]
    return mk("comp", n, b, k)


ARRLEN = {}


def seq_len(s):
    if s in ARRLEN:
        return I(ARRLEN[s])
    if s.op == "g":
        return dist1(seq_len, s)
    if s.op == "arr":
        return I(len(s.a))
    if s.op == "str":
        return I(len(s.a[0].encode("utf-8", "surrogatepass")))
    if s.op == "comp":
        return s.a[0]
    if s.op == "rep":
        return s.a[1]
    if s.op == "cat":
        r = I(0)
        for x in s.a:
            r = add(r, seq_len(x))
        return r
    if s.op == "push":
        return add(seq_len(s.a[0]), I(1))
    if s.op in ("store", "updall", "splice", "rev", "sorted", "mutelems"):
        return seq_len(s.a[0])
    if s.op == "slice":
        return sub(s.a[2], s.a[1])
    if s.op == "flat":
        l = seq_len(s.a[1])
        if max_bv(l) < s.a[2]:
            return mul(s.a[0], l)
    if s.op == "bytes" and s.a[0].op == "str":
        return I(len(s.a[0].a[0].encode()))
    if s.op in ("bytes",):
        return seq_len(s.a[0])
    if s.op == "lebytes":
        return I(s.a[1])
    if s.op == "rdb":
        return s.a[2]
    r = mk("len", s)
    return r


def seq_elem(s, i):
    if s.op == "g":
        return dist1(lambda x: seq_elem(x, i), s)
    if i.op == "g":
        return dist1(lambda x: seq_elem(s, x), i)
    if s.op == "bot":
        return s
    if s.op == "arr" and i.op == "int":
        return s.a[i.a[0]] if 0 <= i.a[0] < len(s.a) else BOT
    if s.op == "rep":
        return s.a[0]
    if s.op == "comp":
        return subst(s.a[1], {mk("bv", s.a[2]): i})
    if s.op == "cat" and i.op == "int":
        j = i.a[0]
        for x in s.a:
            l = seq_len(x)
            if l.op != "int":
                break
            if j < l.a[0]:
                return seq_elem(x, I(j))
            j -= l.a[0]
    if s.op == "store":
        c = eq(s.a[1], i)
        if c is TRUE:
            return s.a[2]
        if c is FALSE:
            return seq_elem(s.a[0], i)
        return ite(c, s.a[2], seq_elem(s.a[0], i))
    if s.op == "push":
        l = seq_len(s.a[0])
        if l is i:
            return s.a[1]
    if s.op == "updall":
        c = lt(i, s.a[1])
        return ite(c, subst(s.a[2], {mk("bv", s.a[3]): i}), seq_elem(s.a[0], i)) if c is not TRUE else subst(s.a[2], {mk("bv", s.a[3]): i})
    if s.op == "slice":
        return seq_elem(s.a[0], add(s.a[1], i))
    if s.op == "rev":
        return seq_elem(s.a[0], sub(sub(seq_len(s.a[0]), I(1)), i))
    return mk("elem", s, i)


def seq_slice(s, a, b):
    if s.op == "g":
        return dist1(lambda x: seq_slice(x, a, b), s)
    if s.op == "arr" and a.op == "int" and b.op == "int":
        return mk("arr", *s.a[a.a[0]:b.a[0]])
    if a is I(0) and b is seq_len(s):
        return s
    if s.op == "slice":
        return seq_slice(s.a[0], add(s.a[1], a), add(s.a[1], b))
    return mk("slice", s, a, b)


def seq_splice(s, a, b, new):
    """s with the elements [a, b) replaced by as many new ones"""
    if a is I(0) and b is seq_len(s):
        return new
    if s.op == "arr" and a.op == "int" and b.op == "int" and new.op == "arr" and len(new.a) == b.a[0] - a.a[0]:
        return mk("arr", *(s.a[:a.a[0]] + new.a + s.a[b.a[0]:]))
    return mk("splice", s, a, b, new)


TM.REBUILD["splice"] = seq_splice


def seq_cat(*ss):
    out = []
    for s in ss:
        if s.op == "g" and len(ss) == 2:
            pass
        if s.op == "cat":
            parts = s.a
        else:
            parts = (s,)
        for p in parts:
            if p.op == "arr" and not p.a:
                continue
            if p.op == "arr" and out and out[-1].op == "arr":
                out[-1] = mk("arr", *(out[-1].a + p.a))
            else:
                out.append(p)
    if not out:
        return mk("arr")
    if len(out) == 1:
        return out[0]
    return mk("cat", *out)


def seq_store(s, i, v):
    if s.op == "arr" and i.op == "int" and 0 <= i.a[0] < len(s.a):
        a = list(s.a)
        a[i.a[0]] = v
        return mk("arr", *a)
    if s.op == "store" and s.a[1] is i:
        return mk("store", s.a[0], i, v)
    return mk("store", s, i, v)


def fld(x, key):
    """field `key` of a value"""
    def leaf(y):
        if y.op == "tup" and key.isdigit():
            return y.a[int(key)] if int(key) < len(y.a) else BOT
        if y.op == "bot":
            return y
        if y.op == "adt" and TM.PROG is not None:
            d = TM.PROG.types[y.a[0]]
            if d["k"] == "enum":
                vn, _, fn = key.rpartition(".")
                v = d["variants"][y.a[1]]
                if v["n"] != vn:
                    return BOT
            else:
                v, fn = d["variants"][0], key
            for i, f in enumerate(v["f"]):
                if f[0] == fn and i + 2 < len(y.a):
                    return y.a[i + 2]
        return mk("fld", y, key)
    return dist1(leaf, x)


def re_discr(x):
    def leaf(y):
        if y.op == "adt" and TM.PROG is not None:
            dd = TM.PROG.types[y.a[0]]
            return I(int(dd["variants"][y.a[1]]["d"])) if dd["k"] == "enum" else I(0)
        return y if y.op == "bot" else mk("discr", y)
    return dist1(leaf, x)


TM.REBUILD["discr"] = re_discr
TM.REBUILD["fld"] = fld
TM.REBUILD["elem"] = seq_elem
TM.REBUILD["len"] = seq_len
TM.REBUILD["cat"] = seq_cat
TM.REBUILD["slice"] = seq_slice
TM.REBUILD["store"] = seq_store


# ------------------------------------------------------------- integers
def asbool(t):
    if t.op == "g":
        if all(x.op == "int" for x in leaves(t)):
            return t
        return dist1(lambda x: x if x.op == "int" else boolnode(x), t)
    if t.op in ("int", "bot"):
        return t
    return boolnode(t)


def asint(t):
    return t


def int_cast(x, f, t):
    r = INT_RANGE.get(t)
    if r is None:
        return x
    if x.op == "int":
        n = x.a[0]
        m = r[1] - r[0] + 1
        n = (n - r[0]) % m + r[0]
        return I(n)
    lo, hi = rng(x)
    fr = INT_RANGE.get(f)
    if fr:
        lo = fr[0] if lo is None else max(lo, fr[0])
        hi = fr[1] if hi is None else min(hi, fr[1])
    if lo is not None and hi is not None and lo >= r[0] and hi <= r[1]:
        return x
    c = mk("cast", t, x)
    TM.RANGE.setdefault(c, r)
    return c


TM.REBUILD["cast"] = lambda t, x: dist1(lambda y: int_cast(y, "?", t), x)


def ovf(op, r, a, b, t):
    """condition that the mathematical result r does not fit t"""
    lo, hi = INT_RANGE.get(t, (None, None))
    if lo is None:
        return FALSE
    return OR(le0(add(sub(r, I(lo)), I(1))), le0(sub(I(hi + 1), r)))


def nonneg(t):
    lo = TM.rng(t)[0]
    return lo is not None and lo >= 0


def arith2(op, x, y, t):
    cx, cy = x.op == "int", y.op == "int"
    if cx and cy:
        p, q = x.a[0], y.a[0]
        if op == "Div" and q:
            return I(abs(p) // abs(q) * (1 if (p >= 0) == (q >= 0) else -1))
        if op == "Rem" and q:
            return I(abs(p) % abs(q) * (1 if p >= 0 else -1))
        if op == "BitAnd":
            return I(p & q)
        if op == "BitOr":
            return I(p | q)
        if op == "BitXor":
            return I(p ^ q)
        if op == "Shl":
            r = INT_RANGE.get(t)
            v = p << q
            return int_cast(I(v), t, t) if r else I(v)
        if op == "Shr":
            return I(p >> q)
    if op in ("Div", "Rem") and cy and y.a[0] > 1 and x.op == "lin" and all(w % y.a[0] == 0 for w in (x.a[0], *[w for _, w in x.a[1]])):
        k = y.a[0]
        return I(0) if op == "Rem" else mk_lin(x.a[0] // k, {q: w // k for q, w in x.a[1]})
    if op == "Div":
        if cy and y.a[0] == 1:
            return x
        return mk("div", x, y)
    if op == "Rem":
        if cy and y.a[0] > 1 and x.op == "lin" and x.a[0] == y.a[0] and len(x.a[1]) == 1 and x.a[1][0][1] == -1:
            r = x.a[1][0][0]
            if r.op == "rem" and r.a[1] is y and nonneg(r.a[0]):
                # (n - z % n) % n
                return TM.node(r, ((0, I(0)),), x)
        return mk("rem", x, y)
    if op == "BitAnd" and t in ("u64", "usize") and (cx or cy):
        # rounding down to a multiple of a power of two
        m, z = (x, y) if cx else (y, x)
        k = (1 << 64) - m.a[0]
        if 1 < k <= 1 << 32 and k & (k - 1) == 0:
            return mul(I(k), arith2("Div", z, I(k), t))
    if op == "Shl":
        return mk("shl", x, y, t)
    if op == "Shr":
        return mk("shr", x, y)
    n = {"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[op]
    if cx and x.a[0] == 0:
        return I(0) if n == "and" else y
    if cy and y.a[0] == 0:
        return I(0) if n == "and" else x
    if n == "and" and x is y or n == "or" and x is y:
        return x
    fs = []
    for z in (x, y):
        fs += list(z.a) if z.op == n else [z]
    return mk(n, *sorted(fs, key=lambda z: z.id))


TM.REBUILD["div"] = lambda a, b: dist2(lambda x, y: arith2("Div", x, y, "?"), a, b)
TM.REBUILD["rem"] = lambda a, b: dist2(lambda x, y: arith2("Rem", x, y, "?"), a, b)
