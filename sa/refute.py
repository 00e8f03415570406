"""Confirming that two summaries differ: both are instantiated for sample inputs and the resulting constants compared.

A summary is an expression of the input; nothing of the analysed program is run. When the comparison of two summaries fails,
a difference is reported only with an input for which the two expressions have different values; an expression containing
something without a known meaning (a call into a library, a loop without closed form) has no value and confirms nothing.
"""
import gc
import math
import random
import struct
import zlib

import interp as IN
import terms as TM
from terms import *

SIZES = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "f32": 4, "f64": 8}
STRS = ("", "a", "b", "Aa", "Shape", "x_VIS", "zz", "root")


FLOATOPS = {"fneg": lambda x: -x, "fadd": lambda x, y: x + y, "fsub": lambda x, y: x - y, "fmul": lambda x, y: x * y, "fdiv": lambda x, y: x / y,
            "feq": lambda x, y: int(x == y), "flt": lambda x, y: int(x < y), "fle": lambda x, y: int(x <= y)}
FLOATFNS = {"round": lambda x: math.copysign(math.floor(abs(x) + 0.5), x), "abs": abs, "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "signum": lambda x: math.copysign(1.0, x),
            "sqrt": lambda x: math.sqrt(x) if x >= 0 else math.nan}
FLOATTESTS = {"is_sign_negative": lambda x: int(math.copysign(1.0, x) < 0), "is_sign_positive": lambda x: int(math.copysign(1.0, x) > 0), "is_nan": lambda x: int(x != x)}


class Undefined(Exception):
    pass


class Opq:
    """a value nothing is known about, except that equal keys are equal values"""
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key


class Tok(Opq):
    """an arbitrary input value (a float, a string): different keys may be taken as different values"""
    __slots__ = ()


class Seq:
    def __init__(self, n, get):
        self.n, self.get, self.m = n, get, {}

    def at(self, i):
        if not 0 <= i < self.n:
            raise Undefined("index")
        v = self.m.get(i)
        if v is None:
            v = self.m[i] = self.get(i)
        return v


class Rec:
    """a struct, enum or tuple value with lazily made fields"""

    def __init__(self, ti, vi, get):
        self.ti, self.vi, self.get, self.m = ti, vi, get, {}

    def at(self, i):
        v = self.m.get(i)
        if v is None:
            v = self.m[i] = self.get(i)
        return v


class SOpt:
    """an Option made by a search"""

    def __init__(self, v):
        self.v = v


class SStr:
    def __init__(self, s):
        self.s = s


FLOATS = (-2.5, -1.0, 0.0, 0.25, 0.5, 1.0, 1.5, 3.0, 100.0)
BOUND = (0, 1, 2, 3, 127, 128, 255, 256, 257, 32766, 32767, 32768, 65535, 65536, 65537, 2**24, 2**31 - 1, 2**31, 2**32 - 1, 2**32)


class Inputs:
    """a sample value for every type"""

    def __init__(self, p, seed, lens=(), nums=(), small=True, versions=(), shape=None):
        self.p, self.seed, self.lens, self.nums, self.small, self.versions, self.shape = p, seed, lens, nums, small, versions, shape
        self.concrete = seed % 3 == 1
        self.used = {}

    def rnd(self, path):
        return random.Random(zlib.crc32(repr(path).encode()) * 1000003 + self.seed)

    def make(self, ti, path):
        d = self.p.types[ti]
        k = d["k"]
        if self.shape:
            v = self.shape(self, ti, path)
            if v is not None:
                return v
        if k in ("ref", "ptr"):
            return self.make(d["to"], path)
        if k == "struct" and d["path"].endswith("boxed::Box"):
            return self.make(d["args"][0], path)
        if k == "struct" and d["path"].split("::")[-1] in ("SsbhStringN", "CString") or k == "struct" and "SsbhString" in d["path"]:
            r = self.rnd(path)
            return SStr(r.choice(STRS))
        if k == "struct" and d["path"].endswith("string::String") or k == "prim" and d["s"] == "str":
            return self.rnd(path).choice(STRS)
        if k == "prim":
            s = d["s"]
            r = self.rnd(path)
            if self.versions and path[1:] in (("major_version",), ("minor_version",)):
                return self.rnd(("version",)).choice(self.versions)[path[1] == "minor_version"]
            if s == "bool":
                return r.randrange(2)
            if s in IN.INT_RANGE:
                lo, hi = IN.INT_RANGE[s]
                x = r.random()
                if x < (0.8 if self.small else 0.3):
                    v = r.randrange(0, 4)
                elif x < 0.9 and lo < 0:
                    v = -r.randrange(1, 4)
                else:
                    v = r.choice(tuple(self.nums) + BOUND)
                return min(max(v, lo), hi)
            if self.concrete and s in ("f32", "f64"):
                return r.choice(FLOATS)
            return Tok(("in",) + path)
        if k in ("array", "slice"):
            n = int(d["len"]) if k == "array" and d.get("len") is not None else self.length(path)
            return Seq(n, lambda i: self.make(d["of"], path + (i,)))
        if k == "struct" and d["path"].endswith("vec::Vec"):
            return Seq(self.length(path), lambda i: self.make(d["args"][0], path + (i,)))
        if k in ("struct", "enum"):
            vs = d["variants"]
            vi = self.rnd(path).randrange(len(vs)) if k == "enum" else 0
            if not vs:
                raise Undefined("empty type")
            fs = vs[vi]["f"]
            return Rec(ti, vi, lambda i: self.make(fs[i][1], path + (fs[i][0],)))
        if k == "tuple":
            return Rec(ti, 0, lambda i: self.make(d["fs"][i], path + (i,)))
        return Tok(("in",) + path)

    def length(self, path):
        r = self.rnd(("len",) + path)
        if self.lens and len(self.used) < 3:
            # a few lists are long
            pat = tuple(x for x in path if not isinstance(x, int))
            if pat in self.used or r.random() < 0.5 and all(not isinstance(x, int) or x == 0 for x in path):
                self.used[pat] = 1
                return r.choice(self.lens)
        return r.choice((0, 1, 1, 2, 2, 3, 4))


LEAF = {"bv", "bvx", "acc", "lv", "idx", "sym"}
SMALL = LEAF | {"int", "float"}
HIDDEN = {"lx", "trip", "loop"}  # evaluated from the description of a loop
_leaves = {}


def leaves(t):
    """the variables of t that can be bound; None if not apparent"""
    r = _leaves.get(t, 0)
    if r != 0:
        return r
    st = [t]
    while st:
        x = st[-1]
        if x in _leaves:
            st.pop()
            continue
        ks = []
        for y in x.a:
            if isinstance(y, T):
                ks.append(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, T):
                        ks.append(z)
                    elif isinstance(z, tuple):
                        ks += [w for w in z if isinstance(w, T)]
        todo = [y for y in ks if y not in _leaves]
        if todo:
            st += todo
            continue
        st.pop()
        if x.op in HIDDEN:
            r = None
        else:
            rs = [_leaves[y] for y in ks]
            r = None if None in rs else frozenset().union(*rs) | (frozenset((x,)) if x.op in LEAF else frozenset())
        _leaves[x] = r
    return _leaves[t]


class Eval:
    def __init__(self, p, env, its=(), normal=False):
        self.searches = {}          # loops that only look for something: {outcome: (index, condition of finding it, rounds)}
        self.partial = False        # not every write was performed
        self.exact = False          # evaluate the outcomes of loops where they have a value, in spite of normal
        self.floats = False         # numbers read from bytes are real ones
        self.tolerance = 1e-3
        self.normal = normal        # the sample is such that every search of a loop ends without finding anything
        self.p, self.env, self.its = p, dict(env), its
        self.steps = 0
        self.bvs = {}
        self.memo = {}
        self.memo_bound = {}
        self.depth = 0

    def ev(self, t):
        if not self.bvs:
            v = self.memo.get(t)
            if v is not None:
                return v
            k = None
        else:
            k = self.bound(t)
            if k is not None:
                v = self.memo_bound.get(k)
                if v is not None:
                    return v[0]
        self.steps += 1
        if self.steps > 3000000:
            raise Undefined("too long")
        v = self.ev1(t)
        if not self.bvs:
            self.memo[t] = v
        elif k is not None:
            self.memo_bound[k] = (v, self.bvs)  # keeps the values alive which the key names
        return v

    def bound(self, t):
        """a key for t and the bindings it can depend on, or None"""
        if t.op in SMALL:
            return None
        l = leaves(t)
        if l is None:
            return None
        key = [t, self.exact]
        for b, v in self.bvs.items():
            if b.op not in LEAF:
                return None
            if b in l:
                key += [b, (v.__class__, v, math.copysign(1, v)) if isinstance(v, float) else (v,) if isinstance(v, (int, str)) else id(v)]
        return tuple(key)

    def num(self, t):
        v = self.ev(t)
        if not isinstance(v, int):
            raise Undefined("number")
        return v

    def seq(self, t):
        v = self.ev(t)
        if isinstance(v, str):
            b = v.encode()
            return Seq(len(b), lambda i: b[i])
        if not isinstance(v, Seq):
            raise Undefined("sequence")
        return v

    def under(self, b, t, vals):
        """t with the bound variable b"""
        old = self.bvs
        self.bvs = dict(old)
        self.bvs.update(vals)
        try:
            return self.ev(t)
        finally:
            self.bvs = old

    def lazily(self, t, vals):
        """a function evaluating t later, under the present bindings"""
        base = dict(self.bvs)

        def f(**kw):
            pass
        return base

    def ev1(self, t):
        o, a = t.op, t.a
        if t in self.bvs:
            return self.bvs[t]
        if o == "int":
            return a[0]
        if t in self.env:
            return self.env[t]
        if o == "lin":
            return a[0] + sum(self.num(k) * w for k, w in a[1])
        if o == "mul":
            r = 1
            for x in a:
                r *= self.num(x)
            return r
        if o in ("div", "rem"):
            x, y = self.num(a[0]), self.num(a[1])
            if y == 0:
                raise Undefined("division")
            q = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
            return q if o == "div" else x - q * y
        if o in ("min", "max"):
            return (min if o == "min" else max)(self.num(x) for x in a)
        if o in ("and", "or", "xor"):
            r = self.num(a[0])
            for x in a[1:]:
                y = self.num(x)
                r = r & y if o == "and" else r | y if o == "or" else r ^ y
            return r
        if o == "shr":
            return self.num(a[0]) >> self.num(a[1])
        if o == "shl":
            v = self.num(a[0]) << self.num(a[1])
            return self.cast(a[2] if len(a) > 2 else None, v)
        if o == "cast":
            return self.cast(a[0], self.num(a[1]))
        if o == "le0":
            return int(self.num(a[0]) <= 0)
        if o == "eq":
            return int(self.equal(self.ev(a[0]), self.ev(a[1])))
        if o == "g":
            if self.normal and a[0].op == "loop" and a[2] is not BOT and a[0].a[0] == "lx" and a[0] not in self.searches:
                return self.ev(a[2])
            if self.normal and a[0].op == "lx" and a[2] is not BOT:
                try:
                    v = self.num(a[0]) if self.exact else 0
                except Undefined:
                    v = 0
                for k, x in a[1]:
                    if k == v:
                        return self.ev(x)
                return self.ev(a[2])
            v = self.ev(a[0])
            if not isinstance(v, int):
                raise Undefined("condition")
            for k, x in a[1]:
                if k == v:
                    return self.ev(x)
            return self.ev(a[2])
        if o == "bot":
            raise Undefined("bot")
        if o == "str":
            return a[0] if isinstance(a[0], str) else Opq(t)
        if o == "float":
            try:
                return float(a[0])
            except ValueError:
                return Tok(("const", a[0]))
        if o in FLOATOPS or o == "ffn":
            return self.floating(t)
        if o == "sstr":
            v = self.ev(a[0])
            if isinstance(v, Seq):
                raise Undefined("bytes")
            return SStr(v)
        if o in ("text", "hastext", "lossy", "tostring"):
            v = self.ev(a[0])
            if isinstance(v, SStr):
                return v.s if o != "hastext" else 1
            if isinstance(v, str) and o != "hastext":
                return v
            raise Undefined(o)
        if o in ("adt", "tup", "tuple"):
            off = 2 if o == "adt" else 0
            base = dict(self.bvs)

            def field(i):
                if off + i >= len(a) or not isinstance(a[off + i], T):
                    raise Undefined("field")
                return self.under(None, a[off + i], base)
            return Rec(a[0] if o == "adt" else None, (a[1] or 0) if o == "adt" else 0, field)
        if o == "fld":
            return self.field(self.ev(a[0]), a[1])
        if o == "discr":
            v = self.ev(a[0])
            if isinstance(v, SOpt):
                return int(v.v is not None)
            if isinstance(v, Rec) and v.ti is not None:
                return int(self.p.types[v.ti]["variants"][v.vi]["d"])
            raise Undefined("discr")
        if o == "len":
            return self.seq(a[0]).n
        if o == "elem":
            return self.seq(a[0]).at(self.num(a[1]))
        if o == "slice":
            s, lo, hi = self.seq(a[0]), self.num(a[1]), self.num(a[2])
            if not 0 <= lo <= hi <= s.n:
                raise Undefined("slice")
            return Seq(hi - lo, lambda i: s.at(lo + i))
        if o == "arr":
            base = dict(self.bvs)
            return Seq(len(a), lambda i: self.under(None, a[i], base))
        if o == "rep":
            v = self.ev(a[0])
            return Seq(self.num(a[1]), lambda i: v)
        if o == "rev":
            s = self.seq(a[0])
            return Seq(s.n, lambda i: s.at(s.n - 1 - i))
        if o == "comp":
            base = dict(self.bvs)
            b = mk("bv", a[2])
            return Seq(self.count(a[0]), lambda i: self.under(None, a[1], {**base, b: i}))
        if o == "flat":
            base = dict(self.bvs)
            b = mk("bv", a[2])
            parts = [self.under_seq(a[1], {**base, b: i}) for i in range(self.count(a[0]))]
            return self.concat(parts)
        if o == "cat":
            return self.concat([self.seq(x) for x in a])
        if o == "splice":
            s, lo, hi, new = self.seq(a[0]), self.num(a[1]), self.num(a[2]), self.seq(a[3])
            return Seq(s.n, lambda i: new.at(i - lo) if lo <= i < hi else s.at(i))
        if o == "store":
            s, j = self.seq(a[0]), self.num(a[1])
            v = a[2]
            base = dict(self.bvs)
            return Seq(s.n, lambda i: self.under(None, v, base) if i == j else s.at(i))
        if o == "updall":
            s, n, b = self.seq(a[0]), self.count(a[1]), mk("bv", a[3])
            base = dict(self.bvs)
            return Seq(s.n, lambda i: self.under(None, a[2], {**base, b: i}) if i < n else s.at(i))
        if o == "sum":
            b = mk("bv", a[2])
            base = dict(self.bvs)
            r = 0
            for i in range(self.count(a[0])):
                r += self.under_num(a[1], {**base, b: i})
            return r
        if o == "last":
            n = self.count(a[0])
            if n == 0:
                return self.ev(a[1])
            if len(a) < 4:
                return self.ev(a[2])
            return self.under(None, a[2], {**self.bvs, mk("bv", a[3]): n - 1})
        if o == "fold":
            v = self.ev(a[1])
            for i in range(self.count(a[0])):
                v = self.under(None, a[2], {**self.bvs, mk("bv", a[3]): i, mk("acc", a[3]): v})
            return v
        if o == "positions":
            s = self.seq(a[0])
            arg = sym("arg", "positions")
            out = [i for i in range(s.n) if self.under(None, a[1], {**self.bvs, arg: s.at(i)}) != 0]
            return Seq(len(out), lambda i: out[i])
        if o in ("unique", "unique_by", "dedup", "dedup_by_key", "sorted", "sorted_by_key"):
            return self.adapted(t)
        if o in ("it_max", "it_min") and len(a) == 1 or o in ("it_position", "it_find", "it_rposition", "it_all_equal", "it_all_unique"):
            return self.search(t)
        if o == "bit":
            return (self.num(a[0]) >> a[1]) & 1
        if o == "setbit":
            v, b = self.num(a[0]), self.num(a[2])
            return v & ~(1 << a[1]) | (b & 1) << a[1]
        if o == "rdT":
            return self.read(t)
        if o == "call" and len(a) == 2 and isinstance(a[1], T) and "f16::" in str(a[0]):
            v, fn = self.ev(a[1]), str(a[0]).split("::")[-1]
            if fn == "from_bits" and isinstance(v, int):
                return Tok(("f16", v))
            if fn == "from_f32" and isinstance(v, (float, Tok)):
                return Tok(("f16 of", v if isinstance(v, float) else v.key))
            if fn == "to_le_bytes" and isinstance(v, Tok):
                return Seq(2, lambda i: Tok(("byte", i, v.key)))
            return self.opaque(t)
        if o == "lebytes":
            v, n = self.ev(a[0]), a[1].a[0] if isinstance(a[1], T) else a[1]
            ty = a[2]
            if isinstance(v, int):
                b = (v % (1 << 8 * n)).to_bytes(n, "little")
                return Seq(n, lambda i: b[i])
            if isinstance(v, (float, Tok)):
                return Seq(n, lambda i: Tok(("byte", i, str(ty), v if isinstance(v, float) else v.key)))
            return Seq(n, lambda i: Opq(("byte", i, str(ty), v.key if isinstance(v, Opq) else id(v))))
        if o == "wrote":
            return self.wrote(t)
        if o in ("rdb", "avail", "lebits", "packed", "call", "wrap", "i2f", "f2f", "it_reduce", "it_last", "forall"):
            return self.more(t)
        if o == "f2i":
            v = self.ev(a[1])
            r = IN.INT_RANGE.get(a[0])
            return min(max(int(v), r[0]), r[1]) if isinstance(v, float) and r and math.isfinite(v) else self.opaque(t)
        if o == "loop" and t in self.searches:
            ix, cond, n = self.searches[t]
            old = self.bvs
            try:
                for i in range(self.count(n)):
                    self.bvs = {**old, ix: i}
                    if self.num(cond):
                        return 1
                return 0
            finally:
                self.bvs = old
        if o == "lx":
            return self.loop(a[0])[0]
        if o == "trip":
            return self.loop(a[0])[1]
        return self.opaque(t)

    def more(self, t):
        o, a = t.op, t.a
        if o == "rdb":
            s, q, n = self.seq(a[0]), self.num(a[1]), self.num(a[2])
            if not 0 <= q <= s.n - n:
                raise Undefined("read")
            return Seq(n, lambda i: s.at(q + i))
        if o == "avail":
            n = max(0, self.seq(a[0]).n - self.num(a[1]))
            return min(n, self.num(a[2])) if len(a) > 2 else n
        if o == "lebits":
            v, n = self.num(a[0]), self.num(a[1])
            return Seq(n, lambda i: v >> i & 1)
        if o == "packed":
            s = self.seq(a[0])
            b = [s.at(i) for i in range(s.n)]
            if not all(x in (0, 1) for x in b):
                raise Undefined("bits")
            return Seq((s.n + 7) // 8, lambda i: sum(x << j for j, x in enumerate(b[8 * i:8 * i + 8])))
        if o == "wrap":
            return self.cast(a[0], self.num(a[1]))
        if o == "i2f":
            return float(self.num(a[1]))
        if o == "f2f":
            v = self.ev(a[1])
            if not isinstance(v, float):
                return self.opaque(t)
            return struct.unpack("<f", struct.pack("<f", v))[0] if a[0] == "f32" and abs(v) < 1e38 else v
        if o == "forall":
            b, base = mk("bv", a[2]), dict(self.bvs)
            return int(all(self.under_num(a[1], {**base, b: i}) for i in range(self.count(a[0]))))
        if o == "it_last" and len(a) == 1:
            s = self.seq(a[0])
            return SOpt(s.at(s.n - 1) if s.n else None)
        if o == "it_reduce":
            s = self.seq(a[0])
            bx = sorted((x for x in subterms(a[1]) if x.op == "bvx" and x not in self.bvs), key=lambda x: x.a[0])
            if len(bx) != 2:
                raise Undefined("reduction")
            if s.n == 0:
                return SOpt(None)
            v = s.at(0)
            for i in range(1, s.n):
                v = self.under(None, a[1], {**self.bvs, bx[0]: v, bx[1]: s.at(i)})
                if isinstance(v, Rec):
                    for j in range(len(self.p.types[v.ti]["variants"][v.vi]["f"]) if v.ti is not None else 0):
                        v.at(j)
            return SOpt(v)
        if o == "call" and "bitvec" in str(a[0]):
            fn = str(a[0]).split("::")[-1]
            if fn == "from_slice":
                s = self.seq(a[1])
                return Seq(8 * s.n, lambda i: s.at(i // 8) >> i % 8 & 1)
            if fn in ("as_bitslice", "deref", "as_mut_bitslice"):
                return self.seq(a[1])
            if fn == "load_le":
                s = self.seq(a[1])
                return sum(s.at(i) << i for i in range(s.n))
            if fn == "get":
                s, r = self.seq(a[1]), self.ev(a[2])
                if isinstance(r, int):
                    return SOpt(s.at(r) if r < s.n else None)
                if isinstance(r, Rec) and r.ti is not None and self.p.types[r.ti]["path"].endswith("::Range"):
                    lo, hi = r.at(0), r.at(1)
                    if not (isinstance(lo, int) and isinstance(hi, int)):
                        raise Undefined("range")
                    return SOpt(Seq(hi - lo, lambda i: s.at(lo + i)) if lo <= hi <= s.n else None)
        return self.opaque(t)

    def wrote(self, t):
        """a list of bytes after writing some at a position"""
        s, q, b = self.seq(t.a[0]), self.num(t.a[1]), self.seq(t.a[2])
        n = max(s.n, q + b.n)
        return Seq(n, lambda i: b.at(i - q) if q <= i < q + b.n else s.at(i) if i < s.n else 0)

    def writes(self, it, evs, out, budget=60000):
        """perform the writes of the events: {buffer: {position: byte}}"""
        for e in evs:
            if e.kind == "if":
                if self.num(e.pc):
                    self.writes(it, e.sub, out, budget)
            elif e.kind == "loop":
                self.rounds(it, e, out, budget)
            elif e.kind == "write" and self.num(e.pc):
                src, pos, n, data = e.d
                q, d = self.num(pos), self.seq(data)
                m = out.setdefault(src, {})
                ix = range(d.n)
                if d.n > 4096:
                    self.partial, ix = True, (0, 1, d.n // 2, d.n - 1)
                for i in ix:
                    m[q + i] = d.at(i)
        return out

    def rounds(self, it, e, out, budget):
        kid, n = e.d
        info = it.loopinfo[kid]
        if not self.num(e.pc):
            return
        n = self.count(n)
        lvs = {mk("lv", kid, c, p): it.lv.get(mk("lv", kid, c, p)) for (c, p), k in info["kinds"].items() if k == "lv"}
        inner = {s.d[0] for s in flat_events(e.sub) if s.kind == "loop"}
        seen = [y for s in flat_events(e.sub) for y in (s.pc,) + tuple(z for z in s.d if isinstance(z, T))]
        seen += [y for l, iu in it.lv.items() if l.a[0] in inner and iu for y in iu if isinstance(y, T)]
        used = {x for y in seen for x in subterms(y) if x in lvs}
        cur = {}
        grow = True
        while grow:
            more = {x for l in used if lvs[l] for x in subterms(lvs[l][1]) if x in lvs} - used
            used |= more
            grow = bool(more)
        for l in used:
            cur[l] = self.ev(lvs[l][0])
        rounds = range(n)
        if n > 64 and not used:
            self.partial, rounds = True, sorted({0, 1, 2, n // 2, n - 2, n - 1})
        if used and n > 2000:
            raise Undefined("rounds")
        old = self.bvs
        try:
            for i in rounds:
                self.bvs = {**old, info["idx"]: i, **cur}
                self.writes(it, e.sub, out, budget)
                cur = {l: self.ev(lvs[l][1]) for l in used}
        finally:
            self.bvs = old

    def read(self, t):
        """a number stored at a position of a list of bytes"""
        ty, src, pos = t.a[:3]
        if ty not in SIZES or len(t.a) > 3 and t.a[3] is not UNIT and t.a[3].op != "int":
            return self.opaque(t)
        s, q = self.seq(src), self.num(pos)
        if not 0 <= q <= s.n - SIZES[ty]:
            raise Undefined("read")
        b = [s.at(q + i) for i in range(SIZES[ty])]
        if not all(isinstance(x, int) for x in b):
            raise Undefined("bytes")
        v = int.from_bytes(bytes(b), "little")
        if ty[0] == "f":
            if self.floats:
                x = struct.unpack("<f" if ty == "f32" else "<d", bytes(b))[0]
                if math.isfinite(x):
                    return x
            return Tok((ty, v))
        return v - (1 << 8 * len(b)) if ty[0] == "i" and v >> 8 * len(b) - 1 else v

    def adapted(self, t):
        """sequences without repetitions or in order"""
        o, a = t.op, t.a
        s = self.seq(a[0])
        if s.n > 5000:
            raise Undefined("long")
        vs = [s.at(i) for i in range(s.n)]
        keys = [self.plainkey(v) for v in vs]
        if o == "sorted" and len(a) > 1 and a[1].op == "str" or len(a) == 1:
            pass
        elif o == "sorted":
            if "key" not in a[2]:
                raise Undefined("comparison")
            keys = [self.plainkey(self.under(None, a[1], {**self.bvs, mk("sym", "sortx"): v})) for v in vs]
        else:
            keys = [self.plainkey(self.under(None, a[1], {**self.bvs, sym("arg", o): v})) for v in vs]
        if o.startswith("sorted"):
            if not all(isinstance(k, (int, str)) for k in keys):
                raise Undefined("order")
            ix = sorted(range(s.n), key=lambda i: keys[i])
        elif o.startswith("unique"):
            seen = set()
            ix = [i for i in range(s.n) if not (keys[i] in seen or seen.add(keys[i]))]
        else:
            ix = [i for i in range(s.n) if i == 0 or keys[i] != keys[i - 1]]
        return Seq(len(ix), lambda i: vs[ix[i]])

    def plainkey(self, v):
        if isinstance(v, Tok):
            return ("tok", v.key)
        if isinstance(v, SStr):
            return v.s
        if isinstance(v, Seq):
            if v.n > 64:
                raise Undefined("long")
            return tuple(self.plainkey(v.at(i)) for i in range(v.n))
        if isinstance(v, Rec):
            d = self.p.types[v.ti] if v.ti is not None else None
            if d is None or d["k"] not in ("struct", "enum"):
                raise Undefined("key")
            return (v.vi,) + tuple(self.plainkey(v.at(i)) for i in range(len(d["variants"][v.vi]["f"])))
        if isinstance(v, (int, str, float)):
            return v
        raise Undefined("key")

    def search(self, t):
        o, a = t.op, t.a
        s = self.seq(a[0])
        if s.n > 5000:
            raise Undefined("long")
        if o in ("it_max", "it_min"):
            vs = [s.at(i) for i in range(s.n)]
            if not all(isinstance(v, int) for v in vs):
                raise Undefined("order")
            return SOpt((max if o == "it_max" else min)(vs) if vs else None)
        if o in ("it_all_equal", "it_all_unique"):
            ks = {self.plainkey(s.at(i)) for i in range(s.n)}
            return int(len(ks) <= 1 if o == "it_all_equal" else len(ks) == s.n)
        b = mk("bvx", 1 + max(IN.max_bv(a[0]), 0))
        if b not in subterms(a[1]) and any(x.op == "bvx" for x in subterms(a[1])):
            raise Undefined("predicate")
        hit = [i for i in range(s.n) if self.under_num(a[1], {**self.bvs, b: s.at(i)})]
        if not hit:
            return SOpt(None)
        i = hit[-1 if o == "it_rposition" else 0]
        return SOpt(s.at(i) if o == "it_find" else i)

    def floating(self, t):
        o, a = t.op, t.a
        v = [self.ev(x) for x in a if isinstance(x, T)]
        v = [float(x) if isinstance(x, int) else x for x in v]
        if not all(isinstance(x, float) for x in v):
            return self.opaque(t)
        if o == "ffn":
            if a[0] == "clamp" and len(v) == 3:
                return min(max(v[0], v[1]), v[2])
            if a[0] in FLOATTESTS and len(v) == 1:
                return FLOATTESTS[a[0]](v[0])
            if a[0] in ("min", "max") and len(v) == 2:
                return (min if a[0] == "min" else max)(v)
            f = FLOATFNS.get(a[0])
            if f is None or len(v) != 1:
                return self.opaque(t)
            return float(f(v[0]))
        if o == "fdiv" and v[1] == 0:
            return self.opaque(t)
        return FLOATOPS[o](*v)

    def opaque(self, t):
        key = [t.op]
        for x in t.a:
            if isinstance(x, T):
                try:
                    key.append(self.freeze(self.ev(x)))
                except Undefined:
                    key.append(x)
            else:
                key.append(x)
        return Opq(tuple(key))

    def freeze(self, v, n=0):
        if isinstance(v, Opq):
            return ("o", v.key)
        if isinstance(v, SStr):
            return ("s", v.s)
        if isinstance(v, Seq):
            if v.n > 64 or n > 8:
                raise Undefined("large")
            return ("q",) + tuple(self.freeze(v.at(i), n + 1) for i in range(v.n))
        if isinstance(v, Rec):
            raise Undefined("record")
        return v

    def count(self, t):
        n = self.num(t)
        if n > 200000:
            raise Undefined("too many")
        return n

    def under_num(self, t, b):
        v = self.under(None, t, b)
        if not isinstance(v, int):
            raise Undefined("number")
        return v

    def under_seq(self, t, b):
        v = self.under(None, t, b)
        if isinstance(v, str):
            e = v.encode()
            return Seq(len(e), lambda i: e[i])
        if not isinstance(v, Seq):
            raise Undefined("sequence")
        return v

    def concat(self, parts):
        starts = [0]
        for q in parts:
            starts.append(starts[-1] + q.n)
        import bisect

        def get(i):
            j = bisect.bisect_right(starts, i) - 1
            return parts[j].at(i - starts[j])
        return Seq(starts[-1], get)

    def cast(self, ty, v):
        r = IN.INT_RANGE.get(ty)
        if r is None:
            raise Undefined("cast")
        m = r[1] - r[0] + 1
        return (v - r[0]) % m + r[0]

    def field(self, v, name):
        if isinstance(v, SOpt) and name == "Some.0" and v.v is not None:
            return v.v
        if not isinstance(v, Rec):
            raise Undefined("field")
        if v.ti is None:
            return v.at(int(name))
        d = self.p.types[v.ti]
        if d["k"] == "tuple":
            return v.at(int(name))
        vs = d["variants"]
        var = vs[v.vi]
        nm = str(name)
        if d["k"] == "enum":
            vn, _, nm = nm.partition(".")
            if var["n"] != vn:
                raise Undefined("variant")
        for i, f in enumerate(var["f"]):
            if f[0] == nm:
                return v.at(i)
        raise Undefined("field " + nm)

    def equal(self, a, b):
        if isinstance(a, SStr) and isinstance(b, SStr):
            return self.equal(a.s, b.s)
        if isinstance(a, float) and isinstance(b, float):
            return a == b
        if isinstance(a, Opq) or isinstance(b, Opq):
            if isinstance(a, Tok) and isinstance(b, Tok):
                return a.key == b.key
            raise Undefined("eq")
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            return a == b
        if isinstance(a, Seq) and isinstance(b, Seq):
            return a.n == b.n and all(self.equal(a.at(i), b.at(i)) for i in range(a.n))
        raise Undefined("eq")

    def loop(self, kid):
        """(outcome, iterations) of a loop, from its exit conditions"""
        for it in self.its:
            info = it.loopinfo.get(kid)
            if info is None:
                continue
            lvs = {mk("lv", kid, c, p): it.lv.get(mk("lv", kid, c, p)) for (c, p), k in info["kinds"].items() if k == "lv"}
            old = self.bvs
            known = info["trip"].op != "trip"
            n = self.count(info["trip"]) if known else 1 << 12
            cur = {}
            for l, iu in lvs.items():
                if iu is None:
                    raise Undefined("loop variable")
                try:
                    cur[l] = self.ev(iu[0])
                except Undefined:
                    cur[l] = None
            try:
                for i in range(n):
                    self.bvs = {**old, info["idx"]: i, **{l: v for l, v in cur.items() if v is not None}}
                    for code, epc in sorted(info.get("early", {}).items()):
                        if self.num(epc):
                            return code, i
                    if not known:
                        raise Undefined("loop")
                    nxt = {}
                    for l, (i0, u) in lvs.items():
                        try:
                            nxt[l] = self.ev(u)
                        except Undefined:
                            nxt[l] = None
                    cur = nxt
                return 0, n
            finally:
                self.bvs = old
        raise Undefined("loop")

    def differ(self, a, b, ti, path="", n=0):
        """path of a place where the two values of type ti certainly differ, or None"""
        if n > 40:
            return None
        d = self.p.types[ti] if ti is not None else {"k": "prim", "s": "?"}
        while d["k"] in ("ref", "ptr") or d["k"] == "struct" and d["path"].endswith("boxed::Box"):
            ti = d["to"] if d["k"] in ("ref", "ptr") else d["args"][0]
            d = self.p.types[ti]
        if isinstance(a, SStr) and isinstance(b, SStr):
            a, b = a.s, b.s
        if isinstance(a, Rec) and isinstance(b, Rec) and d["k"] in ("struct", "enum", "tuple"):
            if d["k"] == "enum" and a.vi != b.vi:
                return path, d["variants"][a.vi]["n"], d["variants"][b.vi]["n"]
            fs = d["fs"] if d["k"] == "tuple" else [f[1] for f in d["variants"][a.vi]["f"]]
            ns = range(len(fs)) if d["k"] == "tuple" else [f[0] for f in d["variants"][a.vi]["f"]]
            for i, (nm, ft) in enumerate(zip(ns, fs)):
                try:
                    r = self.differ(a.at(i), b.at(i), ft, f"{path}.{nm}", n + 1)
                except Undefined:
                    continue
                if r:
                    return r
            return None
        if isinstance(a, Seq) and isinstance(b, Seq):
            if a.n != b.n:
                return path + ".len", a.n, b.n
            el = d.get("of") if d["k"] in ("array", "slice") else (d.get("args") or [None])[0]
            if el is None:
                return None
            m = a.n
            byte = m <= 4096 and self.p.types[el].get("s") == "u8"
            ix = range(m) if m <= 24 or byte else sorted({j for j in (0, 1, 2, 3, m - 1, m - 2, m - 3, m // 2, 127, 128, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536) if j < m})
            for i in ix:
                try:
                    r = self.differ(a.at(i), b.at(i), el, f"{path}[{i}]", n + 1)
                except Undefined:
                    continue
                if r:
                    return r
            return None
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            return (path, a, b) if a != b else None
        if isinstance(a, float) and isinstance(b, float):
            # values are exact in the sample inputs; rounding in longer computations stays far below this
            return (path, a, b) if abs(a - b) > self.tolerance * max(1.0, abs(a), abs(b)) else None
        if isinstance(a, float) != isinstance(b, float) and isinstance(a, Tok) != isinstance(b, Tok) and isinstance(a, (float, Tok)) and isinstance(b, (float, Tok)):
            return path, a if isinstance(a, float) else a.key[-4:], b if isinstance(b, float) else b.key[-4:]
        if isinstance(a, Tok) and isinstance(b, Tok) and a.key != b.key:
            return path, a.key[-4:], b.key[-4:]
        return None


def flat_events(evs):
    for e in evs:
        yield e
        if e.sub:
            yield from flat_events(e.sub)


def same_bytes(a, b, partial=False):
    """a difference between {buffer: {position: byte}} and another, or None"""
    for k in a:
        x, y = a[k], b.get(k, {})
        for q in sorted(set(x) | set(y)):
            u, v = x.get(q), y.get(q)
            if partial and (u is None or v is None):
                continue
            if u is None or v is None:
                return k, q, "written" if u is not None else "not written", "written" if v is not None else "not written"
            if type(u) is Opq or type(v) is Opq:
                continue
            ku, kv = u.key if isinstance(u, Tok) else u, v.key if isinstance(v, Tok) else v
            if ku != kv:
                return k, q, ku, kv
    for k in b:
        if k not in a and b[k] and not partial:
            return k, 0, "not written", "written"
    return None


def consts(*ts):
    out = set()
    for t in ts:
        for x in subterms(t):
            if x.op == "int":
                out.add(x.a[0])
            elif x.op == "lin":
                out.add(abs(x.a[0]))
            elif x.op == "cast":
                r = IN.INT_RANGE.get(x.a[0])
                if r:
                    out.add(r[1])
    return sorted(c for c in out if 4 < c <= 70000)


def refute(p, x, ti, a, b, rt, cond=TRUE, its=(), samples=400, limit=60.0, extra=(), versions=(), shape=None, floats=False):
    """an input (seed) for which cond holds and a and b differ -> description, or None"""
    import time
    t0 = time.time()
    gc.freeze()
    gc.enable()  # evaluated samples form cycles; everything older is left out of the collections
    ks = consts(a, cond, *extra)
    lens = tuple(sorted({c + dlt for c in ks for dlt in (0, 1, 2, 9)}))
    tried = 0
    for s in range(samples):
        if time.time() - t0 > limit:
            break
        inp = Inputs(p, s, lens if s % 4 == 3 else (), tuple(ks) + tuple(c + 1 for c in ks), small=s % 2 == 0, versions=versions, shape=shape)
        E = Eval(p, {x: inp.make(ti, ("x",))}, its, shape is not None)
        if floats:
            E.floats, E.tolerance, inp.concrete = True, 1e-6, True
        try:
            if cond is not TRUE and not E.num(cond):
                continue
            tried += 1
            r = E.differ(E.ev(a), E.ev(b), rt)
        except (Undefined, RecursionError):
            continue
        if r:
            return r
    return None
