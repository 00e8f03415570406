"""What a record looks like in the file: (offset, size, kind, source field) per variant, nested records opened up."""
from terms import *
import terms as TM
from layout import P0, D0

TOPS = ("SsbhArray<", "RelPtr64<", "Ptr<", "SsbhByteBuffer", "SsbhStringN<", "SsbhEnum64<", "CString<")


def short(tn):
    import re
    return re.sub(r"(?:\w+::)+", "", tn)


def path(t, root):
    """field path of t below root, or None"""
    out = []
    while t is not root:
        if t.op == "fld":
            out.append(str(t.a[-1]))
            t = t.a[0]
        elif t.op == "elem" and t.a[1].op == "int":
            out.append(str(t.a[1].a[0]))
            t = t.a[0]
        else:
            return None
    return ".".join(reversed(out))


def paths(t, root):
    """all maximal field paths in t"""
    out = set()

    def go(x):
        p = path(x, root)
        if p is not None:
            out.add(p)
            return
        for y in (x.a if x.op != "lin" else [k for k, _ in x.a[1]]):
            if isinstance(y, T):
                go(y)
            elif isinstance(y, tuple):
                for z in y:
                    for w in (z if isinstance(z, tuple) else (z,)):
                        if isinstance(w, T):
                            go(w)
    go(t)
    return out


class Images:
    def __init__(self, L):
        self.L, self.p, self.c = L, L.p, L.c
        self.memo = {}
        self.incomplete = set()

    def kind(self, val, sz, me):
        if val.op == "lebytes":
            x, n, ty = val.a[0], val.a[1], val.a[2] if len(val.a) > 2 else ""
            if x.op == "int":
                return f"const {x.a[0]}", ""
            if x.op == "discr":
                q = path(x.a[0], me)
                if q is not None:
                    return f"tag u{8 * sz}", q
            q = path(x, me)
            if q is not None:
                return str(ty), q
            return "value of", "+".join(sorted(paths(x, me)))
        if val.op == "arr" and all(x is I(0) for x in val.a) or val.op == "rep" and val.a[0] is I(0):
            return "zero", ""
        if val.op in ("arr", "bstr", "str"):
            if all(isinstance(x, T) and x.op == "int" for x in val.a):
                return "bytes " + "".join("%02x" % (x.a[0] & 255) for x in val.a), ""
        q = path(val, me)
        if q is not None:
            return "bytes", q
        if val.op == "g":
            ks = {self.kind(x, sz, me) for x in leaves(val) if x is not BOT}
            if len(ks) == 1:
                return ks.pop()
            return "value of", "+".join(sorted({q for _, q in ks if q}))
        return "value of", "+".join(sorted(paths(val, me)))

    def tags(self, ti, val):
        """constant table over the variants of the type's argument"""
        d = self.p.types[ti]
        if not d["path"].endswith("SsbhEnum64") or not d.get("args"):
            return None
        a = self.p.types[d["args"][0]]
        if a["k"] != "enum":
            return None
        out = {}

        def go(t, nm):
            if t is BOT:
                return True
            if t.op == "lebytes":
                return go(t.a[0], nm)
            if t.op == "g":
                at = t.a[0]
                if at.op != "discr":
                    return False
                q = str(at)
                ok = True
                inner = ".Some" in q
                ds = [self._d(v, i) for i, v in enumerate(a["variants"])]
                for v, x in t.a[1]:
                    ok &= go(x, a["variants"][ds.index(v)]["n"] if inner and v in ds else nm)
                if t.a[2] is not BOT:
                    used = {v for v, _ in t.a[1]}
                    rest = [i for i, v in enumerate(ds) if v not in used]
                    if inner:
                        for i in rest:
                            ok &= go(t.a[2], a["variants"][i]["n"])
                    else:
                        ok &= go(t.a[2], nm)
                return ok
            if t.op == "int":
                out[nm or "null"] = t.a[0]
                return True
            return False
        return out if go(val, "") else None

    def rows(self, ti, w, regs, base=P0):
        """[(variant name, {(off, size, kind, source)})]"""
        p = self.p
        me = w.self
        d = p.types[ti]
        names = [v["n"] for v in d["variants"]] if d["k"] == "enum" else [""]
        out = {n: set() for n in names}
        ds0 = [self._d(x, i) for i, x in enumerate(d["variants"])]
        fixed_enum = d["k"] == "enum" and all(not v["f"] for v in d["variants"])
        for r in regs:
            live = set(range(len(names)))
            for at, v, opts in r.desc:
                if at.op == "discr" and at.a[0] is me:
                    ds = [self._d(x, i) for i, x in enumerate(d["variants"])]
                    live &= {i for i in range(len(names)) if (ds[i] == v if v is not None else ds[i] not in opts)}
            mem = self.L.mem(w, r)
            for i in live:
                c = is_val(mk("discr", me), ds0[i]) if d["k"] == "enum" and not fixed_enum else TRUE
                if fixed_enum and i != min(live):
                    continue
                out[names[i]] |= self.row_set(ti, mem, me, base, c)
        for n in out:
            out[n] = merge_zero(out[n])
        if fixed_enum:
            vals = {v["n"]: self._d(v, i) for i, v in enumerate(d["variants"])}
            rs = out[names[0]] if names else []
            return {"cases": {"*": rs}, "values": vals}
        return {"cases": {n: rs for n, rs in out.items()}}

    def row_set(self, ti, mem, me, base, c):
        got = set()
        for e in mem:
            val = TM.constrain_all(e.val, c, {}) if isinstance(e.val, T) and c is not TRUE else e.val
            if e.kind not in ("w", "s") or e.loop or e.size is None:
                continue
            off = sub(e.pos, base)
            if off.op != "int" or e.size.op != "int" or e.size.a[0] == 0:
                continue
            off, sz = off.a[0], e.size.a[0]
            if e.kind == "w" and val.op != "arr":
                tg = self.tags(ti, val)
                if tg is not None and (len(tg) > 1 or "null" not in tg) or tg is not None and off == 8:
                    for n, v in tg.items():
                        got.add((off, sz, f"tag {v}", n))
                    continue
            if e.kind == "w":
                k, q = self.kind(val, sz, me)
                got.add((off, sz, k, q))
                continue
            q = path(val, me)
            if q is None:
                got.add((off, sz, "value of", "+".join(sorted(paths(val, me)))))
                continue
            sub_ = self.image(e.ti)
            sn = short(e.ty)
            flat = None
            if sub_ is not None and not sn.startswith(TOPS):
                ks = sub_["cases"]
                if list(ks) == [""]:
                    flat = ks[""]
            if flat is None:
                got.add((off, sz, "record " + sn, q))
            else:
                for o, s, k, q2 in flat:
                    got.add((off + o, s, k, (q + "." + q2 if q2 else q) if k not in ("zero",) and not k.startswith("const") else ""))
        return got

    def _d(self, v, i):
        x = v.get("d")
        return int(x) if x is not None else i

    def image(self, ti):
        if ti in self.memo:
            return self.memo[ti]
        self.memo[ti] = None
        if ti not in self.c.writers or not self.c.ws_type(ti):
            return None
        try:
            w = self.L.W(ti)
            if w is None:
                return None
            r = self.rows(ti, w, self.L.wregimes(ti))
        except Exception as e:
            self.incomplete.add((self.p.tname(ti), repr(e)))
            return None
        self.memo[ti] = r
        return r


def merge_zero(rows):
    z = sorted((r for r in rows if r[2] == "zero"), key=lambda r: r[0])
    out = [r for r in rows if r[2] != "zero"]
    cur = None
    for o, s, _, _ in z:
        if cur and cur[0] + cur[1] >= o:
            cur = (cur[0], max(cur[1], o + s - cur[0]))
        else:
            if cur:
                out.append((cur[0], cur[1], "zero", ""))
            cur = (o, s)
    if cur:
        out.append((cur[0], cur[1], "zero", ""))
    return sorted(out)
