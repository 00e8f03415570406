"""Queries over the monomorphised program: workspace functions, call sites, uses of locals, call graph, spans."""
import re

WS = ("ssbh_lib", "ssbh_data", "ssbh_write", "ssbh_write_derive", "sa_roots")


def places_of_rvalue(r):
    """-> [(place, how)] read by an rvalue; how: use/move/ref/mutref/discr/len"""
    k = r[0]
    out = []

    def op(o):
        if o and o[0] in ("p", "m"):
            out.append((o[1], "move" if o[0] == "m" else "use"))
    if k == "use":
        op(r[1])
    elif k in ("ref", "reborrow", "rawptr", "addr"):
        out.append((r[1], "mutref" if r[2] else "ref"))
    elif k == "cast":
        op(r[2])
    elif k == "bin":
        op(r[2])
        op(r[3])
    elif k == "un":
        op(r[2])
    elif k == "discr":
        out.append((r[1], "discr"))
    elif k == "agg":
        for x in r[2]:
            op(x)
    elif k in ("len",):
        out.append((r[1], "len"))
    else:
        def walk(x):
            if isinstance(x, list):
                if len(x) == 2 and x[0] in ("p", "m") and isinstance(x[1], list) and len(x[1]) == 2 and isinstance(x[1][0], int):
                    out.append((x[1], "use"))
                else:
                    for y in x:
                        walk(y)
        walk(r[1:])
    return out


class Site:
    """a call site"""
    __slots__ = ("f", "b", "callee", "d", "args", "dest", "target", "span")

    def __init__(self, f, b, blk):
        t = blk["t"]
        self.f, self.b = f, b
        c = t[1]
        self.callee = c.get("i") if isinstance(c.get("i"), int) else None
        self.d = c.get("d", "")
        self.args, self.dest, self.target = t[2], t[3], t[4]
        self.span = blk.get("sp")


class Mir:
    def __init__(self, prog):
        self.p = prog
        self._sites = {}
        self._callees = {}

    def ws(self, crates=WS):
        return [f for f in self.p.fns if f.crate in crates and f.blocks and f.kind == "item"]

    def sites(self, f):
        r = self._sites.get(f.i)
        if r is None:
            r = self._sites[f.i] = [Site(f, b, blk) for b, blk in enumerate(f.blocks or []) if not blk.get("cleanup") and blk["t"][0] == "call"]
        return r

    def callees(self, f):
        """instances called or whose closures / fn items are created here"""
        r = self._callees.get(f.i)
        if r is not None:
            return r
        out = set()
        for b in f.blocks or []:
            if b.get("cleanup"):
                continue
            t = b["t"]
            if t[0] == "call" and isinstance(t[1].get("i"), int):
                out.add(t[1]["i"])
            if t[0] == "drop" and len(t) > 3 and isinstance(t[3], int):
                out.add(t[3])
            for pl, rv, sp in b["s"]:
                if rv[0] == "agg" and rv[1][0] == "closure":
                    d = self.p.types[rv[1][1]]
                    if "inst" in d:
                        out.add(d["inst"])

            def ops(x):
                if isinstance(x, list):
                    if len(x) == 2 and x[0] == "c" and isinstance(x[1], dict):
                        if isinstance(x[1].get("fn"), int):
                            out.add(x[1]["fn"])
                    else:
                        for y in x:
                            ops(y)
            for s in b["s"]:
                ops(s[1])
            ops(t)
        self._callees[f.i] = out
        return out

    def reach(self, roots):
        seen = {}
        todo = [(f.i, None) for f in roots]
        while todo:
            i, par = todo.pop()
            if i in seen:
                continue
            seen[i] = par
            for c in self.callees(self.p.fns[i]):
                if c not in seen:
                    todo.append((c, i))
        return seen

    def path_to(self, seen, i, n=8):
        out = []
        while i is not None and len(out) < n:
            out.append(self.p.fns[i].full)
            i = seen[i]
        return out

    def uses(self, f):
        """local -> [(block, stmt index or 't', how, place, detail)] reads of it"""
        out = {}

        def add(pl, how, b, s, det):
            out.setdefault(pl[0], []).append((b, s, how, pl, det))
            for e in pl[1]:
                if isinstance(e, list) and e[0] == "i":
                    out.setdefault(e[1], []).append((b, s, "index", pl, det))
        for b, blk in enumerate(f.blocks or []):
            if blk.get("cleanup"):
                continue
            for si, (pl, rv, sp) in enumerate(blk["s"]):
                for q, how in places_of_rvalue(rv):
                    add(q, how, b, si, (pl, rv))
            t = blk["t"]
            if t[0] == "call":
                for n, o in enumerate(t[2]):
                    if o[0] in ("p", "m"):
                        add(o[1], "arg", b, "t", n)
                if t[1].get("op"):
                    o = t[1]["op"]
                    if o[0] in ("p", "m"):
                        add(o[1], "callee", b, "t", None)
            elif t[0] == "switch":
                if t[1][0] in ("p", "m"):
                    add(t[1][1], "switch", b, "t", None)
            elif t[0] == "drop":
                add(t[1], "drop", b, "t", None)
            elif t[0] == "assert":
                if t[1][0] in ("p", "m"):
                    add(t[1][1], "assert", b, "t", None)
        return out

    def succ(self, f, b):
        t = f.blocks[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x for _, x in t[2]] + ([t[3]] if t[3] is not None else [])
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "drop":
            return [t[2]]
        if k == "assert":
            return [t[5]]
        return []

    def from_block(self, f, b):
        seen = set()
        todo = [b]
        while todo:
            x = todo.pop()
            if x in seen or x is None:
                continue
            seen.add(x)
            todo += self.succ(f, x)
        return seen


def rel(span):
    m = re.search(r"/repo/([^ ]*)", str(span))
    return m.group(1) if m else str(span)
