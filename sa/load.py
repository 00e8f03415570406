"""Loads the monomorphised program dumped by the rustc driver and gives it names."""
import json, re


class Fn:
    __slots__ = ("i", "path", "full", "name", "crate", "kind", "closure", "ctor", "span", "trait", "self_ty", "targs",
                 "cargs", "parent", "argc", "spread", "locals", "names", "blocks", "ctor_ty", "ctor_variant", "_c")

    def __init__(self, i, d):
        self.i = i
        for k in self.__slots__:
            if k in ("i", "_c"):
                continue
            setattr(self, k, d.get(k))
        self._c = {}

    def __repr__(self):
        return f"<fn {self.full}>"

    def lname(self, l):
        m = self._c.get("names")
        if m is None:
            m = self._c["names"] = {}
            for loc, n in self.names or []:
                m.setdefault(loc, n)
        return m.get(l, f"_{l}")


class Program:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.crate = d["crate"]
        self.fns = [Fn(i, x) for i, x in enumerate(d["fns"])]
        self.types = d["types"]
        self.roots = d["roots"]
        self.by_path = {}
        for f in self.fns:
            self.by_path.setdefault(f.path, []).append(f)

    def ty(self, i):
        return self.types[i]

    def tname(self, i):
        return self.types[i]["s"]

    def find(self, pat):
        r = re.compile(pat)
        return [f for f in self.fns if r.search(f.full or "")]

    # ---- pretty printing, for diagnosis
    def pl(self, f, p):
        s = f.lname(p[0]) + ("" if f.lname(p[0]).startswith("_") else f"_{p[0]}")
        for e in p[1]:
            if e == "*":
                s = f"(*{s})"
            elif e[0] == "f":
                s += f".{e[1]}"
            elif e[0] == "i":
                s += f"[_{e[1]}]"
            elif e[0] == "v":
                s += f" as v{e[1]}"
            else:
                s += f"{e}"
        return s

    def op(self, f, o):
        if o[0] in "pm" and o[0] != "c":
            return ("move " if o[0] == "m" else "") + self.pl(f, o[1])
        c = o[1]
        if "fn" in c:
            k = c["fn"]
            return "fn:" + (self.fns[k].full if isinstance(k, int) else str(k))
        return "const " + json.dumps(c.get("v", c.get("err", "rc"))) + ":" + self.tname(c["ty"]) if "ty" in c else "rc"

    def rv(self, f, r):
        k = r[0]
        if k == "use":
            return self.op(f, r[1])
        if k in ("ref", "reborrow"):
            return ("&mut " if r[2] else "&") + self.pl(f, r[1])
        if k == "cast":
            return f"{self.op(f, r[2])} as {self.tname(r[4])} ({r[1]})"
        if k == "bin":
            return f"{r[1]}({self.op(f, r[2])}, {self.op(f, r[3])})"
        if k == "un":
            return f"{r[1]}({self.op(f, r[2])})"
        if k == "discr":
            return f"discr({self.pl(f, r[1])})"
        if k == "agg":
            h = r[1]
            if h[0] == "adt":
                hn = self.tname(h[1]) + f"::v{h[2]}"
            elif h[0] == "closure":
                hn = self.tname(h[1])
            else:
                hn = h[0]
            return f"{hn}({', '.join(self.op(f, x) for x in r[2])})"
        return json.dumps(r)

    def show(self, f):
        out = [f"fn {f.full}  [{f.kind}] {f.span}"]
        if not f.blocks:
            return out[0] + "  (no body)"
        for i, t in enumerate(f.locals):
            out.append(f"  let {f.lname(i)}_{i}: {self.tname(t)}" + ("  (arg)" if 0 < i <= f.argc else ""))
        for bi, b in enumerate(f.blocks):
            if b.get("cleanup"):
                continue
            out.append(f" bb{bi}:")
            for p, r, sp in b["s"]:
                if r[0] == "setdiscr":
                    out.append(f"    setdiscr {self.pl(f, p)} = {r[1]}")
                else:
                    out.append(f"    {self.pl(f, p)} = {self.rv(f, r)}")
            t = b["t"]
            if t[0] == "call":
                c = t[1]
                n = self.fns[c["i"]].full if isinstance(c.get("i"), int) else str(c)
                out.append(f"    {self.pl(f, t[3])} = CALL {n}({', '.join(self.op(f, a) for a in t[2])}) -> bb{t[4]}   @{b['sp']}")
            elif t[0] == "switch":
                out.append(f"    switch {self.op(f, t[1])} {t[2]} else bb{t[3]}")
            elif t[0] == "assert":
                out.append(f"    assert {self.op(f, t[1])}=={t[2]} {t[3]} -> bb{t[5]}")
            elif t[0] == "drop":
                out.append(f"    drop {self.pl(f, t[1])} -> bb{t[2]}")
            else:
                out.append("    " + json.dumps(t))
        return "\n".join(out)


if __name__ == "__main__":
    import sys
    p = Program(sys.argv[1])
    for f in p.find(sys.argv[2])[: int(sys.argv[3]) if len(sys.argv) > 3 else 3]:
        print(p.show(f))
        print()
