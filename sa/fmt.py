"""Summaries of the serialisation code: what every reader and writer does to the stream, type by type.

Calls that cross from one workspace type to another are kept as interface nodes, so that a type is decided
from its own code plus the interface contract of its parts (the contract is itself decided for every part).
"""
import re
from terms import *
import terms as TM
import interp as IN
import models as M
from interp import Ev

WS = ("ssbh_lib", "ssbh_data", "ssbh_write")


def self_ti(f):
    return f.self_ty if f.self_ty is not None else f.targs[0]


class Codec:
    def __init__(self, prog):
        self.p = prog
        self.readers, self.writers, self.sizers, self.aligners = {}, {}, {}, {}
        for f in prog.fns:
            if not f.trait or f.kind != "item":
                continue
            t = f.trait.split("::")[-1].split("<")[0]
            if f.name == "read_options" and t == "BinRead":
                self._put(self.readers, f)
            elif f.name == "ssbh_write" and t == "SsbhWrite":
                self._put(self.writers, f)
            elif f.name == "size_in_bytes" and t == "SsbhWrite":
                self._put(self.sizers, f)
            elif f.name == "alignment_in_bytes" and t == "SsbhWrite":
                self._put(self.aligners, f)
        self._size = {}
        self._rsize = {}
        self._inprog = set()
        self.inline = set()

    def _put(self, d, f):
        ti = self_ti(f)
        o = d.get(ti)
        if o is None or (f.blocks and not o.blocks) or ("io::R" in f.full or "io::W" in f.full) and not ("io::R" in o.full or "io::W" in o.full):
            d[ti] = f

    def ws_type(self, ti):
        d = self.p.types[ti]
        return d["k"] in ("struct", "enum", "union") and d["path"].split("::")[0] in WS

    # ---- sizes
    def size(self, ti, v):
        """size_in_bytes of value v of type ti"""
        f = self.sizers.get(ti)
        if f is None:
            return mk("size", self.p.tname(ti), v)
        k = (ti, v)
        r = self._size.get(k)
        if r is None:
            it = M.base_interp(self.p, budget=50000)
            r, pc = it.run(f, [v])
            if r is None:
                r = mk("size", self.p.tname(ti), v)
            self._size[k] = r
        return r

    def rsize(self, ti):
        """number of bytes a successful read consumes when that is a constant, else None"""
        if ti in self._rsize:
            return self._rsize[ti]
        if ti in self._inprog:
            return None
        self._inprog.add(ti)
        try:
            s = self.read_summary(ti)
            n = None
            if s is not None:
                n = sub(s.pos, sym("P0")) if s.pos is not None else None
                if n is not None and n.op != "int":
                    n = None
        finally:
            self._inprog.discard(ti)
        self._rsize[ti] = n
        return n

    # ---- hook
    def hook(self, root, it, f, d, args, st, pc, ck, dty):
        if f is None or f is root or f.kind != "item" or f.trait is None:
            return None
        n = f.name
        if n == "ssbh_write" and f.trait.endswith("SsbhWrite"):
            ti = self_ti(f)
            if self.p.types[ti]["k"] in ("ref",):
                return None
            if not self.ws_type(ti) or ti in self.inline:
                return None
            p, src, pos, setp, v = M.rd_state(it, st, args[1], pc)
            if src is None:
                return None
            x = M.val(it, st, args[0])
            dp = it.load(st, args[2])
            it.ev.append(Ev(pc, "wsub", (self.p.tname(ti), ti, x, src, pos, dp), it.site))
            setp(st, add(pos, self.size(ti, x)))
            ndp = mk("dpo", self.p.tname(ti), x, pos, dp)
            it.store(st, args[2], ndp)
            return M.ok(M.rty(it, f, dty), UNIT), pc
        if n == "read_options" and f.trait.endswith("BinRead"):
            ti = self_ti(f)
            if not self.ws_type(ti) or ti in self.inline:
                return None
            p, src, pos, setp, v = M.rd_state(it, st, args[0], pc)
            if src is None:
                return None
            out = M.rty(it, f, dty)
            a = it.snap(st, args[2]) if len(args) > 2 else UNIT
            tn = self.p.tname(ti)
            it.ev.append(Ev(pc, "rsub", (tn, ti, src, pos, a, M.endian_name(it, args[1])), it.site))
            r = mk("rdT", tn, src, pos, a) if a is not UNIT else mk("rdT", tn, src, pos)
            n = self.rsize(ti)
            setp(st, add(pos, n if n is not None else mk("rsz", r)))
            c = boolnode(mk("rok", r))
            return ite(c, M.ok(out, r), M.err(out, mk("rderr", r))), pc
        return None

    def interp(self, root, **kw):
        return M.base_interp(self.p, hook=lambda it, f, d, args, st, pc, ck, dty: self.hook(root, it, f, d, args, st, pc, ck, dty), **kw)

    def write_summary(self, ti):
        f = self.writers.get(ti)
        if f is None or not f.blocks:
            return None
        return self.write_fn(f, self.p.tname(ti))

    def write_fn(self, f, tn, p0=sym("P0")):
        """summary of a function (&value, &mut writer[, &mut data pointer])"""
        s = Summary()
        s.f = f
        it = s.it = self.interp(f)
        st = {("W", 0): mk("wr", sym("W"), p0), ("D", 0): sym("D0")}
        TM.RANGE.setdefault(sym("P0"), (0, 1 << 48))
        TM.RANGE.setdefault(sym("D0"), (0, 1 << 48))
        s.self = sym("self", tn)
        s.val, s.pc = it.run(f, [s.self, mk("ptr", ("W", 0), ()), mk("ptr", ("D", 0), ())][:f.argc], st)
        s.ok = FALSE
        if s.val is not None:
            s.ok = AND(s.pc, test(it.discr(s.val, f.locals[0]), 0))
        w = IN.constrain_deep(st[("W", 0)], s.ok) if s.val is not None else None
        s.pos = w.a[1] if w is not None and w.op == "wr" else None
        s.dp = st.get(("D", 0))
        s.ev = it.ev
        return s

    def read_summary(self, ti, args=None):
        f = self.readers.get(ti)
        if f is None or not f.blocks:
            return None
        return self.read_fn(f, self.p.tname(ti), args)

    def read_fn(self, f, tn, args=None, p0=sym("P0")):
        """summary of a function (&mut reader[, endian, args])"""
        s = Summary()
        s.f = f
        it = s.it = self.interp(f)
        st = {("R", 0): mk("rd", sym("R"), p0)}
        TM.RANGE.setdefault(sym("P0"), (0, 1 << 48))
        s.args = args if args is not None else sym("args", tn)
        av = [mk("ptr", ("R", 0), ())]
        if f.argc == 3:
            av += [self.little(f), s.args]
        s.val, s.pc = it.run(f, av, st)
        s.ev = it.ev
        s.ok = FALSE
        s.pos = None
        s.value = None
        if s.val is not None:
            rt = f.locals[0]
            s.rt = rt
            dsc = it.discr(s.val, rt)
            s.ok = AND(s.pc, test(dsc, 0))
            r = IN.constrain_deep(st[("R", 0)], s.ok)
            s.pos = r.a[1] if r.op == "rd" else None
            s.value = IN.constrain_deep(it.proj_f(s.val, 0, 0, rt), s.ok)
        s.state = st
        return s

    def little(self, f):
        ti = f.locals[2]
        d = self.p.types[ti]
        for i, v in enumerate(d["variants"]):
            if v["n"] == "Little":
                return mk("adt", ti, i)
        return sym("endian")


class Summary:
    pass


def pe(evs, ind="", out=print, w=170):
    for e in evs:
        if e.kind == "pos":
            continue
        out((ind + e.kind + " " + " | ".join(str(x) for x in e.d) + ("" if e.pc is TRUE else "   IF " + str(e.pc)))[:w])
        if e.sub:
            pe(e.sub, ind + "    ", out, w)


if __name__ == "__main__":
    import sys, gc
    gc.disable()
    from load import Program
    p = Program(sys.argv[1])
    c = Codec(p)
    rx = re.compile(sys.argv[2])
    W = int(sys.argv[3]) if len(sys.argv) > 3 else 170
    for ti in sorted(set(c.readers) | set(c.writers)):
        if not rx.search(p.tname(ti)) or not c.ws_type(ti):
            continue
        print("=====", p.tname(ti))
        s = c.write_summary(ti)
        if s:
            print(("W pos", s.pos, "dp", s.dp, "size", c.size(ti, s.self)).__repr__()[:W], len(s.it.obl), s.it.opaque, s.it.notes[:3])
            pe(s.ev, "   ", w=W)
        s = c.read_summary(ti)
        if s:
            print(("R pos", s.pos, "ok", s.ok, "value", s.value).__repr__()[:W], len(s.it.obl), s.it.opaque, s.it.notes[:3])
            pe(s.ev, "   ", w=W)
