"""The file-level functions of every format, summarised: what is serialised, where files are touched, under which conditions."""
import re
from terms import *
import terms as TM
import interp as IN
import models as M
from interp import Ev
import fmt

CREATE = ("std::fs::write", "std::fs::File::create", "std::fs::File::create_new", "std::fs::OpenOptions::open", "std::fs::File::options", "std::fs::rename",
          "std::fs::copy", "std::fs::remove_file", "std::fs::File::set_len", "std::fs::hard_link", "std::fs::File::create_buffered")
FILE = ("std::fs::File",)


class Api:
    def __init__(self, prog):
        self.p = prog
        self.c = fmt.Codec(prog)

    def result(self, it, f, dty, atom, pc, okv=None):
        rt = M.rty(it, f, dty)
        c = boolnode(atom)
        return ite(c, M.ok(rt, UNIT if okv is None else okv), M.err(rt, mk("why", atom))), pc

    def hook(self, it, f, d, args, st, pc, ck, dty):
        if f is None:
            return None
        n, t = f.name, f.trait or ""
        if f.kind == "item" and n in ("from", "try_from") and ("From" in t) and f.argc == 1 and self.data_side(f):
            x = M.val(it, st, args[0])
            rt = M.rty(it, f, dty)
            v = mk("conv", f.full, x)
            if self.p.types[rt].get("path", "").endswith("result::Result"):
                a = mk("convok", v)
                it.ev.append(Ev(pc, "conv", (f.full, x, a), it.site))
                return self.result(it, f, dty, a, pc, v)
            it.ev.append(Ev(pc, "conv", (f.full, x, None), it.site))
            return v, pc
        if n == "ssbh_write" and t.endswith("SsbhWrite"):
            ti = fmt.self_ti(f)
            if self.p.types[ti]["k"] == "ref" or not self.c.ws_type(ti):
                return None
            p, src, pos, setp, v = M.rd_state(it, st, args[1], pc)
            x = M.val(it, st, args[0])
            if src is None:
                o = self.handle(it, st, args[1])
                if o is None:
                    return None
                # serialised straight into a file
                a = mk("serok", self.p.tname(ti), x, mk("fpos", o), UNIT)
                it.ev.append(Ev(pc, "fwrite", (f.path, o, None, a), it.site))
                it.ev.append(Ev(pc, "ser", (self.p.tname(ti), x, o, UNIT, a), it.site))
                return self.result(it, f, dty, a, pc)
            dp = it.load(st, args[2])
            a = mk("serok", self.p.tname(ti), x, pos, dp)
            it.ev.append(Ev(pc, "ser", (self.p.tname(ti), x, pos, dp, a), it.site))
            npos = add(pos, self.c.size(ti, x))
            if v.op == "adt":
                setp(st, npos, mk("wrote", src, pos, mk("ser", self.p.tname(ti), x, pos, dp)))
            else:
                setp(st, npos)
            it.store(st, args[2], mk("dpo", self.p.tname(ti), x, pos, dp))
            return self.result(it, f, dty, a, pc)
        if n == "read_options" and t.endswith("BinRead") and self.c.ws_type(fmt.self_ti(f)) and f.kind == "item":
            ti = fmt.self_ti(f)
            p, src, pos, setp, v = M.rd_state(it, st, args[0], pc)
            if src is None:
                return None
            tn = self.p.tname(ti)
            a = it.snap(st, args[2]) if len(args) > 2 else UNIT
            r = mk("rdT", tn, sym("BYTES"), pos, a, mk("str", str(M.endian_name(it, args[1]))))
            it.ev.append(Ev(pc, "read", (tn, src, pos, boolnode(mk("rok", r))), it.site))
            setp(st, add(pos, mk("rsz", r)))
            return self.result(it, f, dty, mk("rok", r), pc, r)
        if f.path in CREATE or d in CREATE:
            rt = M.rty(it, f, dty)
            v = M.val(it, st, args[0]) if args else UNIT
            content = M.val(it, st, args[1]) if f.name == "write" and len(args) > 1 else None
            a = mk("fileok", f.path, len(it.ev))
            it.ev.append(Ev(pc, "file", (f.path, v, content, a), it.site))
            return self.result(it, f, dty, a, pc, mk("filehandle", v))
        if f.path in ("std::fs::read", "std::fs::File::open") or d in ("std::fs::read", "std::fs::File::open"):
            v = M.val(it, st, args[0])
            a = mk("openok", v)
            it.ev.append(Ev(pc, "open", (f.path, v, a), it.site))
            return self.result(it, f, dty, a, pc, sym("FILE") if f.name == "read" else mk("rd", sym("FILE"), I(0)))
        if n in ("write_all", "write", "flush", "sync_all") and args and (f.trait or "").endswith("io::Write") or f.path.startswith("std::fs::File::sync"):
            o = self.handle(it, st, args[0])
            if o is not None:
                content = M.val(it, st, args[1]) if len(args) > 1 else None
                a = mk("fileok", f.path, len(it.ev))
                it.ev.append(Ev(pc, "fwrite", (f.path, o, content, a), it.site))
                return self.result(it, f, dty, a, pc)
        if n in ("new", "with_capacity") and re.search(r"io::.*(BufWriter|LineWriter)", f.path) and args:
            o = self.handle(it, st, args[-1])
            if o is not None:
                return o, pc
        if n == "stream_position" or n == "seek":
            o = self.handle(it, st, args[0])
            if o is not None:
                a = mk("fileok", f.path, len(it.ev))
                return self.result(it, f, dty, a, pc, mk("fpos", o))
        return None

    def handle(self, it, st, v):
        """the open file behind a writer, if it is one"""
        for _ in range(12):
            if v.op != "ptr":
                break
            v = it.load(st, v)
        return v if v.op == "filehandle" else None

    def data_side(self, f):
        """a conversion between an editable data type and its file type"""
        ts = [f.self_ty] + list(f.targs or []) + [f.locals[1]]
        names = set()
        for t in ts:
            if t is None:
                continue
            d = self.p.types[t]
            while d["k"] in ("ref", "ptr"):
                d = self.p.types[d["to"]]
            names.add(d.get("path", "").split("::")[0])
        return "ssbh_data" in names and "ssbh_lib" in names

    def run(self, f):
        it = M.base_interp(self.p, self.hook)
        st = {("W", 0): mk("wr", sym("OUT"), sym("P0")), ("R", 0): mk("rd", sym("BYTES"), sym("P0"))}
        args = []
        for i in range(f.argc):
            s = self.p.tname(f.locals[i + 1])
            if s.endswith("io::Wr"):
                args.append(mk("ptr", ("W", 0), ()))
            elif s.endswith("io::Rd"):
                args.append(mk("ptr", ("R", 0), ()))
            elif "Path" in s:
                args.append(sym("PATH"))
            else:
                args.append(sym("self"))
        v, pc = it.run(f, args, st)
        okc = AND(pc, test(it.discr(v, f.locals[0]), 0)) if v is not None else FALSE
        val = None
        if okc is not FALSE:
            rt = f.locals[0]
            val = IN.constrain_deep(it.proj_f(v, 0, 0, rt, self.p.types[rt]["variants"][0]["f"][0][1]), okc)
        return it, st, okc, val
