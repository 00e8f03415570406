"""Conversions between the on-disk types and the editable data types: composed symbolically and compared."""
import re, time
from terms import *
import terms as TM
import interp as IN
import models as M
import seqs
from interp import seq_elem, seq_len, constrain_deep


STR_TYPES = ("ssbh_lib::strings::SsbhStringN", "ssbh_lib::strings::CString", "ssbh_lib::SsbhStringN", "ssbh_lib::CString", "ssbh_data::CString", "ssbh_data::SsbhStringN")


def str_hook(it, f, d, args, st, pc, ck, dty):
    """SSBH strings hold their text: what goes in through a constructor comes out of the accessors (decided separately, C21)"""
    if f is None or f.crate != "ssbh_lib" or f.closure or f.kind != "item":
        return None
    n = f.name
    if n in ("to_str", "to_string_lossy") and f.argc == 1:
        ti = it.peel(f.locals[1])
        if it.p.types[ti].get("path") not in STR_TYPES:
            return None
        v = M.val(it, st, args[0])

        def leaf(x):
            if x.op == "sstr":
                return x.a[0]
            return mk("text", x)
        if n == "to_string_lossy":
            return dist1(leaf, v), pc
        ot = M.rty(it, f, dty)

        def leaf2(x):
            if x.op == "sstr":
                return M.some(ot, x.a[0])
            return ite(boolnode(mk("hastext", x)), M.some(ot, mk("text", x)), M.none(ot))
        return dist1(leaf2, v), pc
    if n in ("from", "from_str", "from_bytes") and f.argc == 1 and f.trait in (None, "std::convert::From", "std::str::FromStr") or n in ("from", "from_str") and f.trait and ("From" in f.trait):
        rt = f.locals[0]
        rd = it.p.types[rt]
        res = rd.get("path", "").endswith("Result")
        if res:
            rt2 = rd["args"][0]
        else:
            rt2 = rt
        if it.p.types[rt2].get("path") not in STR_TYPES:
            return None
        v = M.val(it, st, args[0])
        v = dist1(lambda x: x.a[0] if x.op == "bytes" else x, v)
        r = dist1(lambda x: mk("sstr", x), v)
        return (M.ok(rt, r) if res else r), pc
    return None


class Conv:
    def __init__(self, prog):
        self.p = prog

    def find(self, rx):
        fs = [f for f in self.p.find(rx) if f.blocks]
        return fs

    def one(self, rx):
        fs = self.find(rx)
        if not fs:
            raise LookupError(rx)
        return fs[0]

    def run(self, f, args, st=None, hook=None, budget=400000, relpc=False):
        """-> (value on success, condition of success, interp, error value)"""
        it = M.base_interp(self.p, hook or str_hook, budget=budget)
        it.relpc = relpc
        st = {} if st is None else st
        v, pc = it.run(f, args, st)
        if v is None:
            return None, FALSE, it, None
        rt = f.locals[0]
        d = self.p.types[rt]
        if d["k"] == "enum" and d["path"].endswith("result::Result"):
            dsc = it.discr(v, rt)
            okc = AND(pc, test(dsc, 0))
            val = constrain_deep(it.proj_f(v, 0, 0, rt, d["variants"][0]["f"][0][1]), okc) if okc is not FALSE else None
            er = constrain_deep(it.proj_f(v, 1, 0, rt, d["variants"][1]["f"][0][1]), AND(pc, NOT(okc)))
            return val, okc, it, er
        return v, pc, it, None


class Same:
    """structural equality of a rebuilt value t with the original x of type ti (extensional)"""

    def __init__(self, it, pc=TRUE, loops=(), okc=TRUE):
        self.it = it
        self.okc = okc
        self.loops = loops      # interpreters whose completed loops give facts about every element
        self.p = it.p
        self.diffs = []
        self.n = 0
        self.bvs = 0
        self.below = {}
        self.norm = seqs.Norm(self.below).norm

    def facts(self, i, n):
        """what is known at position i of a sequence of n elements: no loop over it was left early"""
        r = TRUE
        for it in self.loops:
            for kid, info in it.loopinfo.items():
                if not info.get("early"):
                    continue
                if self.norm(info["trip"]) is not n:
                    continue
                lx = mk("lx", kid)
                for code, epc in info["early"].items():
                    if AND(self.okc, is_val(lx, code)) is not FALSE:
                        continue
                    m = {info["idx"]: i}
                    for (c, p), k in info["kinds"].items():
                        if k == "lv":
                            l = mk("lv", kid, c, p)
                            i0, u = it.lv.get(l, (None, None))
                            if u is not None:
                                m[l] = IN.fold_term(l, i0, u, i, info["idx"], {mk("lv", kid, c2, p2): it.lv.get(mk("lv", kid, c2, p2)) for (c2, p2), k2 in info["kinds"].items() if k2 == "lv"})
                    r = AND(r, NOT(subst(epc, m)))
        return r

    def never_fails(self, it, ok, assume=None):
        """the success condition of a run, with the loops that cannot be left early decided -> remaining condition"""
        ok = constrain(ok, self.okc)
        for kid, info in it.loopinfo.items():
            if not info.get("early") or mk("lx", kid) not in subterms(ok):
                continue
            self.bvs += 1
            i = mk("idx", ("same", self.bvs))
            n = self.norm(info["trip"])
            self.below[i] = n
            pc = AND(le0(scale(i, -1)), lt(i, n))
            pc = AND(AND(pc, self.okc), constrain(self.facts(i, n), pc))
            m = {info["idx"]: i}
            lvs = {mk("lv", kid, c, p): it.lv.get(mk("lv", kid, c, p)) for (c, p), k in info["kinds"].items() if k == "lv"}
            for l, (i0, u) in lvs.items():
                m[l] = IN.fold_term(l, i0, u, i, info["idx"], lvs)
            for code, epc in info["early"].items():
                c = self.norm(constrain(subst(epc, m), pc))
                if AND(pc, c) is FALSE or assume is not None and AND(pc, assume(c)) is FALSE:
                    ok = subst_lx(ok, mk("lx", kid), code)
                else:
                    self.left = (kid, code, assume(c) if assume else AND(pc, c))
        return ok

    def touch(self, x, ti, n):
        """name the parts of x, so that the ranges of their types are known"""
        d = self.p.types[ti]
        if n == 0 or x.op in ("int", "bot"):
            return
        if d["k"] in ("struct", "enum") and d.get("path") not in SEQ:
            for vi, v in enumerate(d["variants"]):
                for fi, fd in enumerate(v["f"]):
                    try:
                        self.touch(self.it.proj_f(x, vi if d["k"] == "enum" else None, fi, ti, fd[1]), fd[1], n - 1)
                    except IN.Lost:
                        pass
        elif d["k"] == "tuple":
            for fi, ft in enumerate(d["fs"]):
                self.touch(self.it.proj_f(x, None, fi, ti, ft), ft, n - 1)

    def diff(self, path, t, x, why="", pc=TRUE):
        if self.norm(t) is self.norm(x):
            return True
        # the last element: one more position is the length
        for i, n in list(self.below.items()):
            if i.op == "idx" and i.a[0][0] == "same" and n.op in ("len", "elem", "fld") and AND(pc, lt(add(i, I(1)), n)) is FALSE:
                m = {n: add(i, I(1))}
                if self.norm(subst(t, m)) is self.norm(subst(x, m)):
                    return True
        self.diffs.append((path, t, x, why, pc))
        return False

    def eq(self, t, x, ti, path="", pc=TRUE, depth=0):
        self.n += 1
        if depth > 30:
            return self.diff(path, t, x, "depth", pc)
        if t is x:
            return True
        if pc is not TRUE:
            t = constrain(t, pc)
            x = constrain(x, pc)
            if t is x:
                return True
        if t.op == "bot":
            return True
        if pin(t, pc) is pin(x, pc):
            return True
        d = self.p.types[ti] if ti is not None else {"k": "?"}
        while d["k"] in ("ref", "ptr"):
            ti = d["to"]
            d = self.p.types[ti]
        if d["k"] == "struct" and d["path"] in ("std::boxed::Box", "alloc::boxed::Box"):
            return self.eq(t, x, d["args"][0], path, pc, depth + 1)
        if d["k"] == "enum":
            dt, dx = constrain(self.it.discr(t, ti), pc), constrain(self.it.discr(x, ti), pc)
            dt, dx = self.norm(dt), self.norm(dx)
            same = dt is dx or pin(dt, pc) is pin(dx, pc)
            ok = True
            for vi, v in enumerate(d["variants"]):
                c = AND(pc, test(pin(dx, pc), int(v["d"])))
                if c is FALSE or c is BOT:
                    continue
                if not same:
                    e = pin(constrain(dt, c), c)
                    if e is not I(int(v["d"])):
                        ok &= self.diff(path + "." + v["n"], e, dx, "variant", c)
                        continue
                for fi, fd in enumerate(v["f"]):
                    a = self.it.proj_f(constrain(t, c), vi, fi, ti, fd[1])
                    b = self.it.proj_f(constrain(x, c), vi, fi, ti, fd[1])
                    ok &= self.eq(a, b, fd[1], path + "." + v["n"] + "." + fd[0], c, depth + 1)
            return ok
        if d["k"] == "prim" and d["s"] == "bool":
            a, b = pin(IN.asbool(self.norm(t)), pc), pin(IN.asbool(self.norm(x)), pc)
            if a is b or (AND(AND(pc, a), NOT(b)) is FALSE and AND(AND(pc, b), NOT(a)) is FALSE):
                return True
            return self.diff(path, a, b, "", pc)
        if t.op == "g":
            ok = True
            for pre, leaf in cases(t):
                c = pc
                for at, v in pre:
                    c = AND(c, is_val(at, v) if not isinstance(v, tuple) else not_vals(at, v[1:]))
                if c is FALSE or c is BOT:
                    continue
                ok &= self.eq(leaf, constrain(x, c), ti, path, c, depth + 1)
            return ok
        if d["k"] == "struct" and d["path"] not in SEQ:
            fs = d["variants"][0]["f"]
            if t.op == "adt" or (x.op == "adt"):
                ok = True
                for fi, fd in enumerate(fs):
                    ok &= self.eq(self.it.proj_f(t, None, fi, ti, fd[1]), self.it.proj_f(x, None, fi, ti, fd[1]), fd[1], path + "." + fd[0], pc, depth + 1)
                return ok
            return self.diff(path, t, x, "", pc)
        if d["k"] == "tuple":
            ok = True
            for fi, ft in enumerate(d["fs"]):
                ok &= self.eq(self.it.proj_f(t, None, fi, ti, ft), self.it.proj_f(x, None, fi, ti, ft), ft, path + f".{fi}", pc, depth + 1)
            return ok
        el = None
        if d["k"] in ("array", "slice"):
            el = d["of"]
        elif d["k"] == "struct" and d["path"] in SEQ and d.get("args"):
            el = d["args"][0]
        if el is not None:
            t, x = self.norm(t), self.norm(x)
            if t is x:
                return True
            lt_ = constrain(self.norm(seq_len(t)), pc)
            lx = I(int(d["len"])) if d["k"] == "array" and d.get("len") is not None else constrain(self.norm(seq_len(x)), pc)
            lt_, lx = pin(lt_, pc), pin(lx, pc)
            if lt_ is not lx:
                if not self.diff(path + ".len", lt_, lx, "length", pc):
                    return False
            if lx.op == "int" and lx.a[0] <= 32:
                ok = True
                for j in range(lx.a[0]):
                    ok &= self.eq(seq_elem(t, I(j)), seq_elem(x, I(j)), el, path + f"[{j}]", pc, depth + 1)
                return ok
            self.bvs += 1
            i = mk("idx", ("same", self.bvs))
            self.below[i] = lx
            pc = AND(pc, AND(le0(scale(i, -1)), lt(i, lx)))
            self.touch(seq_elem(x, i), el, 4)
            pc = AND(pc, constrain(self.facts(i, lx), pc))
            a, b = self.norm(seq_elem(t, i)), self.norm(seq_elem(x, i))
            if a.op == "elem" and b.op == "elem" and a is not b:
                return self.diff(path + "[i]", t, x, "", pc)
            return self.eq(a, b, el, path + "[i]", pc, depth + 1)
        return self.diff(path, t, x, "", pc)


def subst_lx(t, at, code):
    """t on the runs whose loop outcome is not `code`"""
    return constrain(t, not_vals(at, (code,)))


SEQ = ("std::vec::Vec", "alloc::vec::Vec", "std::string::String")

if __name__ == "__main__":
    import sys, gc
    gc.disable()
    from load import Program
    p = Program(sys.argv[1])
    c = Conv(p)
    f1, f2 = c.one(sys.argv[2]), c.one(sys.argv[3])
    print(f1.full, "\n", f2.full)
    x = sym("x")
    t = time.time()
    v, okc, it1, er = c.run(f1, [x])
    print("fwd", time.time() - t, str(okc)[:200], it1.opaque, it1.notes[:3], len(it1.obl))
    w, okc2, it2, er2 = c.run(f2, [v])
    print("back", time.time() - t, str(okc2)[:200], it2.opaque, it2.notes[:3], len(it2.obl))
    ti = it1.peel(f1.locals[1])
    s = Same(it2)
    print(s.eq(w, x, ti), s.n)
    for d in s.diffs[:12]:
        print(d[0], d[3], "\n    ", str(d[1])[:300], "\n    ", str(d[2])[:300])
