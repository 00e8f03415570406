"""C07: an error of any step reaches the caller."""
import re
from mirq import Mir, rel

CR = ("ssbh_lib", "ssbh_data", "ssbh_write")
PASS = re.compile(r"(Try>?::branch|::map_err|::map|::and_then|::or_else|::expect|::unwrap|::expect_err|::unwrap_err|::as_ref|::as_mut|::copied|::cloned|"
                  r"::inspect|::inspect_err|::and|::transpose|FromResidual.*from_residual|::with_context|::into_ok|restore_position(_err|_variant)?|::from_output)$")
DISCARD = re.compile(r"result::Result::<T, E>::(ok|err|is_ok|is_err|is_ok_and|is_err_and|unwrap_or|unwrap_or_else|unwrap_or_default|map_or|map_or_else|or|iter|iter_mut|unwrap_unchecked)$|"
                     r"mem::(drop|forget)$|IntoIterator>?::into_iter$|PartialEq>?::(eq|ne)$")
# the outcome of a test, not a failed operation
TESTS = re.compile(r"(Utf8Error|FromUtf8Error|TryFromIntError|TryFromSliceError|ParseIntError|ParseFloatError|Infallible|\bnever\b|!)$")
HANDLER = re.compile(r"::(or_else|map_err|with_context|unwrap_or_else|inspect_err)$|restore_position")
PARTIAL = re.compile(r"io::Read>?::(read|read_vectored)$|io::Write>?::(write|write_vectored)$")


def is_result(p, ti):
    d = p.types[ti]
    return d["k"] == "enum" and d["path"].endswith("result::Result")


def err_name(p, ti):
    a = p.types[ti].get("args") or []
    return p.tname(a[1]) if len(a) > 1 else "?"


def bare_err_variant(p, ti):
    return 1


class Flow:
    def __init__(self, m, f):
        self.m, self.p, self.f = m, m.p, f
        self.u = m.uses(f)

    def name(self, t):
        c = t[1]
        if isinstance(c.get("i"), int):
            return self.p.fns[c["i"]].path
        return c.get("d", "?")

    def check(self, l, seen, start=None):
        """-> None if the outcome held by local l is dealt with, else why not"""
        if l == 0:
            return None
        if l in seen:
            return None
        seen.add(l)
        us = [x for x in self.u.get(l, []) if x[2] != "drop"]
        if not us:
            return "is dropped without being looked at"
        why = None
        read = False
        for b, si, how, pl, det in us:
            if how == "arg":
                t = self.f.blocks[b]["t"]
                n = self.name(t)
                if DISCARD.search(n):
                    why = why or f"is passed to {n.split('::')[-1]}, which forgets the error"
                    continue
                return None
            if how in ("use", "move") and not pl[1]:
                dst, rv = det
                if not dst[1] and rv[0] == "use":
                    r = self.check(dst[0], seen)
                    if r is None:
                        return None
                    why = why or r
                    continue
                return None          # stored in a value that lives on
            if how in ("ref", "mutref") and not pl[1]:
                dst, rv = det
                if not dst[1]:
                    r = self.check(dst[0], seen)
                    if r is None:
                        return None
                    why = why or r
                    continue
                return None
            if how in ("use", "move", "ref", "mutref") and pl[1]:
                v = [e for e in pl[1] if isinstance(e, list) and e[0] == "v"]
                if v and v[0][1] == 1:
                    read = True
                continue
        if read:
            return None
        d = [x for x in us if x[2] == "discr"]
        for b, si, how, pl, det in d:
            r = self.arms(b, det[0][0], l)
            if r is None:
                return None
            why = why or r
        if why is None and not d:
            why = "is not examined for its error"
        return why

    def arms(self, b, dl, l):
        """the match on the discriminant held by dl in block b: does the error arm lead to an error?"""
        f, m = self.f, self.m
        for x in sorted(m.from_block(f, b)):
            t = f.blocks[x]["t"]
            if t[0] == "switch" and t[1][0] in ("p", "m") and t[1][1][0] == dl:
                tg = {v: y for v, y in t[2]}
                okb = tg.get(0, tg.get("0", t[3]))
                erb = tg.get(1, tg.get("1", t[3]))
                if erb is None or okb == erb:
                    return "is matched but the error is treated like success"
                only = m.from_block(f, erb) - m.from_block(f, okb)
                # nothing reachable from the error arm alone returns: it diverges
                for y in only:
                    for pl, rv, sp in f.blocks[y]["s"]:
                        if rv[0] == "agg" and rv[1][0] in ("adt", "enum", "struct") and self.err_agg(rv[1]):
                            return None
                    ty = f.blocks[y]["t"]
                    if ty[0] == "call":
                        c = ty[1].get("i")
                        dty = f.locals[ty[3][0]] if not ty[3][1] else None
                        if dty is not None and is_result(self.p, dty):
                            return None
                        if ty[4] is None:
                            return None
                    if ty[0] == "unreachable":
                        return None
                if not any(f.blocks[y]["t"][0] == "return" for y in m.from_block(f, erb)):
                    return None
                return "is matched and its error arm continues without it"
        return "is matched"

    def err_agg(self, k):
        """aggregate kind: Result::Err, or a user error value"""
        try:
            d = self.p.types[k[1]]
        except Exception:
            return False
        if d["k"] == "enum" and d["path"].endswith("result::Result"):
            return len(k) > 2 and k[2] == 1
        return "Error" in d.get("path", "")


def handlers(m):
    """closures that only run once another error occurred"""
    out = set()
    for f in m.p.fns:
        if not f.blocks or f.crate not in CR:
            continue
        for s in m.sites(f):
            n = m.p.fns[s.callee].path if s.callee is not None else s.d
            if not HANDLER.search(n):
                continue
            for a in s.args[1:]:
                if a[0] in ("p", "m") and not a[1][1]:
                    d = m.p.types[f.locals[a[1][0]]]
                    if d["k"] == "closure" and "inst" in d:
                        out.add(d["inst"])
    return out


def run(ctx, rep):
    m = ctx.mir
    p = ctx.prog
    rep.explanation = ("Every call in the libraries whose outcome is a Result is followed through the MIR of its function: moves, references, matches and the combinators "
                       "it is passed to. The outcome has to be returned, propagated, transformed into another outcome (followed in turn), or matched with an error "
                       "arm that uses the error or leads to one.")
    rep.rules = ["no Result of a reading, writing or converting step is dropped, flattened away, replaced by a default or matched without an error leading out",
                 "no partial read or write whose count is ignored; no buffered writer without flush"]
    hs = handlers(m)
    n = fns = 0
    kinds = {}
    for f in m.ws(CR):
        fns += 1
        fl = None
        for s in m.sites(f):
            nm = p.fns[s.callee].path if s.callee is not None else s.d
            if not s.dest[1]:
                ti = f.locals[s.dest[0]]
                if is_result(p, ti):
                    if TESTS.search(err_name(p, ti)):
                        rep.count("value_tests", 1)
                        continue
                    n += 1
                    if f.i in hs:
                        continue
                    fl = fl or Flow(m, f)
                    why = fl.check(s.dest[0], set())
                    if why:
                        short = nm.split("::")[-1]
                        rep.violation(f"{generic(f)}: outcome of {short}", rel(s.span), f"the outcome of {nm} in {f.full} {why}")
            # function items handed to iterators
            if PARTIAL.search(nm) and f.crate in CR and f.name not in ("read", "write"):
                rep.violation(f"{generic(f)}: partial {nm.split('::')[-1]}", rel(s.span), f"{nm} in {f.full} may transfer fewer bytes than asked for")
            if re.search(r"Iterator::(flatten|filter_map|flat_map|take_while|map_while)$", nm):
                if swallow_iter(m, f, s, nm):
                    rep.violation(f"{generic(f)}: {nm.split('::')[-1]} over outcomes", rel(s.span), f"{nm} in {f.full} drops the elements that failed")
            if re.search(r"io::BufWriter.*::(new|with_capacity)$", nm):
                names = [p.fns[x.callee].path if x.callee is not None else x.d for x in m.sites(f)]
                if not any(re.search(r"(Write>?::flush|into_inner)$", y) for y in names):
                    rep.violation(f"{generic(f)}: buffered writer not flushed", rel(s.span), f"a BufWriter in {f.full} is dropped without flush, losing write errors")
    rep.floor("functions", fns, 1500, "functions")
    rep.floor("outcomes", n, 15000, "Result-valued call sites")


def generic(f):
    return re.sub(r"<(io::|std::|&mut|sa_roots).*$", "", f.path)


def swallow_iter(m, f, s, nm):
    p = m.p
    # closures or fn items returning Result / turning a Result into an Option
    for a in s.args:
        if a[0] == "c" and isinstance(a[1].get("fn"), int):
            if re.search(r"result::Result::<T, E>::(ok|err)$", p.fns[a[1]["fn"]].path):
                return True
        if a[0] in ("p", "m") and not a[1][1]:
            d = p.types[f.locals[a[1][0]]]
            if nm.endswith("flatten"):
                # the mapped closure's return type
                for c in closures_in(p, f.locals[a[1][0]]):
                    g = p.fns[c]
                    if g.locals and is_result(p, g.locals[0]) and not TESTS.search(err_name(p, g.locals[0])):
                        return True
            if d["k"] in ("closure",) and "inst" in d and nm.endswith("flat_map"):
                g = p.fns[d["inst"]]
                if g.locals and is_result(p, g.locals[0]) and not TESTS.search(err_name(p, g.locals[0])):
                    return True
    return False


def closures_in(p, ti, n=0):
    d = p.types[ti]
    if d["k"] == "closure" and "inst" in d:
        return [d["inst"]]
    if n < 1 and d["k"] == "struct" and re.search(r"adapters::map::Map$|iter::Map$", d["path"]):
        return [c for a in d.get("args") or [] if isinstance(a, int) for c in closures_in(p, a, n + 1)]
    return []
