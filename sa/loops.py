"""Natural loops of MIR bodies and what makes them end."""
import re

NEXT = re.compile(r"::(next|next_back|next_if|next_if_eq|next_tuple)$")
READ = re.compile(r"::(read|read_le|read_be|read_ne|read_options|read_le_args|read_be_args|read_type|read_type_args|read_args|read_exact|read_u8|read_until|read_line|read_to_end|seek_relative|read_bit|read_bits|read_u32|read_i32|read_\w+)$")
INSERT = re.compile(r"(HashSet|BTreeSet|AHashSet).*::(insert)$")
CONTAINS = re.compile(r"(HashSet|BTreeSet|AHashSet).*::(contains)$")
POP = re.compile(r"::(pop|pop_front|pop_back|pop_first|pop_last|split_first|split_last|split_off|drain|advance|remove|swap_remove|truncate)$")
WIPE = re.compile(r"::(clear|remove|drain|retain|take|replace|swap)$")
ENDLESS = re.compile(r"(^|::)(RangeFrom|Repeat|RepeatWith|Cycle)$")
MAYBE = re.compile(r"(^|::)(Successors|FromFn)$")
BOUNDED = re.compile(r"(^|::)(Take|RepeatN|Once|OnceWith|Empty)$")


class Body:
    def __init__(self, mir, f):
        self.m, self.p, self.f = mir, mir.p, f
        n = len(f.blocks)
        self.succ = {b: ([] if f.blocks[b].get("cleanup") else mir.succ(f, b)) for b in range(n)}
        self.pred = {b: [] for b in range(n)}
        for b in self.succ:
            for y in self.succ[b]:
                self.pred[y].append(b)
        self.live = self.reach([0], self.succ)

    @staticmethod
    def reach(start, nxt, avoid=()):
        seen, todo = set(), list(start)
        while todo:
            x = todo.pop()
            if x not in seen and x not in avoid:
                seen.add(x)
                todo += nxt[x]
        return seen

    def loops(self):
        for h in sorted(self.live):
            if not self.pred[h]:
                continue
            without = self.reach([0], self.succ, (h,))
            us = [u for u in self.pred[h] if u in self.live and u not in without]
            if us:
                yield h, self.reach(us, self.pred, (h,)) & self.live | {h}

    def irreducible(self):
        """blocks on a cycle that no loop header explains"""
        inl = set()
        for _, b in self.loops():
            inl |= b
        return [b for b in self.live if b not in inl and any(b in self.reach([y], self.succ) for y in self.succ[b])]

    def every_round(self, h, body, b):
        """does every way round the loop pass block b?"""
        if b == h:
            return True
        inner = {x: [y for y in self.succ[x] if y in body] for x in body}
        seen = self.reach(inner[h], inner, (b,)) if h != b else set()
        return h not in seen

    def name(self, s):
        return self.p.fns[s.callee].path if s.callee is not None else s.d

    def origin(self, l, depth=0):
        """the local a reference or copy was taken from"""
        if depth > 12:
            return l
        defs = []
        for blk in self.f.blocks:
            if blk.get("cleanup"):
                continue
            for pl, rv, _ in blk["s"]:
                if pl[0] == l and not pl[1]:
                    defs.append(rv)
            t = blk["t"]
            if t[0] == "call" and t[3][0] == l and not t[3][1]:
                defs.append(["call"])
        if len(defs) == 1:
            rv = defs[0]
            if rv[0] in ("ref", "reborrow", "rawptr", "addr") and all(e == "*" for e in rv[1][1]):
                return self.origin(rv[1][0], depth + 1)
            if rv[0] == "use" and rv[1][0] in ("p", "m") and not [e for e in rv[1][1][1] if e != "*"]:
                return self.origin(rv[1][1][0], depth + 1)
        return l

    def assigned(self, l, body):
        for b in body:
            blk = self.f.blocks[b]
            for pl, rv, _ in blk["s"]:
                if pl[0] == l and not pl[1] and rv[0] != "storage":
                    return True
            t = blk["t"]
            if t[0] == "call" and t[3][0] == l and not t[3][1]:
                return True
        return False

    def outcome(self, s, body):
        """-> {value of the discriminant (or of the boolean) of the result of s: True if the loop is left} or None"""
        l, b, hop = s.dest[0], s.target, 0
        al = {l}
        dl = set()
        neg = set()
        while b is not None and hop < 40:
            hop += 1
            blk = self.f.blocks[b]
            for pl, rv, _ in blk["s"]:
                if rv[0] == "discr" and rv[1][0] in al and not [e for e in rv[1][1] if e != "*"]:
                    dl.add(pl[0])
                elif rv[0] == "use" and rv[1][0] in ("p", "m") and rv[1][1][0] in al and not rv[1][1][1] and not pl[1]:
                    al.add(pl[0])
                elif rv[0] == "use" and rv[1][0] in ("p", "m") and rv[1][1][0] in dl and not rv[1][1][1] and not pl[1]:
                    dl.add(pl[0])
                elif rv[0] == "un" and rv[1] == "Not" and rv[2][0] in ("p", "m") and rv[2][1][0] in al and not rv[2][1][1]:
                    neg.add(pl[0])
            t = blk["t"]
            if t[0] == "switch" and t[1][0] in ("p", "m") and t[1][1][0] in (al | dl | neg):
                flip = t[1][1][0] in neg
                r = {}
                for v, x in t[2]:
                    r[int(v)] = self.leaves(x, body)
                if t[3] is not None:
                    r["else"] = self.leaves(t[3], body)
                return {(1 - k if flip and k in (0, 1) else (0 if flip and k == "else" else k)): v for k, v in r.items()}
            if t[0] == "call":
                n = self.p.fns[t[1]["i"]].path if isinstance(t[1].get("i"), int) else t[1].get("d", "")
                if any(o[0] in ("p", "m") and o[1][0] in al and not o[1][1] for o in t[2]) and re.search(r"Try>?::branch$|::map_err$|::map$|::with_context$|::ok$|::copied$|::cloned$|::as_ref$", n):
                    if n.endswith("::ok"):
                        return None
                    al = {t[3][0]}
                    dl = set()
                elif t[3][0] in al:
                    return None
            ss = self.succ[b]
            if len(ss) != 1:
                return None
            b = ss[0]
        return None

    def leaves(self, b, body):
        """does going to b mean that the loop is left for good (follow straight code)?"""
        for _ in range(60):
            if b not in body:
                return True
            ss = self.succ[b]
            if len(ss) != 1:
                # a drop or call on the way out may still be inside: only straight code counts
                return False
            b = ss[0]
        return False

    def finite(self, ti, depth=0):
        """True finite, False endless, None unknown"""
        d = self.p.types[ti]
        while d["k"] == "ref":
            ti = d["to"]
            d = self.p.types[ti]
        path = d.get("path") or ""
        a = [x for x in (d.get("args") or []) if isinstance(x, int)]
        if depth > 20:
            return None
        if ENDLESS.search(path):
            return False
        if MAYBE.search(path):
            return None
        if BOUNDED.search(path):
            return True
        if path.endswith("::Zip"):
            r = [self.finite(x, depth + 1) for x in a[:2]]
            return True if True in r else (None if None in r else False)
        if path.endswith("::Chain"):
            r = [self.finite(x, depth + 1) for x in a[:2]]
            return False if False in r else (None if None in r else True)
        if re.search(r"::(TakeWhile|MapWhile|Scan)$", path):
            return True if self.finite(a[0], depth + 1) is True else None
        if re.search(r"::(Map|Filter|FilterMap|Enumerate|Skip|SkipWhile|StepBy|Rev|Cloned|Copied|Peekable|Inspect|Fuse|FlatMap|Flatten|FlattenCompat|Unique|UniqueBy|Dedup|TupleWindows|Tuples|Interleave|GenericShunt|ByRefSized)$", path) and a:
            return self.finite(a[0], depth + 1)
        if d["k"] == "adt" and path.split("::")[0] in ("ssbh_lib", "ssbh_data", "ssbh_write"):
            return None
        return True


def judge(B, h, body):
    """-> ('ok'|'viol'|'unk', reason)"""
    f = B.f
    sites = [s for s in B.m.sites(f) if s.b in body]
    nested = [b for hh, b in B.loops() if hh != h and b < body]
    inner = set().union(*nested) if nested else set()
    exits = [(x, y) for x in body for y in B.succ[x] if y not in body]
    cand = []
    if not exits:
        return "viol", "the loop has no exit"
    for s in sites:
        n = B.name(s)
        if s.b in inner:
            continue
        er = B.every_round(h, body, s.b)
        if NEXT.search(n):
            r = B.outcome(s, body)
            it = B.origin(s.args[0][1][0]) if s.args and s.args[0][0] in ("p", "m") else None
            ends = r is not None and (r.get(0) is True or (0 not in r and r.get("else") is True))
            if er and ends and it is not None:
                if B.assigned(it, body) and it != s.args[0][1][0]:
                    cand.append(("viol", "the iterator is created anew in every round"))
                    continue
                ti = f.locals[it]
                fin = B.finite(ti)
                if fin:
                    return "ok", "iterator"
                cand.append(("viol" if fin is False else "unk", "the iterator may be endless"))
            else:
                cand.append(("unk", "an iterator, but its end does not end every round"))
        elif READ.search(n) and B.p.types[f.locals[s.dest[0]]].get("path", "").endswith("result::Result"):
            r = B.outcome(s, body)
            if er and r is not None and (r.get(1) is True or (1 not in r and r.get("else") is True)):
                return "ok", "stream"
            if r is not None and (r.get(1) is False or (1 not in r and r.get("else") is False)):
                cand.append(("viol", "a read that fails at the end of the data does not end the loop"))
            else:
                cand.append(("unk", "a read, but its failure does not end every round"))
        elif INSERT.search(n):
            r = B.outcome(s, body)
            st = B.origin(s.args[0][1][0])
            wiped = B.assigned(st, body) and st != s.args[0][1][0] or any(WIPE.search(B.name(x)) and x.args and x.args[0][0] in ("p", "m") and B.origin(x.args[0][1][0]) == st for x in sites)
            if wiped:
                cand.append(("viol", "the set of visited elements is emptied in the loop"))
            elif er and r is not None and (r.get(0) is True or (0 not in r and r.get("else") is True)):
                return "ok", "visited set"
            elif not er:
                cand.append(("viol", "a round can pass without recording the element it visits"))
            elif er and any(CONTAINS.search(B.name(x)) and B.every_round(h, body, x.b) and (B.outcome(x, body) or {}).get("else" if 1 not in (B.outcome(x, body) or {}) else 1) is True for x in sites):
                cand.append(("unk", "a set of visited elements tested separately"))
            elif r is not None:
                cand.append(("viol", "visiting an element again does not end the loop"))
            else:
                cand.append(("unk", "a set of visited elements"))
        elif POP.search(n):
            cand.append(("unk", "shrinks a collection"))
    # counters
    cnt, grown = {}, set()
    for b in body:
        for pl, rv, _ in f.blocks[b]["s"]:
            if rv[0] == "bin" and str(rv[1]).startswith(("Add", "Sub", "Mul", "Div", "Shr", "Shl")):
                o = {B.origin(o[1][0]) for o in rv[2:4] if o[0] in ("p", "m")}
                cnt.setdefault(pl[0], set()).update(o)
                if pl[0] in o:
                    grown.add(pl[0])
    for b in body:
        for pl, rv, _ in f.blocks[b]["s"]:
            if rv[0] == "use" and rv[1][0] in ("p", "m") and pl[0] in cnt.get(rv[1][1][0], ()):
                grown.add(pl[0])
    if grown:
        tests = set()
        for b in body:
            for pl, rv, _ in f.blocks[b]["s"]:
                if rv[0] == "bin" and str(rv[1]) in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
                    if any(o[0] in ("p", "m") and B.origin(o[1][0]) in grown for o in rv[2:4]):
                        tests.add(pl[0])
        for x, y in exits:
            t = f.blocks[x]["t"]
            if t[0] == "switch" and t[1][0] in ("p", "m") and t[1][1][0] in tests:
                return "ok", "counter"
        cand.append(("unk", "a counter"))
    if not cand:
        return "viol", "nothing in the loop makes progress towards its end"
    k = [c for c in cand if c[0] == "unk"]
    return (k or cand)[0]
