"""Where the order in which a hash map or set is visited can reach a result: flow of iterators over hash tables through the monomorphised program."""
import re
from mirq import rel

ITER = re.compile(r"(^|::)(hash_map|hash_set|hashbrown(::\w+)*|AHashMap|AHashSet)::(raw::)?"
                  r"(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|ExtractIf|DrainFilter|Difference|SymmetricDifference|Intersection|Union|RawIter|RawIntoIter|RawDrain)$")
TABLE = re.compile(r"(^|::)(HashMap|HashSet|AHashMap|AHashSet|RawTable)$")
SAFE = re.compile(r"::(count|len|is_empty|all|any|max|min|size_hint|sorted|sorted_unstable|contains|contains_key|get|eq|ne|is_subset|is_superset|is_disjoint)$")
SUM = re.compile(r"::(sum|product)$")
COLLECT = re.compile(r"::(collect|from_iter|extend|into_group_map|counts|collect_vec|try_collect|partition|unzip)$")
ADAPT = re.compile(r"::(map|filter|filter_map|flat_map|flatten|cloned|copied|into_iter|iter|iter_mut|chain|inspect|by_ref|keys|values|values_mut|into_keys|into_values|drain|"
                   r"map_while|fuse|union|difference|intersection|symmetric_difference|deref|deref_mut|as_ref|map_into|clone|iter_names|unique|dedup)$")
BYKEY = re.compile(r"::(sorted_by|sorted_by_key|sorted_by_cached_key|sorted_unstable_by|sorted_unstable_by_key|max_by|max_by_key|min_by|min_by_key|minmax|fold|try_fold|reduce|for_each|try_for_each|tree_fold1)$")
POSITION = re.compile(r"::(enumerate|zip|take|skip|step_by|peekable|find|find_map|position|last|nth|first|take_while|skip_while|scan|rev|chunks|tuples|tuple_windows|windows|join|"
                      r"cmp|partial_cmp|is_sorted|with_position|group_by|chunk_by|interleave|cycle|exactly_one|next_back|collect_tuple|rposition|rfind)$")
APPEND = re.compile(r"(Vec<.*>|Vec::<.*>|String|VecDeque.*)>?::(push|push_str|extend|extend_from_slice|append|insert|push_back|push_front)$|fmt::Write.*::write|io::Write.*::(write|write_all)|"
                    r"::write_all$|ssbh_write$|write_le$|Seek>?::seek$|SmallVec.*::push$")
SORT = re.compile(r"::(sort|sort_unstable|sort_by|sort_by_key|sort_unstable_by|sort_unstable_by_key|sort_by_cached_key|select_nth_unstable)$")

ON_TABLE = re.compile(r"(HashMap|HashSet|Entry)(<.*>|::<.*>)?>?::(entry|or_insert|or_insert_with|or_default|and_modify|insert|get|get_mut|contains|contains_key|remove|len)$|Deref(Mut)?>?::deref(_mut)?$|"
                      r"AddAssign.*::add_assign$|Clone>?::clone$|Into(Iterator)?>?::into(_iter)?$|Copy")


class HashOrder:
    def __init__(self, mir, crates):
        self.m, self.p = mir, mir.p
        self.crates = crates
        self._has = {}
        self.out = []      # (kind, key, where, text)
        self.sites = 0

    def has(self, ti, rx, seen=()):
        k = (ti, rx)
        if k in self._has:
            return self._has[k]
        if ti in seen or len(seen) > 12:
            return False
        d = self.p.types[ti]
        r = bool(rx.search(d.get("path") or "")) or (d["k"] == "adt" and bool(rx.search(d.get("s") or "")))
        if not r:
            for a in list(d.get("args") or []) + ([d["to"]] if isinstance(d.get("to"), int) else []) + ([d["of"]] if isinstance(d.get("of"), int) else []) + \
                    ([x for x in d["fs"] if isinstance(x, int)] if d["k"] == "tuple" and d.get("fs") else []):
                if isinstance(a, int) and self.has(a, rx, seen + (ti,)):
                    r = True
                    break
        if not seen:
            self._has[k] = r
        return r

    def name(self, s):
        return (self.p.fns[s.callee].path if s.callee is not None else s.d) or s.d

    def opty(self, f, o):
        if o and o[0] in ("p", "m"):
            pl = o[1]
            if not pl[1]:
                return f.locals[pl[0]]
            return f.locals[pl[0]] if all(e == "*" for e in pl[1]) else None
        return None

    def sorted_later(self, f, s):
        """is the sequence made at call s sorted afterwards in the same function?"""
        after = self.m.from_block(f, s.target) if s.target is not None else set()
        return any(SORT.search(self.name(x)) for x in self.m.sites(f) if x.b in after)

    def loop_blocks(self, f, b):
        """blocks of the innermost loop that block b heads (or lies in)"""
        n = range(len(f.blocks))
        pred = {x: [] for x in n}
        for x in n:
            if not f.blocks[x].get("cleanup"):
                for y in self.m.succ(f, x):
                    pred[y].append(x)

        def reach(start, nxt, avoid):
            seen, todo = set(), list(start)
            while todo:
                x = todo.pop()
                if x not in seen and x != avoid:
                    seen.add(x)
                    todo += nxt(x)
            return seen
        best = None
        for h in n:
            without = reach([0], lambda x: self.m.succ(f, x), h)
            us = [u for u in pred[h] if u not in without]
            if us:
                body = reach(us, lambda x: pred[x], h) | {h}
                if b in body and (best is None or len(body) < len(best)):
                    best = body
        return best or set()

    def exit_test(self, f, s, loop):
        """the block that leaves the loop when the table is exhausted"""
        b = s.target
        while b is not None and len(self.m.succ(f, b)) == 1:
            b = self.m.succ(f, b)[0]
        return b

    def closure_appends(self, s):
        if s.callee is None:
            return False
        for a in s.args:
            t = self.opty(s.f, a)
            if t is None:
                continue
            d = self.p.types[t]
            if d["k"] == "closure" and "inst" in d and self.p.fns[d["inst"]].blocks:
                if any(APPEND.search(self.name(x)) for x in self.m.sites(self.p.fns[d["inst"]])):
                    return True
        return False

    def run(self):
        for f in self.p.fns:
            if f.crate not in self.crates or not f.blocks or f.kind not in ("item", "closure_once"):
                continue
            for s in self.m.sites(f):
                arg = None
                for a in s.args:
                    t = self.opty(f, a)
                    if t is not None and self.has(t, ITER):
                        arg = t
                if arg is None:
                    dt = f.locals[s.dest[0]]
                    if self.has(dt, ITER):
                        self.sites += 1
                    for a in s.args:
                        t = self.opty(f, a)
                        n = self.name(s)
                        if t is not None and self.has(t, TABLE) and COLLECT.search(n) and not n.endswith("from_iter") and self.p.types[f.locals[s.dest[0]]]["k"] == "tuple" and a is not s.args[0]:
                            # extending something by a table: visits it in its order
                            self.dest(f, s, s.args[0], n)
                        elif t is not None and self.has(t, TABLE) and re.search(r"Debug>?::fmt$|Serialize>?::serialize$|Hash>?::hash$", n):
                            self.flag("viol", f, s, f"{n.split('::')[-1]} visits a hash table in its order")
                    continue
                self.sites += 1
                self.consume(f, s, self.name(s))
        return self.out

    def flag(self, kind, f, s, text):
        n = self.name(s).split("::")[-1]
        self.out.append((kind, f"{f.path}: {n}", rel(s.span), f"in {f.path}: {text}"))

    def is_table(self, ti):
        d = self.p.types[ti]
        while d["k"] == "ref":
            d = self.p.types[d["to"]]
        return bool(TABLE.search(d.get("path") or "") or re.search(r"BTree(Map|Set)$|BinaryHeap$", d.get("path") or ""))

    def dest(self, f, s, a, n):
        t = self.opty(f, a)
        if t is not None and self.is_table(t):
            return
        if self.sorted_later(f, s):
            self.flag("unk", f, s, "a sequence in hash table order is sorted later")
        else:
            self.flag("viol", f, s, f"{n.split('::')[-1]} keeps the order of a hash table")

    def consume(self, f, s, n):
        if SAFE.search(n):
            return
        if SUM.search(n):
            d = self.p.types[f.locals[s.dest[0]]]
            if d["k"] in ("float",) or d["s"] in ("f32", "f64"):
                self.flag("viol", f, s, "a floating point sum is taken in the order of a hash table")
            return
        if COLLECT.search(n):
            if n.endswith("extend"):
                return self.dest(f, s, s.args[0], n)
            dt = f.locals[s.dest[0]]
            if self.is_table(dt) or n.endswith(("into_group_map", "counts")) and self.is_table(dt):
                return
            # Result<HashSet<..>> and the like
            d = self.p.types[dt]
            if d.get("args") and all(self.is_table(x) or not self.has(x, re.compile(r"Vec$|String$")) for x in d["args"][:1] if isinstance(x, int)) and d.get("path", "").endswith(("Result", "Option")):
                return
            if self.sorted_later(f, s):
                return self.flag("unk", f, s, "a sequence in hash table order is sorted later")
            return self.flag("viol", f, s, f"{n.split('::')[-1]} turns the order of a hash table into the order of a sequence")
        if POSITION.search(n):
            return self.flag("viol", f, s, f"{n.split('::')[-1]} depends on the order of a hash table")
        if n.endswith("::next"):
            loop = self.loop_blocks(f, s.b)
            if not loop:
                return self.flag("viol", f, s, "takes an element of a hash table by its order")
            bad = [x for x in self.m.sites(f) if x.b in loop and APPEND.search(self.name(x))]
            if bad:
                if any(self.sorted_later(f, x) for x in bad):
                    return self.flag("unk", f, s, "a sequence built in hash table order is sorted later")
                return self.flag("viol", f, s, f"a loop over a hash table builds a sequence or output ({self.name(bad[0]).split('::')[-1]})")
            other = [x for x in self.m.sites(f) if x.b in loop and not x.b == s.b and not ON_TABLE.search(self.name(x))]
            early = [b for b in loop for y in self.m.succ(f, b) if y not in loop and b != self.exit_test(f, s, loop)]
            if not other and not early:
                return              # every element is treated alike, through other tables only
            return self.flag("unk", f, s, "a loop over a hash table")
        if BYKEY.search(n):
            if n.endswith(("for_each", "fold", "try_for_each", "try_fold")) and self.closure_appends(s):
                return self.flag("viol", f, s, f"{n.split('::')[-1]} over a hash table builds a sequence or output")
            return self.flag("unk", f, s, f"{n.split('::')[-1]} over a hash table")
        if ADAPT.search(n):
            return
        if s.callee is not None and self.p.fns[s.callee].crate in self.crates:
            return          # followed there
        self.flag("unk", f, s, f"{n} over a hash table")
