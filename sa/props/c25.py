"""C25: every operation ends."""
import re
import loops
from mirq import rel

CR = ("ssbh_lib", "ssbh_data", "ssbh_write")
CONSUME = re.compile(r"Iterator>?::(collect|for_each|fold|sum|product|count|last|max|min|max_by|min_by|max_by_key|min_by_key|reduce|partition|unzip|try_collect|all|try_fold|try_for_each|eq|ne|cmp)$|"
                     r"::(extend|from_iter|collect_vec|sorted|sorted_by|sorted_by_key|join|counts|into_group_map|collect_tuple|try_collect)$")


def run(ctx, rep):
    rep.explanation = ("Every natural loop of the libraries' MIR needs a reason to end, found from the control-flow graph: an iterator over something finite whose exhaustion leaves the loop in every "
                       "round, a read whose failure at the end of the data leaves it, a set of visited elements whose repetition leaves it, or a counter tested at the exit. Iterators handed to "
                       "consuming operations must be finite by type, and no function may call itself, directly or through others.")
    rep.rules = ["every loop has a measure", "an endless iterator is never consumed without a bound", "the call graph of the libraries has no cycle"]
    m = ctx.mir
    p = ctx.prog
    seen = set()
    n = 0
    kinds = {}
    for f in p.fns:
        if f.crate not in CR or not f.blocks:
            continue
        n += 1
        B = None
        if any(True for b in range(len(f.blocks)) for y in m.succ(f, b) if y <= b):
            B = loops.Body(m, f)
            for h, body in B.loops():
                k, why = loops.judge(B, h, body)
                key = (f.path, rel(f.blocks[h].get("sp")))
                if (key, k) in seen:
                    continue
                seen.add((key, k))
                kinds[k, why] = kinds.get((k, why), 0) + 1
                where = rel(f.blocks[h].get("sp"))
                if k == "viol":
                    rep.violation(f"{f.path}: loop: {why}", where, f"a loop in {f.path} may not end: {why}")
                elif k == "unk":
                    rep.unknown(f"{f.path} at {where}: {why}")
                rep.count("loops", 1)
                rep.samples.append({"loop": f.path, "at": where, "ends_by": why})
            for b in B.irreducible():
                rep.unknown(f"{f.path}: irreducible control flow")
                break
        for s in m.sites(f):
            nm = p.fns[s.callee].path if s.callee is not None else s.d
            if CONSUME.search(nm or ""):
                B = B or loops.Body(m, f)
                for a in s.args:
                    if a[0] in ("p", "m") and not a[1][1]:
                        rep.count("consumed_iterators", 1)
                        fin = B.finite(f.locals[a[1][0]])
                        if fin is False:
                            rep.violation(f"{f.path}: {nm.split('::')[-1]} of an endless iterator", rel(s.span), f"{f.path} consumes {p.tname(f.locals[a[1][0]])[:200]}, which never ends")
                        elif fin is None:
                            t = p.tname(f.locals[a[1][0]])
                            if not any(x in t for x in ("Successors", "FromFn")):
                                continue
                            rep.unknown(f"{f.path}: {nm.split('::')[-1]} of {t[:120]}")
    for comp in cycles(m, [f for f in p.fns if f.crate in CR and f.blocks]):
        names = sorted({p.fns[i].path for i in comp if p.fns[i].crate in CR})
        rep.violation(f"recursion: {names[0]}", rel(p.fns[comp[0]].span or ""), "functions call each other without a bound on the depth: " + ", ".join(names[:6]))
    rep.count("functions", n)
    rep.floor("loops", len(seen), 8, "loops")
    for (k, why), c in sorted(kinds.items()):
        rep.count(f"ended_by_{why}".replace(" ", "_") if k == "ok" else k, c)
    rep.assume |= {"iterators of the standard library over finite collections are finite", "readers fail at the end of their data"}


def cycles(m, roots):
    """strongly connected components of the call graph that contain a function of the libraries and a cycle"""
    p = m.p
    idx, low, st, on, out = {}, {}, [], set(), []
    ctr = 0
    for r in roots:
        if r.i in idx:
            continue
        work = [(r.i, iter(sorted(m.callees(r))))]
        idx[r.i] = low[r.i] = ctr
        ctr += 1
        st.append(r.i)
        on.add(r.i)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = ctr
                    ctr += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(m.callees(p.fns[w])))))
                    adv = True
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = st.pop()
                    on.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                if (len(comp) > 1 or v in m.callees(p.fns[v])) and any(p.fns[i].crate in ("ssbh_lib", "ssbh_data", "ssbh_write") for i in comp):
                    out.append(comp)
    return out
