"""C02: the declared size of every record equals the bytes it occupies in place."""
from props.layouts import *
import terms as TM

# whole-file types: never embedded in another record; what follows their fields is placed at the end of the file.
# For these the declared size must cover exactly the fields written in place (all but the end-of-file padding).
TOP = ("Mesh", "Anim", "MeshEx", "Adj")


def direct_end(L, w, r):
    """end of the in-place writes of a regime (constant extents), following the sequential position"""
    cur = P0
    for e in L.mem(w, r):
        if e.kind in ("w", "s") and not e.loop and e.pos is cur:
            cur = add(cur, e.size)
    return cur


from layout import P0, D0


def run(ctx, rep):
    L = layout(ctx)
    p, c = ctx.prog, L.c
    rep.explanation = ("For every type with a writer, the stream position after the writer (abstract interpretation of its MIR, all branches merged) minus "
                       "the position before it is compared, as a normal form over the value, with the declared size of the same value. "
                       "Types that are a whole file and pad the end of the stream are compared on the run of in-place writes instead.")
    rep.rules = ["end position - start position == declared size, for every value", "whole-file types: in-place run of writes == declared size"]
    n = 0
    for ti in sorted(c.writers):
        tn = p.tname(ti)
        try:
            s = L.W(ti)
        except Exception as e:
            rep.unknown(f"{tn}: {e!r}")
            continue
        if s is None:
            continue
        n += 1
        sz = c.size(ti, s.self)
        s0 = short(tn)
        if s0 in TOP and c.ws_type(ti):
            if s0 == "Adj":
                rep.count("whole_file_types_without_pointers", 1)
                continue
            for r in L.wregimes(ti):
                e = sub(direct_end(L, s, r), P0)
                want = r(sz)
                rep.count("whole_file_cases", 1)
                if s0 == "MeshEx":
                    # declared size includes the padding of the last 16 byte block of the header
                    lo, hi = TM.rng(sub(want, e))
                    if lo is None or lo < 0:
                        rep.violation(s0 + ": header extends past its declared size", tn, f"fields end at {e}, declared size {want}")
                    continue
                if e is not want:
                    rep.violation(s0 + ": declared size differs from the fields written in place", tn, f"fields end at {e}, declared {want}")
            continue
        d = sub(s.pos, P0) if s.pos is not None else None
        d = constrain(d, s.ok) if d is not None else None
        if d is sz or (d is not None and constrain(sz, s.ok) is d):
            rep.count("equal", 1)
            continue
        if d is None or is_opaque(d, sz):
            rep.unknown(f"{tn}: {d} / {sz}")
            continue
        rep.violation(s0 + ": declared size differs from bytes written", tn, f"writer advances by {show(d)[:300]}, declared size is {show(sz)[:300]}")
    rep.floor("types", n, 320, "types with writers")
    rep.samples = [p.tname(t) for t in sorted(c.writers)[:12]]
    rep.assume.add("elements of an array have equal sizes, which holds as element types have constant sizes (each decided here)")
