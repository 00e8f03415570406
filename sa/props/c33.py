"""C33: reading or writing through a path is the same as through a stream, and data types add exactly their conversion."""
from props.fileapis import *

LOG = ("write", "ser", "seek", "conv")


def log(it):
    out = []
    for e in flat_ev(it.ev):
        if e.kind == "write":
            out.append(("write", e.d[1], e.d[3], e.pc))
        elif e.kind == "ser":
            out.append(("ser", e.d[0], e.d[1], e.d[2], e.d[3], e.pc))
        elif e.kind == "seek":
            out.append(("seek", e.d[1], e.pc))
    return out


def same_log(a, b):
    return len(a) == len(b) and all(len(x) == len(y) and all((u is v or u == v) if i < len(x) - 1 else same_cond(u, v) for i, (u, v) in enumerate(zip(x, y))) for x, y in zip(a, b))


def given(c, evs, kinds, given_ok=True):
    for e in evs:
        if e.kind in kinds and e.d[-1] is not None:
            c = assume(c, e.d[-1], 1)
            # the atom is a truth value: 0 is failure
            c = constrain(c, boolnode(e.d[-1])) if c.op == "g" else c
    return c


def run(ctx, rep):
    R = Runs(ctx, rep)
    rep.explanation = ("The four entry points of every format (read, from_file, write, write_to_file), of the file types and of the data types, are analysed with "
                       "their callees. The sequence of writes and serialised values, the value read and the conditions of success are compared between siblings.")
    rep.rules = ["write_to_file serialises the same values at the same positions as write",
                 "from_file returns the value read returns for the bytes of the file, and accepts the same bytes",
                 "a data type reads and writes what its file type does, through the conversion of that type"]
    n = 0
    for k in sorted(R.roots):
        m, fm, op = k
        r = R.get(k)
        if r is None:
            continue
        it, st, okc, val = r
        nm = name(k)
        evs = flat_ev(it.ev)
        if op in ("from_file", "write_to_file"):
            sib = (m, fm, "read" if op == "from_file" else "write")
            q = R.get(sib)
            if q is None:
                if sib not in R.roots:
                    rep.violation(nm + ": no sibling", fm, f"{name(sib)} is missing")
                continue
            n += 1
            it2, st2, okc2, val2 = q
            # the stream of a file starts at its first byte
            okc2, val2 = at0(okc2), at0(val2)
            rep.count("obligations", 2)
            c1 = given(okc, evs, ("open", "file", "fwrite"))
            bad = None
            if not same_cond(c1, okc2):
                bad = f"succeeds under other conditions than {name(sib)}: {show(c1)[:200]} / {show(okc2)[:200]}"
            elif op == "from_file" and not same_val(val, val2):
                bad = f"returns {show(val)[:200]} where {name(sib)} returns {show(val2)[:200]}"
            elif op == "write_to_file" and not same_log(log(it), log0(it2)):
                bad = f"does not serialise what {name(sib)} does: {first_diff(log(it), log0(it2))}"
            if op == "from_file" and not any(e.kind == "open" and e.d[1] is sym("PATH") for e in evs) and not it.opaque:
                bad = "does not open the path given"
            report(rep, nm, bad, fm, it, it2)
        if m == "data":
            sib = ("lib", fm, op)
            q = R.get(sib)
            if q is None:
                continue
            n += 1
            it2, st2, okc2, val2 = q
            convs = [e for e in evs if e.kind == "conv"]
            rep.count("obligations", 2)
            if len(convs) != 1:
                if it.opaque or not convs:
                    rep.unknown(f"{nm}: {len(convs)} conversions recognised")
                else:
                    report(rep, nm, f"performs {len(convs)} conversions", fm, it, it2)
                continue
            e = convs[0]
            v = mk("conv", e.d[0], e.d[1])
            cok = boolnode(e.d[2]) if e.d[2] is not None else TRUE
            bad = None
            if op in ("read", "from_file"):
                if e.d[1] is not val2 and not same_val(e.d[1], val2):
                    bad = f"converts {show(e.d[1])[:150]}, {name(sib)} yields {show(val2)[:150]}"
                elif val is not v:
                    bad = f"returns {show(val)[:150]}, not the converted value"
                elif not same_cond(okc, AND(okc2, cok)):
                    bad = f"accepts other input than {name(sib)} and the conversion: {show(okc)[:200]}"
            else:
                mp = {sym("self"): v}
                l2 = [tuple(subst(x, mp) if hasattr(x, "op") else x for x in row) for row in log(it2)]
                l1 = log(it)
                c1, c2 = given(okc, evs, ("file", "fwrite")), given(okc2, flat_ev(it2.ev), ("file", "fwrite"))
                # with an infallible conversion both run from the start; otherwise given that it succeeded
                l1 = [tuple(holds(x, e.d[2]) if hasattr(x, "op") else x for x in row) for row in l1]
                if e.d[1] is not sym("self"):
                    bad = f"converts {show(e.d[1])[:150]}"
                elif not same_log(l1, l2):
                    bad = f"does not write what {name(sib)} writes: {first_diff(l1, l2)}"
                elif not same_cond(holds(c1, e.d[2]), holds(subst(c2, mp), e.d[2])) or e.d[2] is not None and AND(okc, NOT(cok)) is not FALSE:
                    bad = f"succeeds under other conditions: {show(c1)[:200]}"
            report(rep, nm + " and its file type", bad, fm, it, it2)
    rep.floor("pairs", n, 50, "sibling pairs")


def at0(t):
    return None if t is None else subst(t, {sym("P0"): I(0)})


def log0(it):
    return [tuple(at0(x) if hasattr(x, "op") else x for x in row) for row in log(it)]


def holds(c, atom):
    return c if atom is None else subst(c, {atom: I(1)})


def same_val(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    m = {sym("FILE"): sym("BYTES")}
    return subst(a, m) is subst(b, m)


def first_diff(a, b):
    for x, y in zip(a, b):
        if not same_log([x], [y]):
            return str(tuple(map(str, x)))[:200] + " / " + str(tuple(map(str, y)))[:200]
    return f"{len(a)} / {len(b)} steps"


def report(rep, nm, bad, fm, it, it2):
    if bad is None:
        return
    if it.opaque or it2.opaque:
        rep.unknown(f"{nm}: {bad[:200]} (unmodelled: {sorted(it.opaque)[:2]})")
        return
    rep.violation(nm, fm, nm + " " + bad)
