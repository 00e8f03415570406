"""C23: write_to_file only touches the output once the complete contents exist in memory."""
from props.fileapis import *


def run(ctx, rep):
    R = Runs(ctx, rep)
    p = ctx.prog
    rep.explanation = ("Every write_to_file function is analysed with its callees. Serialising and converting are events with an unknown outcome; creating, "
                       "truncating or writing a file are events under the condition that reaches them. The file may be touched only where every fallible step "
                       "has succeeded, with the bytes all of them produced, at the path given; the function succeeds only if the file was written.")
    rep.rules = ["a file is created or truncated only under conditions in which serialising (and converting) succeeded, and nothing fallible runs after it",
                 "the contents handed to the file are the complete buffer the serialiser wrote",
                 "the file touched is the one at the given path, and success is reported only if writing it succeeded"]
    n = nf = 0
    for k in sorted(R.roots):
        if k[2] != "write_to_file":
            continue
        r = R.get(k)
        if r is None:
            continue
        it, st, okc, val = r
        n += 1
        nm = name(k)
        evs = flat_ev(it.ev)
        files = [(i, e) for i, e in enumerate(evs) if e.kind in ("file", "fwrite")]
        sers = [(i, e) for i, e in enumerate(evs) if e.kind in ("ser", "conv")]
        if not sers or not any(e.kind == "ser" for _, e in sers):
            if it.opaque:
                rep.unknown(f"{nm}: serialising was not recognised: {sorted(it.opaque)[:3]}")
            else:
                rep.violation(nm + ": nothing is serialised", k[1], "no value is serialised")
            continue
        if not files:
            if it.opaque:
                rep.unknown(f"{nm}: no file operation recognised: {sorted(it.opaque)[:3]}")
            else:
                rep.violation(nm + ": no file is written", k[1], "no file operation is reached")
            continue
        nf += len(files)
        wrote = FALSE
        for i, e in files:
            what = e.d[0]
            for j, s in sers:
                atom = s.d[-1]
                rep.count("obligations", 1)
                if j > i and AND(s.pc, e.pc) is not FALSE:
                    rep.violation(f"{nm}: {s.kind} after {what}", str(e.site), f"{what} is called before {s.d[0]} is {'serialised' if s.kind == 'ser' else 'converted'}: a failure leaves a truncated file")
                elif atom is not None and AND(AND(e.pc, s.pc), NOT(boolnode(atom))) is not FALSE:
                    rep.violation(f"{nm}: {what} although {s.kind} failed", str(e.site), f"{what} is reached when {s.d[0]} could not be {'serialised' if s.kind == 'ser' else 'converted'}")
            if e.kind == "file":
                path = e.d[1]
                if path is not sym("PATH") and not occurs_path(path):
                    rep.violation(f"{nm}: {what} at another path", str(e.site), f"the file at {show(path)[:200]} is written, not the one given")
            else:
                if e.d[1].a[0] is not sym("PATH") and not occurs_path(e.d[1]):
                    rep.violation(f"{nm}: {what} at another path", str(e.site), "the file written is not the one given")
            content = e.d[2]
            if content is not None:
                wrote = OR(wrote, AND(e.pc, boolnode(e.d[3])))
                for pre, leaf in cases(content):
                    c = e.pc
                    for at, v in pre:
                        c = AND(c, is_val(at, v) if not isinstance(v, tuple) else not_vals(at, v[1:]))
                    if c is FALSE:
                        continue
                    want = [x for x in evs if x.kind in ("ser", "write") and AND(x.pc, c) is not FALSE]
                    chain = []
                    t = leaf
                    while t.op == "wrote":
                        chain.append(t)
                        t = t.a[0]
                    rep.count("obligations", 1)
                    if len(chain) != len(want) or not (t.op == "arr" and not t.a):
                        if not chain and leaf.op in ("call", "mut", "opq"):
                            rep.unknown(f"{nm}: contents not tracked: {show(leaf)[:120]}")
                        else:
                            rep.violation(f"{nm}: {what} with other contents", str(e.site), f"the bytes given to the file come from {len(chain)} of the {len(want)} writes: {show(leaf)[:300]}")
        rep.count("obligations", 1)
        if AND(okc, NOT(wrote)) is not FALSE:
            rep.violation(f"{nm}: success without a written file", k[1], f"the function can return Ok without the file having been written: when {show(AND(okc, NOT(wrote)))[:300]}")
        if okc is FALSE:
            rep.violation(f"{nm}: never succeeds", k[1], "no path returns Ok")
    rep.floor("functions", n, 20, "write_to_file functions")
    rep.floor("file_operations", nf, 20, "file operations")
    rep.assume |= {"writing the finished buffer to the file is one operation; a failure of the disk itself is reported, not prevented"}


def occurs_path(t):
    return occurs(sym("PATH"), t)
