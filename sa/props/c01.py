"""C01: for every on-disk type, reading back what the writer put there gives the value written."""
import re
from terms import *
from props.layouts import *

# readers that refuse a value the type can hold: validity conditions of the value itself, confirmed by hand
PRECOND = {
    "F32Compression": "bit_count + -32)≤0",
    "U32Compression": "bit_count + -32)≤0",
}


def run(ctx, rep):
    L = layout(ctx)
    p = ctx.prog
    rep.explanation = ("Every writer and reader of an on-disk type is summarised by abstract interpretation of its monomorphised MIR "
                       "(merged states, values in a normal form, stream positions as terms). The writer summary gives a map position -> value; "
                       "the reader summary is evaluated on that map; accepted value must be the value written, per combination of the decisions "
                       "that positions depend on. Nested types are decided by induction on their own obligation. Whole files: the public write "
                       "function against the public read function of each format, from stream position 0.")
    rep.rules = ["read(write(v)) accepts and equals v, field by field, for every on-disk type",
                 "the file header, magic and version written are those the public reader dispatches on"]
    L.files(file_pairs(ctx))
    todo, done, exc = [], set(), 0
    for ti in sorted(set(L.c.readers) & set(L.c.writers)):
        if not L.c.ws_type(ti) or not L.c.readers[ti].blocks:
            continue
        if L.takes_args(ti):
            todo.append(ti)
            continue
        try:
            L.roundtrip(ti)
        except Exception as e:
            rep.unknown(f"{p.tname(ti)}: {e!r}")
    seen = set()
    while L.pending:
        ti, a, fa = L.pending.pop()
        if (ti, a, fa) in L.rt:
            continue
        seen.add(ti)
        try:
            L.roundtrip(ti, a, fa)
        except Exception as e:
            rep.unknown(f"{p.tname(ti)} with arguments: {e!r}")
    rep.count("types_decided_inside_their_container", len([t for t in todo if t not in seen and t in L.inlined]))
    for t in todo:
        if t not in seen and t not in L.inlined:
            rep.violation(short(p.tname(t)) + ": never read", p.tname(t), "nothing that is written is read back as this type")
    for tn, reg, what, detail, terms in L.fail:
        s = short(tn)
        if s in PRECOND and what.startswith("the reader does not accept") and PRECOND[s] in detail and detail.count("≤") == 1 and "no such write" not in detail:
            rep.count("value_validity_conditions", 1)
            continue
        if is_opaque(*terms) or reg and "rem(" in reg:
            rep.unknown(f"{tn}: {what}: {detail}")
            continue
        key = f"{s}: {what}"
        rep.violation(key, tn, f"{what}; case {reg or 'any'}; {detail}")
    rep.assume |= L.assume
    rep.assume |= {"I/O calls on the stream succeed (their failure is propagated, see C07)"}
    for k, v in L.stats.items():
        rep.counts[k] = v
    rep.floor("types", L.stats["types"], 215, "type obligations")
    rep.floor("files", L.stats["files"], 12, "file formats")
    rep.floor("lookups", L.stats["lookups"], 1500, "reader lookups resolved to writes")
    rep.samples = [p.tname(k[0]) if isinstance(k[0], int) else str(k[1]) + " file" for k in list(L.rt)[:12]]
