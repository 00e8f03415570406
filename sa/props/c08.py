"""C08: what a file is read as is decided by its magic, and a typed reader accepts its own format only."""
import re
from props.fileapis import *
from props.layouts import short
import fmt
from terms import *

MAGIC = {b"BPLH": "Hlpb", b"LTAM": "Matl", b"LDOM": "Modl", b"HSEM": "Mesh", b"LEKS": "Skel", b"MINA": "Anim",
         b"TSLN": "Nlst", b"DPRN": "Nrpd", b"XFUN": "Nufx", b"RDHS": "Shdr"}


def byte_at(t):
    """(offset) if t is the byte read at a constant offset from the start, else None"""
    if t.op == "rdT" and t.a[0] == "u8":
        o = sub(t.a[2], sym("P0"))
        if o.op == "int":
            return o.a[0]
        if t.a[2].op == "int":
            return t.a[2].a[0]
    if t.op == "elem" and t.a[0].op == "rdb":
        o = sub(add(t.a[0].a[1], t.a[1]), sym("P0"))
        if o.op == "int":
            return o.a[0]
    return None


def paths(c, limit=2000):
    out = []

    def go(t, bs, rest):
        if t is FALSE or t is BOT or len(out) > limit:
            return
        if t is TRUE or t.op != "g":
            out.append((bs, rest + ([t] if t is not TRUE else [])))
            return
        at, kids, d = t.a
        o = byte_at(at)
        for v, x in kids:
            go(x, {**bs, o: v} if o is not None else bs, rest if o is not None else rest + [is_val(at, v)])
        go(d, bs, rest if o is not None else rest + [not_vals(at, [v for v, _ in kids])])
    go(c, {}, [])
    return out if len(out) <= limit else None


def run(ctx, rep):
    p = ctx.prog
    c = fmt.Codec(p)
    rep.explanation = ("The reader of the file header, the reader of the format union and the typed readers are summarised; the condition under which each succeeds is a "
                       "decision diagram over the bytes read. Its accepting paths are enumerated symbolically and compared with the documented magics.")
    rep.rules = ["only files starting with HBSS are accepted", "each documented magic selects its format, nothing else is accepted",
                 "a typed reader succeeds exactly when the file is of its format and returns that payload"]
    n = 0
    for ti in c.readers:
        tn = p.tname(ti)
        if tn == "ssbh_lib::SsbhFile":
            s = c.read_fn(c.readers[ti], tn, p0=I(0))
            n += 1
            ps = paths(s.ok)
            if ps is None:
                rep.unknown("file header: too many cases")
                continue
            if not ps:
                rep.violation("file header: nothing is accepted", tn, "no input is accepted")
            for bs, rest in ps:
                rep.count("obligations", 1)
                b = [bs.get(i) for i in range(4)]
                if None in b:
                    if s.it.opaque or any(unread(x) for x in rest):
                        rep.unknown(f"file header: {[show(x)[:80] for x in rest]}")
                    else:
                        rep.violation("file header: HBSS not required", tn, f"a file is accepted whatever its bytes {[i for i in range(4) if b[i] is None]} are")
                elif bytes(b) != b"HBSS":
                    rep.violation(f"file header: {bytes(b)!r} accepted", tn, f"a file starting with {bytes(b)!r} is accepted")
                at = [t for x in rest for t in atoms_of(x) if t.op == "rok"]
                pos = [t.a[0].a[2] for t in at if t.a[0].op == "rdT"]
                if pos and pos != [I(16)]:
                    rep.violation("file header: data elsewhere", tn, f"the format is read at {pos}, not at byte 16")
        if tn == "ssbh_lib::Ssbh":
            s = c.read_summary(ti)
            n += 1
            d = p.types[ti]
            ps = paths(s.ok)
            if ps is None:
                rep.unknown("formats: too many cases")
                continue
            seen = {}
            for bs, rest in ps:
                rep.count("obligations", 1)
                b = [bs.get(i) for i in range(4)]
                if None in b:
                    if s.it.opaque or any(unread(x) for x in rest):
                        rep.unknown(f"formats: {[show(x)[:80] for x in rest]}")
                    else:
                        rep.violation("formats: partial magic", tn, f"a format is selected by the bytes {b} only")
                    continue
                m = bytes(b)
                v = s.value
                while v.op == "g" and byte_at(v.a[0]) in bs:
                    v = dict(v.a[1]).get(bs[byte_at(v.a[0])], v.a[2])
                vn = None
                if v.op == "adt":
                    vn = d["variants"][v.a[1]]["n"]
                if m not in MAGIC:
                    rep.violation(f"formats: {m!r} accepted", tn, f"the magic {m!r} is accepted as {vn}")
                elif vn is None:
                    rep.unknown(f"formats: value for {m!r}: {show(v)[:100]}")
                elif vn != MAGIC[m]:
                    rep.violation(f"formats: {m!r} read as {vn}", tn, f"the magic {m!r} is read as {vn}, documented as {MAGIC[m]}")
                else:
                    seen[m] = vn
                    pay = v.a[2]
                    if not (pay.op == "rdT" and re.search(rf"::{vn}>$", pay.a[0]) and pay.a[2] is add(sym("P0"), I(4))):
                        rep.violation(f"formats: payload of {vn}", tn, f"the payload of {vn} is {show(pay)[:200]}")
            for m, vn in MAGIC.items():
                if m not in seen and not rep.undecided and not any(k.startswith(f"formats: {m!r}") for k in rep.viol):
                    rep.violation(f"formats: {m!r} not read", tn, f"files with the magic {m!r} ({vn}) are not accepted")
    R = Runs(ctx, rep)
    nt = 0
    for k in sorted(R.roots):
        m, fm, op = k
        if m != "lib" or op not in ("read", "from_file") or fm == "ssbhfile":
            continue
        r = R.get(k)
        if r is None:
            continue
        it, st, okc, val = r
        nt += 1
        nm = name(k)
        rep.count("obligations", 2)
        fileok = None
        reads = [e for e in flat_ev(it.ev) if e.kind == "read"]
        rt = p.types[p.types[R.roots[k].locals[0]]["args"][0]]
        own = rt["path"].split("::")[-1]
        if len(reads) != 1:
            (rep.unknown if it.opaque or len(reads) != 1 else rep.violation)(f"{nm}: {len(reads)} reads recognised")
            continue
        e = reads[0]
        whole = mk("rdT", e.d[0], sym("BYTES"), e.d[2], *readargs(e.d[3]))
        c1 = okc
        for x in flat_ev(it.ev):
            if x.kind == "open":
                c1 = subst(c1, {x.d[2]: I(1)})
        if e.d[0] != "ssbh_lib::SsbhFile":
            # formats without the common header are read directly
            want, pay = e.d[3], whole
        else:
            fti = [t for t in c.readers if p.tname(t) == "ssbh_lib::SsbhFile"][0]
            eti = p.types[fti]["variants"][0]["f"][0][1]
            data = it.proj_f(whole, None, 0, fti, eti)
            vi = [i for i, v in enumerate(p.types[eti]["variants"]) if v["n"] == own]
            if not vi:
                rep.violation(nm + ": format unknown", fm, f"the format union has no variant {own}")
                continue
            vi = vi[0]
            vf = p.types[eti]["variants"][vi]["f"][0]
            want = AND(e.d[3], test(it.discr(data, eti), int(p.types[eti]["variants"][vi]["d"])))
            pay = it.proj_f(data, vi, 0, eti, vf[1])
            pay = it.proj_f(pay, None, 0, vf[1], p.types[vf[1]]["variants"][0]["f"][0][1])
        if it.opaque:
            rep.unknown(f"{nm}: unmodelled {sorted(it.opaque)[:2]}")
            continue
        if AND(c1, NOT(want)) is not FALSE:
            rep.violation(nm + ": accepts another format", fm, f"{nm} succeeds when {show(AND(c1, NOT(want)))[:300]}")
        if AND(want, NOT(c1)) is not FALSE:
            rep.violation(nm + ": rejects its own format", fm, f"{nm} fails when {show(AND(want, NOT(c1)))[:300]}")
        if val is not pay:
            rep.violation(nm + ": returns something else", fm, f"{nm} returns {show(val)[:300]}")
    rep.floor("dispatchers", n, 2, "format dispatchers")
    rep.floor("typed_readers", nt, 23, "typed readers")


def atoms_of(t):
    return list(atoms(t)) if t.op == "g" else []


def unread(t):
    return any(a.op not in ("rok",) for a in atoms_of(t))


def readargs(cond):
    """the reading itself, from its success condition"""
    at = cond.a[0]
    return at.a[0].a[3:]
