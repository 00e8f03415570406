"""C04: the on-disk layout of the supported versions is the documented one (reference table sa/ref/layout.json)."""
import json
import os
from props.layouts import *
from props.c03 import aligner
from image import Images, short as sh
from terms import *

REF = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ref", "layout.json")


def current(ctx, rep=None):
    L = layout(ctx)
    im = Images(L)
    types = {}
    for ti in sorted(L.c.writers):
        if not L.c.ws_type(ti):
            continue
        x = im.image(ti)
        if x is None:
            if rep is not None:
                rep.unknown("layout of " + ctx.prog.tname(ti))
            continue
        n = sh(ctx.prog.tname(ti))
        d = {"align": aligner(L, ti), "cases": {k: [list(r) for r in rs] for k, rs in x["cases"].items()}}
        if by_remainder(at for r in L.wregimes(ti) for at, _, _ in r.desc):
            d["rounded"] = True
        if "values" in x:
            d["values"] = x["values"]
        types[n] = d
    files = {}
    pairs = file_pairs(ctx)
    L.files(pairs)
    for tn, wf, rf in pairs:
        w, _ = L.filesum[tn]
        ti = next(i for i, t in enumerate(ctx.prog.types) if t["k"] in ("struct", "enum") and ctx.prog.tname(i) == tn)
        rs = im.rows(ti, w, L.regs(w), I(0))
        files[sh(tn)] = {k: [list(r) for r in v] for k, v in (rs["cases"] if "cases" in rs else rs).items()}
    return {"types": types, "files": files}


def norm_kind(k, known):
    return k


class Cmp:
    def __init__(self, ref, cur):
        self.ref, self.cur = ref, cur
        self.n = 0

    def same_kind(self, a, b):
        if a == b:
            return True
        if a.startswith("record ") and b.startswith("record "):
            return self.same_name(a[7:], b[7:])
        return False

    def same_name(self, x, y):
        """equal up to a renaming of types that no longer exist"""
        if x == y:
            return True
        hx, _, rx = x.partition("<")
        hy, _, ry = y.partition("<")
        if hx == hy and rx and ry:
            return self.same_name(rx[:-1], ry[:-1])
        return x not in self.cur["types"] and y not in self.ref["types"]

    def rows(self, a, b):
        """differences between two lists of rows"""
        out = []
        ka = {}
        for o, s, k, q in a:
            ka.setdefault((o, s), []).append((k, q))
        kb = {}
        for o, s, k, q in b:
            kb.setdefault((o, s), []).append((k, q))
        pa, pb = {q for _, _, _, q in a}, {q for _, _, _, q in b}
        for key in sorted(set(ka) | set(kb)):
            xa, xb = sorted(ka.get(key, [])), sorted(kb.get(key, []))
            self.n += 1
            if not xa or not xb:
                out.append(f"bytes {key[0]}..{key[0] + key[1]}: {'not written as a unit any more' if not xb else 'new'}: {xa or xb}")
                continue
            if xa == xb:
                continue
            ok = len(xa) == len(xb)
            if ok:
                for (k1, q1), (k2, q2) in zip(xa, xb):
                    if not self.same_kind(k1, k2):
                        ok = False
                    elif q1 != q2 and (q1 in pb or q2 in pa) and not k1.startswith("tag"):
                        ok = False
                    elif q1 != q2 and k1.startswith("tag") and k1 != k2:
                        ok = False
            if not ok:
                out.append(f"bytes {key[0]}..{key[0] + key[1]}: documented {xa}, now {xb}")
        return out

    def cases(self, a, b):
        out = []
        extra = [k for k in b if k not in a]
        for n in a:
            if n in b:
                out += [(f" ({n})" if n else "", d) for d in self.rows(a[n], b[n])]
            else:
                m = [k for k in extra if not self.rows(strip(a[n], n), strip(b[k], k))]
                if not m:
                    out.append((f" ({n})", "the variant is no longer written"))
        return out


def strip(rows, n):
    return [(o, s, k, q[len(n) + 1:] if q.startswith(n + ".") else q) for o, s, k, q in rows]


def run(ctx, rep):
    ref = json.load(open(REF))
    cur = current(ctx, rep)
    c = Cmp(ref, cur)
    rep.explanation = ("The bytes every writer places in a record are extracted from its summary: offset, width, primitive kind and source field of every "
                       "primitive, nested records opened up, tags and discriminants as tables, alignment, and header and version of whole files. The result is "
                       "compared with the reference table of the supported versions, confirmed on the original tree; renamings are allowed.")
    rep.rules = ["each primitive of each record is at its documented offset with its documented width, kind and field",
                 "tags, discriminants, magics, version numbers and alignments have their documented values"]
    n = 0
    for t, a in sorted(ref["types"].items()):
        b = cur["types"].get(t)
        if b is None:
            # a renamed type has the same image under a new name
            m = [k for k, v in cur["types"].items() if k not in ref["types"] and not c.cases(a["cases"], v["cases"]) and a.get("align") == v.get("align")]
            if m:
                rep.count("renamed_types", 1)
            else:
                rep.unknown(f"{t} is no longer written on its own")
            continue
        n += 1
        for w, d in c.cases(a["cases"], b["cases"]):
            if b.get("rounded"):
                rep.unknown(f"{t}{w}: {d}: placed by remainders of positions")
            else:
                rep.violation(f"{t}{w}: layout differs: {d.split(':')[0]}", t, d)
        if a.get("align") is not None and b.get("align") != a["align"]:
            rep.violation(f"{t}: alignment differs", t, f"documented alignment {a['align']}, now {b.get('align')}")
        va, vb = a.get("values"), b.get("values")
        if va and vb:
            for k, v in va.items():
                c.n += 1
                if k in vb and vb[k] != v:
                    rep.violation(f"{t}: value of {k} differs", t, f"{k} is documented as {v}, now written as {vb[k]}")
                if k not in vb and v not in vb.values():
                    rep.violation(f"{t}: value {v} is gone", t, f"{k} = {v} can no longer be written")
    for t, a in sorted(ref["files"].items()):
        b = cur["files"].get(t)
        if b is None:
            rep.violation(f"{t}: file layout is gone", t, "the file is no longer written")
            continue
        for w, d in c.cases(a, b):
            rep.violation(f"{t} file{w}: layout differs: {d.split(':')[0]}", t, d)
    rep.counts["places_compared"] = c.n
    rep.floor("types", n, 200, "record types")
    rep.samples = sorted(ref["types"])[:12]


if __name__ == "__main__":
    pass
