"""Summaries of the conversions of animations.

A track's frame values are packed by its type and its way of compression. With both fixed, the values of a track read from a file
are expressions of the bytes of the file's buffer, and the bytes of a written buffer are expressions of the frame values.
"""
import json
import os
import struct
import sys

import conv
import convref
import interp as IN
import models as M
import refute
import seqs
import terms as TM
from terms import *

PATH = os.path.join(os.path.dirname(os.path.abspath(__file__)), "ref", "anim.json")
TYPES = ("Transform", "UvTransform", "Float", "PatternIndex", "Boolean", "Vector4")
BITS = "bitvec::"


def hook(it, f, d, args, st, pc, ck, dty):
    """bit vectors as sequences of bits"""
    r = conv.str_hook(it, f, d, args, st, pc, ck, dty)
    if r is not None or f is None or not f.path.startswith((BITS, "std::ops::", "<bitvec")):
        return r
    n = f.name
    if f.path.startswith("std::ops::") and (f.self_ty is None or "bitvec" not in it.tname(f.self_ty)):
        return None
    if n == "new" and "BitVec" in f.path:
        return ARR0, pc
    if n == "resize" and "BitVec" in f.path:
        s = it.load(st, args[0])
        if s is ARR0:
            it.store(st, args[0], mk("rep", args[2], args[1]))
            return UNIT, pc
        return None
    if n == "index_mut":
        s = M.val(it, st, args[0])
        if args[0].op != "ptr" or s.op in ("call", "mut"):
            return None
        r = M.range_of(it, f, args[1], IN.seq_len(s))
        if r is None:
            return None
        return it.ptr_step(M.obj(it, st, args[0]), ("sl",) + r), pc
    if n == "store_le":
        if args[0].op != "ptr":
            return None
        s = M.val(it, st, args[0])
        it.store(st, args[0], mk("lebits", args[1], IN.seq_len(s)))
        return UNIT, pc
    if n == "get_mut" and "BitSlice" in f.path:
        if args[0].op != "ptr" or it.load(st, args[0]).op in ("call", "mut") or args[1].op == "adt":
            return None
        return M.some(M.rty(it, f, dty), it.ptr_step(M.obj(it, st, args[0]), ("e", args[1]))), pc
    if n in ("deref_mut", "deref") and f.self_ty is not None and "BitRef" in it.tname(f.self_ty):
        q = it.load(st, args[0]) if args[0].op == "ptr" else args[0]
        return (q, pc) if q.op == "ptr" else None
    if n in ("deref_mut", "deref", "as_bitslice", "as_mut_bitslice") and f.self_ty is not None and "BitVec" in it.tname(f.self_ty):
        return (args[0], pc) if args[0].op == "ptr" and it.load(st, args[0]).op != "call" else None
    if n == "into_vec":
        return mk("packed", args[0]), pc
    return None


ARR0 = mk("arr")


def pins(p, **kw):
    IN.PINS.clear()
    for k, v in kw.items():
        if k == "feq":
            IN.PINS["feq"] = v
            continue
        if k == "bits":
            IN.PINS["rdT", "u64"] = v
            continue
        for i, t in enumerate(p.types):
            if t["k"] == "enum" and t["path"].endswith("::" + k):
                vs = [w["d"] for w in t["variants"] if w["n"] == v]
                if vs:
                    IN.PINS[i] = int(vs[0])


def summary(p, way, ver, **kw):
    pins(p, **kw)
    IN.ONE_LENGTH = True
    try:
        c = conv.Conv(p)
        f = dict(convref.fns(c, "anim"))[way]
        x = sym("x")
        it = M.base_interp(p, hook)
        ti = it.peel(f.locals[1])
        d = p.types[ti]
        if way == "file to data":
            vi = [v["n"] for v in d["variants"]].index(ver)
            arg = mk("adt", ti, vi, *[IN.fld(x, f"{ver}.{q[0]}") for q in d["variants"][vi]["f"]])
        else:
            pinned = {"major_version": I(2), "minor_version": I(int(ver[2]))}
            arg = mk("adt", ti, 0, *[pinned.get(q[0]) or IN.fld(x, q[0]) for q in d["variants"][0]["f"]])
        v, ok, it, er = c.run(f, [arg], relpc=True, hook=hook)
        if v is None:
            return None, f, ti, it
        v = IN.constrain_deep(subst(v, it.ivals), subst(ok, it.ivals))
        v = subst(v, {t: I(0) for t in subterms(v) if t.op == "lx"})
        v = seqs.Norm().norm(v)
        return v, f, ti, it
    finally:
        IN.ONE_LENGTH = False
        IN.PINS.clear()


# ------------------------------------------------------------------ what is compared
KINDS = ("Direct", "Constant", "ConstTransform", "Compressed")


def jobs():
    """{name: (way, version, what is fixed)}"""
    out = {}
    for ver in ("V20", "V21"):
        for t in TYPES:
            if t != "Transform" or ver == "V20":
                out[f"{ver}: data to file, {t}"] = ("data to file", ver, {"TrackValues": t})
            if t == "Transform":
                for q in (0, 1):
                    out[f"{ver}: data to file, {t}, {'constant' if q else 'varying'}"] = ("data to file", ver, {"TrackValues": t, "feq": q})
            for k in KINDS:
                fixed = {"CompressionType": k, "TrackTypeV2": t}
                if (k, t) == ("Compressed", "Transform"):
                    if ver == "V20":
                        out[f"{ver}: file to data, {k} {t}, 24 bits"] = ("file to data", ver, {**fixed, "bits": 24})
                    out[f"{ver}: file to data, {k} {t}, constant"] = ("file to data", ver, {**fixed, "feq": 1})
                    out[f"{ver}: file to data, {k} {t}, varying"] = ("file to data", ver, {**fixed, "feq": 0, "bits": 24})
                else:
                    out[f"{ver}: file to data, {k} {t}"] = ("file to data", ver, fixed)
    return out


# ------------------------------------------------------------------ sample animations
FLOATS = {"Transform": 10, "UvTransform": 5, "Float": 1, "Vector4": 4}
DIRECT = {"Transform": 44, "UvTransform": 20, "Float": 4, "PatternIndex": 4, "Boolean": 1, "Vector4": 16}


def track_bytes(r, kind, ty, fixed):
    """(frames, bytes) of a track"""
    def f():
        return struct.pack("<f", r.choice((-0.5, -0.25, 0.125, 0.25, 0.375, 0.5, 1.0, 2.0)))
    n = r.choice((1, 1, 2, 3, 5))
    if kind != "Compressed":
        if ty == "PatternIndex":
            return n, b"".join(struct.pack("<I", r.randrange(1 << 20)) for _ in range(n))
        if ty == "Boolean":
            return n, bytes(r.choice((0, 1, 1, 2, 255)) for _ in range(n))
        one = lambda: b"".join(f() for _ in range(FLOATS[ty])) + (struct.pack("<I", r.randrange(2)) if ty == "Transform" else b"")
        return n, b"".join(one() for _ in range(n))

    def rng():
        lo = r.choice((-0.5, -0.25, 0.0, 0.125))
        same = fixed["feq"] if "feq" in fixed else r.random() < 0.2
        hi = lo if same else lo + r.choice((0.25, 0.5, 1.5))
        b = fixed.get("bits", r.choice((0, 1, 3, 5, 8, 16, 24)))
        return struct.pack("<ffQ", lo, hi, b), 0 if same else b
    flags = r.randrange(16)
    if ty == "PatternIndex":
        b = r.choice((0, 1, 3, 8, 16))
        comp, bits = struct.pack("<IIQ", r.randrange(5), r.randrange(5, 300), b), b
        default = struct.pack("<I", r.randrange(100))
    elif ty == "Boolean":
        comp, bits = bytes(16), 1
        default = bytes([r.choice((0, 1, 2))]) + bytes(r.choice((0, 1)))
    else:
        rs = [rng() for _ in range(9 if ty == "Transform" else FLOATS[ty])]
        comp = b"".join(c for c, _ in rs)
        bs = [b for _, b in rs]
        if ty == "Transform":
            s, u, ro, tr = flags & 1, flags >> 1 & 1, flags >> 2 & 1, flags >> 3 & 1
            bits = (sum(bs[6:9]) if tr else 0) + ((bs[0] if u else sum(bs[:3])) if s else 0) + (sum(bs[3:6]) + 1 if ro else 0)
        elif ty == "UvTransform":
            bits = sum(bs) - (bs[1] if flags >> 1 & 1 else 0)
        else:
            bits = sum(bs)
        default = b"".join(f() for _ in range(FLOATS[ty])) + (struct.pack("<I", r.randrange(3)) if ty == "Transform" else b"")
    gap = bytes(r.choice((0, 0, 2, 4)))
    data = bytes(r.randrange(256) for _ in range((n * bits + 7) // 8 + r.choice((0, 0, 1, 3))))
    start = 16 + len(comp)
    head = struct.pack("<HHHHII", 4, flags, start + len(gap), bits, start + len(gap) + len(default), n)
    return n, head + comp + gap + default + data


def shape(way, ver, fixed):
    """sample animations whose tracks are well formed"""
    ver_ = {"major_version": 2, "minor_version": int(ver[2])}

    def regions(inp):
        """[(start, size, frames)] and the bytes of the buffer"""
        if not hasattr(inp, "regions"):
            r = inp.rnd(("buffer",))
            out, buf = [], b""
            for _ in range(3):
                buf += bytes(r.choice((0, 0, 3, 8)))
                n, b = track_bytes(r, fixed["CompressionType"], fixed["TrackTypeV2"], fixed)
                out.append((len(buf), len(b), n))
                buf += b
            inp.regions = out, buf + bytes(r.choice((0, 5)))
        return inp.regions

    def file(inp, ti, path):
        p = inp.p
        last = path[-1]
        d = p.types[ti]
        if path == ("x",):
            for vi, v in enumerate(d["variants"]):
                if v["n"] == ver:
                    return refute.Rec(ti, vi, lambda i: inp.make(v["f"][i][1], path + (v["f"][i][0],)))
        if path[1:] == ("buffer", "elements"):
            b = regions(inp)[1]
            return refute.Seq(len(b), lambda i: b[i])
        if last in ("data_offset", "data_size", "frame_count") and "tracks" in path:
            q = regions(inp)[0][inp.rnd(path[:-1]).randrange(3)]
            return q[("data_offset", "data_size", "frame_count").index(last)]
        if d["k"] == "enum" and d["path"].split("::")[-1] in fixed:
            for vi, v in enumerate(d["variants"]):
                if v["n"] == fixed[d["path"].split("::")[-1]]:
                    return refute.Rec(ti, vi, lambda i: inp.make(v["f"][i][1], path + (v["f"][i][0],)))
        return None

    def data(inp, ti, path):
        d = inp.p.types[ti]
        last = path[-1]
        if len(path) == 2 and last in ver_:
            return ver_[last]
        if d["k"] == "enum" and d["path"].endswith("::TrackValues"):
            for vi, v in enumerate(d["variants"]):
                if v["n"] == fixed["TrackValues"]:
                    return refute.Rec(ti, vi, lambda i: inp.make(v["f"][i][1], path + (v["f"][i][0],)))
        if "values" in path:
            k = path.index("values")
            mode = fixed.get("feq")
            if len(path) == k + 2 and last in (0, "0"):
                n = inp.rnd(path).choice(FRAMES[fixed["TrackValues"]])
                n = max(FRAMES[fixed["TrackValues"]]) if mode is None and inp.rnd(("long",) + path).random() < 0.5 else n
                n = max(n, 2) if mode == 0 else n
                return refute.Seq(n, lambda i: inp.make(d["args"][0], path + (i,)))
            if d["k"] == "prim" and d["s"] in ("f32", "f64"):
                f = path[k + 2]
                where = path[:k + 2] + path[k + 3:]
                r = inp.rnd(path)
                if mode == 1:
                    return inp.rnd(path[:k + 2] + path[k + 3:k + 4] if "scale" in path else where).choice((-0.5, 0.25, 1.0, 2.0))
                if mode == 0:
                    # every component differs between frames, and from the others of its frame
                    j = sum(map(ord, "".join(str(x) for x in path[k + 3:]))) % 31
                    return r.choice((0.0, 0.5)) + (f % 3) * 0.25 + j * 2.0
                if "scale" in str(path[k + 3:k + 4]):
                    # which components of the scale are equal: in every frame, or in some
                    c = path[-1]
                    how = inp.rnd(("equal",) + path[:k]).choice(("", "xyzuv", "xyzuv", "xy", "yz", "xz", "some", "some"))
                    if how == "some":
                        how = "xyzuv" if inp.rnd(("which",) + path[:k + 3]).random() < 0.5 else ""
                    rank = 9 if str(c)[-1] in how else "xyzuv".find(str(c)[-1])
                    return (f * 0.25 + rank * 2.0) if inp.rnd(("still",) + path[:k]).random() < 0.7 else 0.25 + rank
                if inp.rnd(("same",) + where).random() < 0.3 or inp.rnd(("uniform",) + path[:k]).random() < 0.3 and "scale" in str(path[k + 3:k + 4]):
                    return inp.rnd(("value",) + path[:k]).choice((1.0, 0.5))
                return r.choice((-0.5, -0.25, 0.0, 0.25, 1.0, 1.5))
        return None
    return file if way == "file to data" else data


FRAMES = {"Transform": (0, 1, 2, 3, 4, 5, 6, 7), "UvTransform": (0, 1, 2, 4, 5, 6, 7, 8), "Float": (0, 1, 2, 8, 9, 10, 11, 12),
          "PatternIndex": (0, 1, 2, 8, 9, 10, 11, 12), "Boolean": (0, 1, 2, 31, 32, 33, 34, 35, 36), "Vector4": (0, 1, 2, 4, 5, 6, 7, 8)}


if __name__ == "__main__":
    import gc
    gc.disable()
    sys.setrecursionlimit(20000)
    import extract
    from load import Program
    from props.c06 import parallel
    TM.COUNT_MAX = (1 << 32) - 1
    IN.CLOSE_OTHERS = True
    p = Program(extract.extract()["mono"])
    J = jobs()

    def make(k):
        way, ver, fixed = J[k]
        v, f, ti, it = summary(p, way, ver, **fixed)
        (v,) = convref.loops_out([v])
        rt = convref.result_type(p, f)
        return {"n": len(subterms(v)), "dump": convref.dump(p, [v]), "loops": len([t for t in subterms(v) if t.op == "loop"]), "notes": len(it.notes)}
    only = sys.argv[1:]
    res = parallel([k for k in sorted(J) if not only or k in only], make, 700)
    if not only:
        with open(PATH, "w") as fh:
            json.dump({k: res[k]["dump"] for k in sorted(J)}, fh, separators=(",", ":"))
    for k in sorted(res):
        print(k, {a: b for a, b in res[k].items() if a != "dump"})
