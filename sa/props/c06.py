"""C06: converting between files and editable data never panics."""
import json
import os
import signal
import sys
import traceback
import conv
from panics import Panics, Modular, describe
from terms import *

KINDS = {"hlpb": "Hlpb", "modl": "Modl", "matl": "Matl", "skel": "Skel", "meshex": "MeshEx", "adj": "Adj", "mesh": "Mesh", "anim": "Anim"}


def targets(p):
    c = conv.Conv(p)
    out = []
    for k, T in KINDS.items():
        out.append((f"{k}: data to file", rf"From<&ssbh_data::{k}_data::{T}Data> for .*::{T}>::(try_)?from$"))
        out.append((f"{k}: file to data", rf"^<ssbh_data::{k}_data::{T}Data as std::convert::(Try)?From<ssbh_lib::prelude::{T}>>::(try_)?from$"))
    out.append(("shdr: file to data", r"^<ssbh_data::shdr_data::ShdrData as std::convert::(Try)?From<&ssbh_lib::prelude::Shdr>>::(try_)?from$"))
    out.append(("shdr: reflection data", r"roots_data::shdr_meta_read$"))
    return c, out


def job(p, c, what, rx):
    P = Panics(p)
    m = Modular(p, conv.str_hook, P)
    f = c.one(rx)
    it, v, pc = m.run(f, [sym("x%d" % i) for i in range(f.argc)])
    P.feed(it, what)
    return {"what": what, "fn": f.full, "n": P.n, "narrow": P.narrow, "sites": sorted(map(str, P.sites)), "cuts": len(m.memo),
            "opaque": sorted(m.opaque), "notes": [str(x)[:200] for x in m.notes[:5]],
            "open": [[fn, kd, site, w, describe(path)[:800]] for (fn, kd, site), (w, o, path) in P.open.items()],
            "soft": [[fn, kd, site, why] for (fn, kd, site), (w, why) in P.soft.items()]}


def parallel(jobs, run, limit=600):
    """fork one child per job, at most 8 at a time"""
    res, live = {}, {}
    pend = list(jobs)
    while pend or live:
        while pend and len(live) < 8:
            k = pend.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                signal.alarm(limit)
                try:
                    out = run(k)
                except LookupError as e:
                    out = {"missing": str(e)} if type(e) is LookupError else {"error": traceback.format_exc()[-1500:]}
                except BaseException:
                    out = {"error": traceback.format_exc()[-1500:]}
                with os.fdopen(w, "w") as fh:
                    json.dump(out, fh, default=str)
                os._exit(0)
            os.close(w)
            live[pid] = (k, r)
        # drain whichever is ready
        import select
        rs, _, _ = select.select([r for _, r in live.values()], [], [])
        for pid, (k, r) in list(live.items()):
            if r in rs:
                buf = b""
                with os.fdopen(r, "rb") as fh:
                    buf = fh.read()
                os.waitpid(pid, 0)
                del live[pid]
                try:
                    res[k] = json.loads(buf)
                except ValueError:
                    res[k] = {"error": "the analysis process ended without an answer"}
                break
    return res


HEAVY = ("anim: file to data", "anim: data to file", "mesh: data to file")


def run(ctx, rep):
    p = ctx.prog
    rep.explanation = ("Every conversion between a file type and its editable data type is analysed by abstract interpretation of its MIR with everything it calls in "
                       "the workspace. Functions that are free of panics for all arguments are established first and then used at their boundary. Each place that "
                       "can panic is an obligation under the conditions that reach it inside its function and its callers.")
    rep.rules = ["no arithmetic overflow, out-of-range index, unwrap of an absent value or explicit panic is reachable from a conversion"]
    c, ts = targets(p)
    rx = dict(ts)
    order = sorted(rx, key=lambda k: k not in HEAVY)
    res = parallel(order, lambda k: job(p, c, k, rx[k]))
    sites = set()
    n = done = 0
    for k in sorted(res):
        r = res[k]
        if "missing" in r:
            rep.violation("conversion missing: " + k, "", "no function matches " + r["missing"])
            continue
        n += 1
        if "error" in r:
            rep.unknown(f"{k}: {r['error'][-280:]}")
            continue
        done += 1
        rep.count("obligations", r["n"])
        rep.count("functions_established_alone", r["cuts"])
        sites |= set(r["sites"])
        for fn, kd, site, w, d in r["open"]:
            rep.violation(f"{kd} in {fn}", site, f"{kd} can panic in {k}: when {d}")
        for fn, kd, site, why in r["soft"]:
            rep.unknown(f"{k}: {kd} in {fn} at {site}: {why}")
        for x in r["notes"]:
            rep.unknown(f"{k}: {x}")
    rep.floor("conversions", n, 18, "conversions")
    rep.floor("conversions_analysed", done, 9, "conversions")
    rep.floor("possible_panic_sites", len(sites), 100, "places that could panic")
