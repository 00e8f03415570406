#!/usr/bin/env python3
"""Decide one property of /repo's current source:  check.py ID

Exit 0: the property holds on everything analysed.  Exit 1: a line `VIOLATION property=ID replay=...` per violation.
"""
import gc
import importlib
import json
import os
import resource
import sys
import time
import traceback

gc.disable()
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 << 20)

import extract
import limits
from report import Report, load_known


class Ctx:
    def __init__(self):
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self._x = None
        self._p = None
        self._facts = None
        self._m = None

    @property
    def x(self):
        if self._x is None:
            self._x = extract.extract()
        return self._x

    @property
    def prog(self):
        if self._p is None:
            from load import Program
            self._p = Program(self.x["mono"])
        return self._p

    @property
    def facts(self):
        if self._facts is None:
            from factsdb import Facts
            self._facts = Facts(self.x["facts"])
        return self._facts

    @property
    def mir(self):
        """workspace functions of the monomorphised program, with call graph"""
        if self._m is None:
            from mirq import Mir
            self._m = Mir(self.prog)
        return self._m


def evidence(pid, rep, ctx, wall):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    cov = {"explanation": rep.explanation or "static analysis of the current source"}
    cov.update(rep.counts)
    cov["rules"] = rep.rules
    cov["samples"] = rep.samples[:12]
    cov["undecided"] = len(rep.undecided)
    cov["undecided_items"] = [u[:300] for u in rep.undecided[:20]]
    ev = {
        "property": pid,
        "tier": ctx.tier if ctx.tier in ("quick", "thorough") else "quick",
        "seed": ctx.seed,
        "level": "other",
        "coverage": cov,
        "assumptions": sorted(rep.assume),
        "wall_s": round(wall, 3),
        "violations": len(rep.new),
        "known_findings": [k for k, _ in rep.known_hit],
        "violation_reports": [{"key": k, "where": w, "what": t} for k, w, t in rep.new[:200]],
    }
    p = os.path.join(ROOT, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + ".tmp", p)
    return p


def main():
    pid = sys.argv[1]
    ctx = Ctx()
    t0 = time.time()
    rep = Report(pid, load_known(ROOT, pid))
    try:
        mod = importlib.import_module("props." + pid.lower())
        with limits.limit(780):
            mod.run(ctx, rep)
    except limits.TimeUp:
        rep.unknown("the analysis did not finish in time")
    except MemoryError:
        rep.unknown("the analysis ran out of memory")
    except extract.ExtractError as e:
        rep.violation("analysis:source-not-analysable", "", "the current source could not be compiled for analysis: " + str(e)[-1500:])
    except Exception:
        rep.violation("analysis:failed", "", "the analysis of the current source did not complete: " + traceback.format_exc()[-1500:])
    rep.finish()
    p = evidence(pid, rep, ctx, time.time() - t0)
    for u in rep.undecided[:10]:
        print("UNDECIDED", u[:300])
    for k, t in rep.known_hit:
        print(f"KNOWN-FINDING: property={pid} {t}")
    for k, w, t in rep.new[:40]:
        print(f"  at {w}\n    {t[:900]}\n    key: {k}")
    if rep.new:
        print(f"{len(rep.new)} violation(s)")
        print(f"VIOLATION property={pid} replay={p}")
    else:
        print(f"OK property={pid} " + " ".join(f"{k}={v}" for k, v in rep.counts.items() if isinstance(v, int)))
    sys.stdout.flush()
    os._exit(1 if rep.new else 0)


if __name__ == "__main__":
    resource.setrlimit(resource.RLIMIT_AS, (22 << 30, 22 << 30))
    th = threading.Thread(target=main)
    th.start()
    th.join()
