#!/usr/bin/env python3
"""Regenerate the reference tables from the current tree (by hand, after review; never run by a check)."""
import gc, json, os, sys, threading
gc.disable()
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
threading.stack_size(512 << 20)
from check import Ctx


def main():
    from props import c04
    with open(c04.REF, "w") as f:
        json.dump(c04.current(Ctx()), f, indent=0, sort_keys=True)
        f.write("\n")


th = threading.Thread(target=main)
th.start()
th.join()
