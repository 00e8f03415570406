"""Facts about every function of a crate (reachable or not), dumped by the driver from HIR and generic MIR."""
import json
import os
import re


class Facts:
    def __init__(self, d):
        self.d = d
        self._c = {}

    def crate(self, c):
        if c not in self._c:
            with open(os.path.join(self.d, c + ".json")) as f:
                self._c[c] = json.load(f)
        return self._c[c]


def rel(span):
    m = re.search(r"/repo/([^ ]*)", str(span))
    return m.group(1) if m else str(span)
