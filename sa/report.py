"""What a check found."""
import json
import os


def load_known(root, pid):
    p = os.path.join(root, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        d = json.load(f)
    return {k["key"]: k["what"] for k in d.get("known", []) if k["property"] == pid}


class Report:
    def __init__(self, pid, known):
        self.pid = pid
        self.known = known
        self.viol = {}
        self.counts = {}
        self.rules = []
        self.samples = []
        self.assume = set()
        self.undecided = []
        self.explanation = ""
        self.new = []
        self.known_hit = []

    def violation(self, key, where, text):
        """key: stable name of the violated instance (no line numbers)"""
        if key not in self.viol:
            self.viol[key] = (where, text)

    def unknown(self, text):
        self.undecided.append(text)

    def count(self, name, n):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n, least, what=""):
        """an anchor count confirmed by hand; fewer means the rule no longer sees what it must"""
        self.counts[name] = n
        if n < least:
            self.violation("floor:" + name, "", f"only {n} {what or name} were found and analysed, at least {least} are expected: the code this rule is anchored on is missing")

    def finish(self):
        for k, (w, t) in sorted(self.viol.items()):
            if k in self.known:
                self.known_hit.append((k, self.known[k]))
            else:
                self.new.append((k, w, t))
