#!/usr/bin/env python3
"""mut.py FILE: each case `(name, file, old, new, [checks], expect)`; applied to /repo, checks run, undone."""
import subprocess, sys, os
cases = eval(open(sys.argv[1]).read())
only = sys.argv[2:]
for name, fn, old, new, checks, expect in cases:
    if only and name not in only:
        continue
    p = os.path.join("/repo", fn)
    s = open(p).read()
    if s.count(old) < 1:
        print(name, "NO MATCH"); continue
    try:
        open(p, "w").write(s.replace(old, new, 1))
        for c in checks:
            r = subprocess.run(["timeout", "900", "python3", "/verif/sa/check.py", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l.strip() for l in r.stdout.splitlines()]
            keys = [l[5:] for l in v if l.startswith("key: ")]
            ok = (r.returncode == 1) == (expect == "bad")
            print(("ok   " if ok else "MISS ") if expect == "bad" else ("ok   " if ok else "FALSE-ALARM "), name, c, r.returncode, [k[:110] for k in keys[:3]], [l[:140] for l in v if l.startswith("UNDEC")][:2] if not ok or expect == "good" else "", flush=True)
            if any("could not be compiled" in l for l in v):
                print("   DOES NOT COMPILE", [l[-400:] for l in v if "error" in l][:3])
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
