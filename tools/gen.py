#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from one table."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None):
    a = {"files": files, "mechanism": mech}
    if state:
        a["state"] = state
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a,
                  _t=technique, _n=note))


def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, None, None)
    NA.append({"property": id, "reason": reason})


exec(open(os.path.join(ROOT, "tools", "props_table.py")).read())


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "python3 sa/extract.py",
        "checks": [{"property": p["id"], "quick_cmd": f"python3 sa/check.py {p['id']}", "thorough_cmd": f"python3 sa/check.py {p['id']}",
                    "evidence_file": f"evidence/{p['id']}.json", "technique": p["_t"], "level": "other", "level_note": p["_n"]}
                   for p in P if p["_t"]],
        "not_applicable": NA,
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
