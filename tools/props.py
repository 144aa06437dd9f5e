#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl and /verif/MANIFEST.json from the table below (python3 tools/props.py)."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe, state=state))


S = "src/pybgl/"
BFS = ("explicit-state model checking: breadth-first search over operation histories of the real class in lockstep with a "
       "reference model, states merged only when real object and model are identical")
ENUM = "bounded-exhaustive exploration: every input of a bounded space is run on the real code and compared with a reference"
TRACE = "bounded-exhaustive exploration: every input of a bounded space is run, its event trace checked by a protocol monitor"
PROD = ("explicit-state model checking: every automaton of a bounded space is run through the real code and the product of the "
        "real result with the reference machine is explored completely")

exec(open(os.path.join(HERE, "tools", "props_table.py")).read())


def levels():
    out = {}
    d = os.path.join(HERE, "mc", "checks")
    for f in sorted(x for x in os.listdir(d) if x.endswith(".py")):
        m = re.search(r'^ID, LEVEL = "(\w+)", "(\w+)"', open(os.path.join(d, f)).read(), re.M)
        if m:
            out[m.group(1)] = m.group(2)
    return out


def main():
    lv = levels()
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": [S + x for x in p["files"]],
                 "mechanism": [{"name": n, "where": S + w} for (n, w) in p["mech"]]}
            if p["state"]:
                a["state"] = p["state"]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            a["hook_needed"] = None
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
    checks = []
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["id"] in lv, "no check for " + p["id"]
        checks.append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"],
                       "thorough_cmd": "./check %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"],
                       "level": lv[p["id"]], "level_note": p["note"]})
    missing = set(lv) - {p["id"] for p in P}
    assert not missing, missing
    m = {"version": 1, "setup_cmd": "python3 -c 'import sys; assert sys.version_info >= (3, 8)'", "checks": checks,
         "not_applicable": [],
         "notes": "No hooks: every check drives the public API of the real code in /repo/src. `./check replay <file>` replays a "
                  "reported violation. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print(len(P), "properties")


if __name__ == "__main__":
    main()
