#!/usr/bin/env python3
"""Generates /verif/DESIGN.md (python3 tools/design.py)."""
import ast
import glob
import json
import os

import props
HERE = props.HERE


def header(pid):
    """RULE, ASSUMPTIONS and BOUND of a check."""
    out = {}
    for node in ast.parse(open(os.path.join(HERE, "mc", "checks", pid.lower() + ".py")).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in ("RULE", "ASSUMPTIONS", "BOUND"):
            out[node.targets[0].id] = eval(compile(ast.Expression(node.value), "x", "eval"), {})
    return out


def load(name):
    try:
        return json.load(open(os.path.join(HERE, "tools", name)))
    except FileNotFoundError:
        return {}


def main():
    out = [open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip(), "", "## 4. The properties", ""]
    costs, catches, lv = load("costs.json"), load("catches.json"), props.levels()
    metas = {os.path.basename(os.path.dirname(f)): json.load(open(f)) for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json")))}
    for p in props.P:
        h = header(p["id"])
        out += ["### %s — %s" % (p["id"], p["title"]), "", p["statement"], ""]
        out += ["* **Decided by** (%s): %s." % (lv[p["id"]], p["technique"])]
        out += ["* **Enumerated and compared:** " + h["RULE"]]
        for tier in ("quick", "thorough"):
            c = costs.get(p["id"], {}).get(tier)
            out += ["* **Bounds, %s:** %s%s" % (tier, h["BOUND"][tier], " — %(evaluations)d evaluations, %(wall)s s." % c if c else "")]
        out += ["* **Assumes:** " + "; ".join(h["ASSUMPTIONS"]) + "."] if h.get("ASSUMPTIONS") else []
        out += ["* **Strength:** " + p["note"], "* **Why tests cannot settle it:** " + p["why"]]
        out += ["* **Code:** " + ", ".join("`%s`" % f for f in p["files"])]
        bugs = [b for b, m in metas.items() if m["property"] == p["id"]]
        out += (["* **Planted bugs:** " + ", ".join("%s (%s)" % (b, catches.get(b, "not run")) for b in bugs)] if bugs else []) + [""]
    out += [open(os.path.join(HERE, "tools", "design_tail.md")).read().rstrip(), "", "## 6. Planted bugs", "",
            "Each one was written from a property and the code, passes the existing tests, and comes with a demonstration. The last column is the verdict of the quick check of its property.", "",
            "| bug | property | needs | breaks | quick check |", "|---|---|---|---|---|"]
    out += ["| %s | %s | %s | %s | %s |" % (b, m["property"], m["needs"], m["what_it_breaks"], catches.get(b, "not run")) for b, m in metas.items()]
    out += ["", "## 7. Defects of PyBGL found by these checks", "",
            "Each line was a violation on the original tree; all were repaired by a `fix:` commit in /repo (the check reports them again if they return). No known finding is left open.", ""]
    out += ["* " + line.strip() for line in open(os.path.join(HERE, "known_findings")) if line.startswith(("fixed:", "KNOWN-FINDING:"))]
    out += ["", open(os.path.join(HERE, "tools", "design_notes.md")).read().rstrip()]
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write("\n".join(out) + "\n")


main()
