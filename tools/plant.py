#!/usr/bin/env python3
"""Build and validate planted bugs: plant.py SPEC.py [ID...]

SPEC.py defines BUGS, a list of dict(id, property, edits=[(file, old, new)], demo, needs, breaks).
Every bug is applied to a scratch copy of /repo; it is kept in /verif/seeded/<id>/ only if the stable tests
still pass with it, and its demonstration passes without it and fails with it.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" timeout 120 python3 "$here/demo.py"
"""


def run(*cmd, cwd=None, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def stable_tests(repo):
    """The tests and docstring examples that pass in a copy of the repository (run as /opt/vp/test.sh does)."""
    import xml.etree.ElementTree as ET
    work = tempfile.mkdtemp(prefix="planttests")
    env = dict(os.environ, PYTHONPATH=os.path.join(repo, "src"), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    ok = set()
    for (name, target) in (("tests", os.path.join(repo, "tests")), ("doc", os.path.join(repo, "src"))):
        xml = os.path.join(work, name + ".xml")
        run("/opt/venv/bin/python", "-m", "pytest", "-q", "-c", os.path.join(repo, "pyproject.toml"),
            "--rootdir=" + repo, "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors",
            "-o", "addopts=--doctest-modules", "-o", "junit_family=xunit2", "--junitxml=" + xml, target,
            cwd=repo if name == "tests" else work, env=env)
        for case in ET.parse(xml).iter("testcase"):
            if not any(c.tag in ("failure", "error", "skipped") for c in case):
                ok.add(f"{case.get('classname')}::{case.get('name')}")
    shutil.rmtree(work)
    return ok


def one(bug, root):
    repo = os.path.join(root, "repo")
    run("rm", "-rf", repo)
    run("cp", "-a", "/repo", repo)
    run("git", "checkout", "-q", "--", ".", cwd=repo)
    work = os.path.join(root, bug["id"])
    os.makedirs(work, exist_ok=True)
    open(os.path.join(work, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(work, "demo.sh"), 0o755)
    open(os.path.join(work, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
    json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
              open(os.path.join(work, "meta.json"), "w"), indent=1)
    demo = os.path.join(work, "demo.sh")
    first = run("git", "rev-list", "--max-parents=0", "HEAD", cwd=repo).stdout.split()[-1]
    before = run("bash", demo, cwd=repo)
    if before.returncode:
        return "demo fails on the unchanged tree:\n" + before.stdout[-800:]
    for (f, old, new) in bug["edits"]:
        path = os.path.join(repo, "src/pybgl", f)
        s = open(path).read()
        if s.count(old) != 1:
            return f"{f}: {s.count(old)} occurrences of {old!r}"
        open(path, "w").write(s.replace(old, new))
    diff = run("git", "diff", cwd=repo).stdout
    removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    original = run("git", "show", f"{first}:src/pybgl/{bug['edits'][0][0]}", cwd=repo).stdout.splitlines()
    if not any(l.strip() and l in original for l in removed):
        return "touches no line of the original repository"
    open(os.path.join(work, "patch.diff"), "w").write(diff)
    after = run("bash", demo, cwd=repo)
    if after.returncode == 0:
        return "demo passes with the bug"
    lost = BASE - stable_tests(repo)
    if lost:
        return f"tests detect it: {sorted(lost)[:4]}"
    dest = os.path.join(HERE, "seeded", bug["id"])
    shutil.rmtree(dest, ignore_errors=True)
    shutil.copytree(work, dest)
    return "kept"


def main():
    global BASE
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = set(sys.argv[2:])
    root = tempfile.mkdtemp(prefix="plant")
    try:
        run("cp", "-a", "/repo", os.path.join(root, "repo"))
        BASE = stable_tests(os.path.join(root, "repo"))
        print("tests passing without any bug:", len(BASE))
        for bug in bugs:
            if not only or bug["id"] in only:
                print(bug["id"], one(bug, root), flush=True)
    finally:
        shutil.rmtree(root)


main()
