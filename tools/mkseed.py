#!/usr/bin/env python3
"""mkseed.py SEEDFILE.py [ID...]: writes and confirms planted bugs.

SEEDFILE holds S = [dict(id, prop, file, edits=[(old, new), ...], needs, breaks, demo)].
The change is made in /repo, the stable tests and the demo are run with and without it, and
it is undone.  What is confirmed goes to /verif/seeded/<id>/.
"""
import json, os, runpy, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
SH = '''#!/bin/bash
# run with cwd /repo
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= WANDB_MODE=offline PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
HEAD = '''import os, sys, tempfile
_scratch = tempfile.TemporaryDirectory()
os.chdir(_scratch.name)
'''


def git(*a):
    return subprocess.run(["git", "-C", R, *a], capture_output=True, text=True, check=True).stdout


def demo(d):
    p = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=R, capture_output=True, text=True, timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-600:]


def tests():
    with tempfile.TemporaryDirectory() as t:
        out = os.path.join(t, "o.json")
        subprocess.run(["bash", "/opt/vp/test.sh", out], capture_output=True)
        n = json.load(open(out))
    return [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in n["passed"]]


def check(prop):
    p = subprocess.run([os.path.join(V, "bin/check"), prop, "--tier", "quick"], capture_output=True, text=True)
    return p.returncode, p.stdout


def original(path, edits):
    """are the changed lines lines of the base commit?"""
    base = git("rev-list", "--max-parents=0", "HEAD").strip()[:7]
    blame = git("blame", "-s", "-l", "--abbrev=40", "HEAD", "--", path).splitlines()
    text = open(os.path.join(R, path)).read()
    bad = []
    for old, new in edits:
        at = text.index(old)
        first = text.count("\n", 0, at)
        o, n = old.split("\n"), new.split("\n")
        for i, line in enumerate(o):
            if line not in n and not blame[first + i].startswith("^") and base not in blame[first + i][:8]:
                bad.append(line)
    return bad


def main():
    seeds = runpy.run_path(sys.argv[1])["S"]
    only = sys.argv[2:]
    assert not git("status", "--porcelain"), "dirty /repo"
    for s in seeds:
        if only and s["id"] not in only:
            continue
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        open(os.path.join(d, "demo.py"), "w").write(HEAD + s["demo"].lstrip("\n"))
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        p = os.path.join(R, s["file"])
        before = open(p).read()
        rep = [s["id"], s["prop"]]
        try:
            bad = original(s["file"], s["edits"])
            rep.append(f"NOT ORIGINAL {bad}" if bad else "")
            a, out = demo(d)
            rep.append("" if a == 0 else f"DEMO FAILS CLEAN {out}")
            text = before
            for old, new in s["edits"]:
                assert text.count(old) == 1, (s["id"], text.count(old), old)
                text = text.replace(old, new)
            open(p, "w").write(text)
            open(os.path.join(d, "patch.diff"), "w").write(git("diff"))
            b, out = demo(d)
            rep.append(f"demo {b} {out.strip().splitlines()[-1] if out.strip() else ''}" if b else "DEMO PASSES")
            lost = tests()
            rep.append(f"LOST {lost}" if lost else "tests ok")
            c, out = check(s["prop"])
            rep.append("CAUGHT" if c == 1 and "VIOLATION" in out else f"MISSED {c}")
            rep.append(out[:300] if c != 0 else "")
        finally:
            open(p, "w").write(before)
        print(" | ".join(x for x in rep if x), flush=True)
    assert not git("status", "--porcelain")


main()
