#!/usr/bin/env python3
"""Creates and validates planted changes under seeded/ (development tool; no check uses it).

plant.py make FILE.py     FILE defines BUGS=[dict(id, property, needs, breaks, edits=[(file, old, new)], demo=..., dist=bool)]
plant.py verify ID...     apply, build, run the stable tests, run the demo; undo; run the demo again
                          (in the tree PLANT_REPO, default /repo)
plant.py catch ID...      apply, run the property's check (and print the verdict); undo
"""
import json
import os
import runpy
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
REPO = os.environ.get("PLANT_REPO", "/repo")
DIST = open(os.path.join(HERE, "tools", "gridrun.py")).read()


def git(*a, **k):
    return subprocess.run(["git", "-C", REPO, *a], check=k.pop("check", True), capture_output=True, text=True, **k).stdout


def clean():
    git("checkout", "--", ".")


def make(path):
    for b in runpy.run_path(path)["BUGS"]:
        assert not git("status", "--porcelain", "--untracked-files=no").strip()
        d = os.path.join(SEED, b["id"])
        os.makedirs(d, exist_ok=True)
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(REPO, f)
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            open(os.path.join(d, "patch.diff"), "w").write(git("diff"))
        finally:
            clean()
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].strip() + "\n")
        if b.get("dist"):
            open(os.path.join(d, "gridrun.py"), "w").write(DIST)
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport OMP_NUM_THREADS=1 TORCHDYNAMO_DISABLE=1 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$(cd "$(dirname "$0")" && pwd)"\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("made", b["id"])


def script(name):
    """/opt/vp/name, working on REPO."""
    if REPO == "/repo":
        return "/opt/vp/" + name
    out = os.path.join("/tmp", "plant_" + REPO.replace("/", "_") + "_" + name)
    s = open("/opt/vp/" + name).read().replace("/opt/vp/build.sh", script("build.sh") if name != "build.sh" else "").replace("/repo", REPO)
    open(out, "w").write(s)
    return out


def demo(i):
    return subprocess.run(["bash", os.path.join(SEED, i, "demo.sh")], cwd=REPO, capture_output=True, text=True)


def verify(ids, tests=True):
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base.get("stable", base.get("passing", base if isinstance(base, list) else [])))
    for i in ids:
        try:
            git("apply", os.path.join(SEED, i, "patch.diff"))
            if tests:
                out = f"/tmp/plant_{i}.json"
                subprocess.run(["bash", script("test.sh"), out], capture_output=True, text=True)
                r = json.load(open(out))
                passed = set(r.get("passed", r.get("passing", [])))
                missing = stable - passed
                print(i, "stable failing:", len(missing), sorted(missing)[:3])
                os.remove(out)
            else:
                subprocess.run(["bash", script("build.sh")], capture_output=True)
            p = demo(i)
            print(i, "with patch: demo rc", p.returncode, (p.stdout + p.stderr).strip()[-200:])
        finally:
            clean()
    subprocess.run(["bash", script("build.sh")], capture_output=True)
    for i in ids:
        p = demo(i)
        print(i, "unchanged: demo rc", p.returncode, (p.stdout + p.stderr).strip()[-200:] if p.returncode else "")


def catch(ids):
    for i in ids:
        prop = json.load(open(os.path.join(SEED, i, "meta.json")))["property"]
        try:
            git("apply", os.path.join(SEED, i, "patch.diff"))
            p = subprocess.run(["./check.py", prop, "--tier", "quick"], cwd=HERE, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=REPO))
            print(i, prop, "rc", p.returncode, [l for l in p.stdout.splitlines() if "VIOLATION" in l][:2], p.stderr.strip()[-300:] if p.returncode not in (0, 1) else "", flush=True)
        finally:
            clean()


if __name__ == "__main__":
    c = sys.argv[1]
    ids = [x for x in sys.argv[2:] if not x.startswith("-")]
    if c != "make" and ids == ["all"]:
        ids = sorted(os.listdir(SEED))
    {"make": lambda: [make(x) for x in ids], "verify": lambda: verify(ids, "--notests" not in sys.argv), "catch": lambda: catch(ids)}[c]()
