"""Development aid: (re)generate /verif/seeded/<id> from tools/seeds/*.py and confirm them in a scratch copy.

usage: seed.py gen [ids] | confirm [ids] | catch [ids]      (no check uses this)
"""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
DEMO = """#!/bin/bash
# exit 0: property holds; nonzero: broken
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
export PYTHONPATH="$PWD/shepherd_core:$PWD/shepherd_data" HOME="$work" XDG_CACHE_HOME="$work/cache" MPLCONFIGDIR="$work/mpl"
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 TZ=UTC TQDM_DISABLE=1 PWNLIB_NOTERM=1 REPO_DIR="$PWD"
cd "$work" || exit 3
/opt/venv/bin/python "$here/demo.py"
"""


def load():
    out = {}
    for p in sorted(glob.glob(os.path.join(ROOT, "tools", "seeds", "*.py"))):
        spec = importlib.util.spec_from_file_location("s", p)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for s in m.SEEDS:
            assert s["id"] not in out
            out[s["id"]] = s
    return out


def copy():
    d = tempfile.mkdtemp(prefix="seedwc_")
    w = os.path.join(d, "repo")
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    subprocess.run(["git", "-C", w, "checkout", "-q", "--", "."], check=True)
    return d, w


def apply_edits(w, s):
    for f, old, new in s["edits"]:
        p = os.path.join(w, f)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))


def gen(s):
    d, w = copy()
    try:
        apply_edits(w, s)
        diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True, check=True).stdout
    finally:
        shutil.rmtree(d)
    t = os.path.join(SEEDED, s["id"])
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t)
    open(os.path.join(t, "patch.diff"), "w").write(diff)
    open(os.path.join(t, "demo.sh"), "w").write(DEMO)
    open(os.path.join(t, "demo.py"), "w").write(s["demo"].lstrip())
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(t, "meta.json"), "w"), indent=1)


def tests(w):
    """Run the stable tests in the scratch copy."""
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    sh = open("/opt/vp/test.sh").read().replace("/repo", w)
    sh = sh.replace("unset PYTEST_ADDOPTS", f"unset PYTEST_ADDOPTS; export PYTHONPATH={w}/shepherd_core:{w}/shepherd_data")
    d = os.path.dirname(w)
    open(os.path.join(d, "t.sh"), "w").write(sh)
    out = os.path.join(d, "o.json")
    subprocess.run(["bash", os.path.join(d, "t.sh"), out], capture_output=True)
    o = json.load(open(out))
    ok = set(o["passed"]) if isinstance(o["passed"], list) else {k for k, v in o["passed"].items() if v}
    return sorted(base - ok)


def confirm(s):
    t = os.path.join(SEEDED, s["id"])
    d, w = copy()
    res = {}
    try:
        r0 = subprocess.run(["bash", os.path.join(t, "demo.sh")], cwd=w, capture_output=True, text=True, timeout=300)
        subprocess.run(["git", "-C", w, "apply", os.path.join(t, "patch.diff")], check=True)
        r1 = subprocess.run(["bash", os.path.join(t, "demo.sh")], cwd=w, capture_output=True, text=True, timeout=300)
        miss = tests(w)
        res = {"clean": r0.returncode, "patched": r1.returncode, "tests_lost": miss[:4]}
        res["ok"] = r0.returncode == 0 and r1.returncode != 0 and not miss
        if r0.returncode:
            res["err"] = (r0.stdout + r0.stderr)[-600:]
        else:
            res["why"] = (r1.stdout + r1.stderr)[-150:]
    finally:
        shutil.rmtree(d)
    return s["id"], res


def catch(s, extra=()):
    d, w = copy()
    try:
        apply_edits(w, s)
        out = {}
        for p in (s["property"], *extra):
            r = subprocess.run(["bash", "run.sh", p], cwd=ROOT, env={**os.environ, "VF_REPO": w, "VF_EVID": d}, capture_output=True, text=True)
            v = [x for x in r.stdout.splitlines() if x.startswith("---")]
            out[p] = (r.returncode, len(v), v[:1])
            if r.returncode not in (0, 1):
                out[p] = (r.returncode, (r.stdout + r.stderr)[-500:])
    finally:
        shutil.rmtree(d)
    return s["id"], out


if __name__ == "__main__":
    seeds = load()
    cmd, ids = sys.argv[1], sys.argv[2:]
    sel = [seeds[i] for i in (ids or seeds)]
    sel = [s for s in sel if cmd == "catch" and ids or not s.get("skip")]
    if cmd == "gen":
        for s in sel:
            gen(s)
        if not ids:
            for x in os.listdir(SEEDED):
                if x not in seeds:
                    print("stale", x)
    elif cmd == "confirm":
        with ThreadPoolExecutor(4) as ex:
            for i, r in ex.map(confirm, sel):
                print(i, json.dumps(r), flush=True)
    elif cmd == "catch":
        with ThreadPoolExecutor(2) as ex:
            for r in ex.map(catch, sel):
                print(*r, flush=True)
