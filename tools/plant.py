"""Confirm planted bugs in a scratch copy of /repo.

``plant.py SPEC.py [ID ...]`` reads ``BUGS`` from SPEC.py: a list of dicts with the keys ``id``, ``property``,
``edits`` (list of (file, old, new)), ``needs``, ``what``, ``demo`` (python source).  For every bug the edit is
applied in a scratch copy, the demonstration is run with and without it, the test suite and the property's quick
check are run with it; a confirmed bug is written to /verif/seeded/ID.  Nothing is changed in /repo.

``plant.py --recheck [ID ...]`` only runs the checks against the bugs below /verif/seeded.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
DEMO_SH = '''#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kwds):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kwds)


def copy_repo(tmp):
    work = os.path.join(tmp, "repo")
    subprocess.run(["cp", "-a", "/repo", work], check=True)
    return work


def run_check(work, prop, extra=""):
    env = dict(os.environ, VERIF_REPO=work, VERIF_SEED="1", VERIF_TIER="quick")
    env.pop("VERIF_REEXEC", None)
    res = sh(f"/opt/venv/bin/python -B run.py {prop} --no-evidence {extra}", cwd=HERE, env=env)
    caught = res.returncode == 1 and f"VIOLATION property={prop} " in res.stdout
    facets = [ln.split(":")[0][4:] for ln in res.stdout.splitlines() if ln.startswith("--- ")]
    return caught, res.returncode, facets, res


def tests_ok(work, tmp):
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    script, env = os.path.join(tmp, "test.sh"), os.path.join(tmp, "env.sh")
    for src, dst in (("/opt/vp/test.sh", script), ("/opt/vp/env.sh", env)):
        txt = open(src).read().replace("/repo", work).replace("/opt/vp/env.sh", env)
        open(dst, "w").write(txt)
    out = os.path.join(tmp, "out.json")
    passed = set()
    for _ in range(2):  # a few tests are sensitive to the load of the machine
        sh(f"bash {script} {out}")
        passed |= set(json.load(open(out))["passed"])
        if not 0 < len([t for t in base if t not in passed]) < 4:
            break
    return [t for t in base if t not in passed]


def demo_fails(work, demo_dir):
    return sh(f"bash {demo_dir}/demo.sh", cwd=work, timeout=300).returncode


def plant(bug):
    with tempfile.TemporaryDirectory(prefix="plant_") as tmp:
        work = copy_repo(tmp)
        ddir = os.path.join(tmp, "demo")
        os.makedirs(ddir)
        open(os.path.join(ddir, "demo.sh"), "w").write(DEMO_SH)
        open(os.path.join(ddir, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
        if demo_fails(work, ddir) != 0:
            print(bug["id"], "REJECTED: demo fails on the unchanged tree", sh(f"bash {ddir}/demo.sh", cwd=work).stderr[-800:])
            return
        for fname, old, new in bug["edits"]:
            path = os.path.join(work, fname)
            txt = open(path).read()
            assert txt.count(old) == 1, (bug["id"], fname, txt.count(old), old)
            open(path, "w").write(txt.replace(old, new))
        diff = sh("git diff", cwd=work).stdout
        if demo_fails(work, ddir) == 0:
            print(bug["id"], "REJECTED: demo passes with the bug")
            return
        caught, code, facets, _ = run_check(work, bug["property"])
        missing = tests_ok(work, tmp)
        if missing:
            print(bug["id"], "REJECTED: tests fail:", missing[:3], "| check:", "caught" if caught else code, facets)
            return
        dest = os.path.join(SEEDED, bug["id"])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(ddir, dest)
        open(os.path.join(dest, "patch.diff"), "w").write(diff)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["what"]},
                  open(os.path.join(dest, "meta.json"), "w"), indent=1)
        print(bug["id"], bug["property"], "CONFIRMED", "caught" if caught else f"MISSED (exit {code})", facets, flush=True)


def safe_plant(bug):
    try:
        plant(bug)
    except Exception as err:
        print(bug["id"], "ERROR", type(err).__name__, err, flush=True)


def recheck(ids, extra=""):
    record = os.path.join(HERE, "tools", "planted.json")  # input of design.py
    table = json.load(open(record)) if os.path.exists(record) else {}

    def single(bid):
        meta = json.load(open(os.path.join(SEEDED, bid, "meta.json")))
        with tempfile.TemporaryDirectory(prefix="plant_") as tmp:
            work = copy_repo(tmp)
            res = sh(f"git apply {SEEDED}/{bid}/patch.diff", cwd=work)
            if res.returncode:
                print(bid, "patch does not apply", res.stderr[:200])
                return
            caught, code, facets, _ = run_check(work, meta["property"], extra)
        print(bid, meta["property"], "caught" if caught else f"MISSED (exit {code})", facets, flush=True)
        table[bid] = facets if caught else []
        json.dump(table, open(record, "w"), indent=1, sort_keys=True)

    with ThreadPoolExecutor(max_workers=3) as pool:
        list(pool.map(single, ids or sorted(os.listdir(SEEDED))))


if __name__ == "__main__":
    if sys.argv[1] == "--recheck":
        recheck(sys.argv[2:])
    else:
        spec = runpy.run_path(sys.argv[1])["BUGS"]
        want = sys.argv[2:]
        with ThreadPoolExecutor(max_workers=4) as pool:  # tests are single-threaded
            list(pool.map(safe_plant, [e for e in spec if not want or e["id"] in want]))
