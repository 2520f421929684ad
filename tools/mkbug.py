#!/usr/bin/env python3
"""Makes and confirms the planted bugs in /verif/seeded from the specs in tools/bugs/*.py.

usage: mkbug.py [-j N] [--no-tests] [--checks C01,C02|own|all] [--seeds 1,2] ID... | all

Every bug is applied in a scratch copy of /repo under /tmp, built, run against the stable tests,
its demonstration and the checks; /repo itself is not touched.
"""
import argparse
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "1c26538"
ROOT = "/tmp/mkbug"
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO_SH = """#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken. Run in /repo after the build.
export PYTHONPATH="$PWD" OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def specs():
    out = {}
    for path in sorted(glob.glob(os.path.join(VERIF, "tools/bugs/*.py"))):
        spec = importlib.util.spec_from_file_location("bugs", path)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        for b in mod.BUGS:
            assert b["id"] not in out, b["id"]
            out[b["id"]] = b
    return out


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout, check=False)
    return r.returncode, r.stdout


def worker_dir(k):
    w = f"{ROOT}/w{k}"
    if not os.path.isdir(w):
        os.makedirs(ROOT, exist_ok=True)
        sh(["git", "clone", "-q", "/repo", w])
    head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
    sh(["git", "-C", w, "fetch", "-q", "origin"])
    sh(["git", "-C", w, "checkout", "-q", "--detach", "-f", head])
    return w


def build(w, k):
    rc, out = sh([PY, f"{VERIF}/vlib/build.py", "release"],
                 env={"VERIF_REPO": w, "VERIF_BUILD": f"{ROOT}/b{k}"})
    if rc:
        return None, out
    pkg = out.split()[0]
    for so in glob.glob(f"{pkg}/implicit/**/*.so", recursive=True):
        shutil.copy2(so, os.path.join(w, os.path.relpath(so, pkg)))
    return pkg, out


def run_demo(w, d):
    try:
        return sh(["bash", f"{d}/demo.sh"], cwd=w, timeout=300)
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def process(b, k, args):
    res = {"id": b["id"], "property": b["prop"]}
    w = worker_dir(k)
    d = f"{VERIF}/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    for f, old, new in b["edits"]:
        p = os.path.join(w, f)
        s = open(p).read()
        if s.count(old) != 1:
            res["error"] = f"{f}: {s.count(old)} matches for {old!r}"
            return res
        open(p, "w").write(s.replace(old, new))
    _, diff = sh(["git", "-C", w, "diff"])
    sh(["git", "-C", w, "checkout", "-q", "-f", "--", "."])
    removed = original = 0
    for f in {e[0] for e in b["edits"]}:
        _, blame = sh(["git", "-C", w, "blame", "-s", "-l", "HEAD", "--", f])
        base_lines = {}
        for line in blame.splitlines():
            sha, rest = line.split(" ", 1)
            body = rest.split(") ", 1)[1] if ") " in rest else ""
            base_lines.setdefault(body, set()).add(sh(["git", "-C", w, "merge-base", "--is-ancestor", sha.lstrip("^"), BASE])[0] == 0)
        cur = None
        for line in diff.splitlines():
            if line.startswith("--- a/"):
                cur = line[6:]
            elif line.startswith("-") and not line.startswith("---") and cur == f:
                removed += 1
                original += True in base_lines.get(line[1:], ())
    res["lines"] = f"{original}/{removed} original"
    with open(f"{d}/patch.diff", "w") as fh:
        fh.write(diff)
    with open(f"{d}/demo.sh", "w") as fh:
        fh.write(DEMO_SH)
    os.chmod(f"{d}/demo.sh", 0o755)
    with open(f"{d}/demo.py", "w") as fh:
        fh.write(b["demo"].strip() + "\n")
    with open(f"{d}/meta.json", "w") as fh:
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  fh, indent=1)
        fh.write("\n")
    pkg, out = build(w, k)
    rc, out = run_demo(w, d)
    res["demo_clean"] = rc
    if rc:
        res["demo_out"] = out[-600:]
    rc, out = sh(["git", "-C", w, "apply", f"{d}/patch.diff"])
    pkg, out = build(w, k)
    if pkg is None:
        res["error"] = "build: " + out[-800:]
        sh(["git", "-C", w, "checkout", "-q", "-f", "--", "."])
        return res
    rc, out = run_demo(w, d)
    res["demo_bug"] = rc
    res["demo_msg"] = out.strip().splitlines()[-1][:160] if out.strip() else ""
    if not args.no_tests:
        x = f"{ROOT}/junit{k}.xml"
        if os.path.exists(x):
            os.unlink(x)
        sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:xdist", "--timeout=300",
            "-o", "junit_family=xunit2", f"--junitxml={x}", "tests"], cwd=w,
           env={"OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "2", "PYTHONHASHSEED": "0",
                "OMP_WAIT_POLICY": "passive", "PYTHONDONTWRITEBYTECODE": "1"})
        passed = set()
        for tc in ET.parse(x).iter("testcase"):
            if not len([c for c in tc if c.tag in ("failure", "error", "skipped")]):
                passed.add(f"{tc.get('classname')}::{tc.get('name')}")
        res["tests_broken"] = sorted(STABLE - passed)[:5]
    checks = [b["prop"]] if args.checks == "own" else (
        [f"C{i:02d}" for i in range(1, 33) if i != 31] if args.checks == "all" else
        [c for c in args.checks.split(",") if c != "none"])
    res["checks"] = {}
    for c in checks:
        for seed in args.seeds.split(","):
            try:
                rc, out = sh([f"{VERIF}/check", c, "--seed", seed], cwd=VERIF,
                             env={"VERIF_REPO": w, "VERIF_BUILD": f"{ROOT}/b{k}",
                                  "VERIF_EVIDENCE": f"{ROOT}/ev{k}", "VERIF_REPLAYS": f"{ROOT}/rp{k}"})
            except subprocess.TimeoutExpired:
                rc, out = 124, ""
            res["checks"][f"{c}/{seed}"] = rc
            if rc not in (0, 1):
                res["check_out"] = out[-500:]
            elif rc == 1:
                m = [l for l in out.splitlines() if "VIOLATION" in l or l.startswith("  ")]
                res.setdefault("msg", m[1][:200] if len(m) > 1 else "")
    sh(["git", "-C", w, "checkout", "-q", "-f", "--", "."])
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="+")
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("--no-tests", action="store_true")
    ap.add_argument("--checks", default="own")
    ap.add_argument("--seeds", default="1")
    args = ap.parse_args()
    all_ = specs()
    todo = list(all_.values()) if args.ids == ["all"] else [
        b for b in all_.values() if any(b["id"].startswith(i) for i in args.ids)]
    q = Queue()
    for k in range(args.j):
        q.put(k)

    def run(b):
        k = q.get()
        try:
            res = process(b, k, args)
        except Exception as e:  # noqa
            import traceback
            res = {"id": b["id"], "error": traceback.format_exc()[-600:]}
        finally:
            q.put(k)
        good = not res.get("error") and res.get("demo_clean") == 0 and res.get("demo_bug") \
            and not res.get("tests_broken")
        caught = any(v == 1 for v in res.get("checks", {}).values())
        print("OK  " if good else "BAD ", "CAUGHT" if caught else "missed", json.dumps(res), flush=True)

    with ThreadPoolExecutor(args.j) as ex:
        list(ex.map(run, todo))


if __name__ == "__main__":
    main()
