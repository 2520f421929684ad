"""./check CNN [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the package from /repo, runs the generated tests of a check in worker processes, merges
their counts into evidence/<id>.json and reports the verdict."""
import argparse
import glob
import json
import os
import signal
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from vlib import build as B  # noqa: E402
from vlib import engine as E  # noqa: E402

CASE_HANG_S = 240.0


def env_for(pkg, variant, extra=None):
    env = dict(os.environ)
    for k in ("PYTHONPATH", "LD_PRELOAD", "PYTHONHOME", "PYTHONSTARTUP"):
        env.pop(k, None)
    env.update(
        PYTHONPATH=pkg + ":" + VERIF, VERIF_PKG=pkg, VERIF_VARIANT=variant, PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
        OMP_WAIT_POLICY="passive", OMP_DYNAMIC="false", TQDM_DISABLE="1", PYTHONUNBUFFERED="1",
        PYTHONFAULTHANDLER="0", LANG="C.UTF-8")
    env.setdefault("OMP_NUM_THREADS", "4")
    if variant == "asan":
        lib = subprocess.run(["g++", "-print-file-name=libasan.so"], stdout=subprocess.PIPE,
                             text=True, check=True).stdout.strip()
        stdcxx = subprocess.run(["g++", "-print-file-name=libstdc++.so.6"], stdout=subprocess.PIPE,
                                text=True, check=True).stdout.strip()
        env.update(LD_PRELOAD=lib + ":" + stdcxx, PYTHONMALLOC="malloc",
                   ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_segv=1:"
                                "allocator_may_return_null=1:detect_odr_violation=0:"
                                "quarantine_size_mb=32:malloc_context_size=8")
    if extra:
        env.update(extra)
    return env


def python(args, env, **kw):
    return subprocess.Popen([B.VENV_PY, "-B", os.path.join(VERIF, "vlib", "engine.py")] + args,
                            env=env, cwd=VERIF, **kw)


def run_replay(cid, path, pkg, variant, timeout):
    p = python(["replay", cid, path], env_for(pkg, variant), stdout=subprocess.PIPE,
               stderr=subprocess.STDOUT, text=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, _ = p.communicate()
        return "hang", out
    return p.returncode, out


def write_replay(cid, rec):
    d = os.environ.get("VERIF_REPLAYS") or os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (cid, rec["test"].replace(":", "_"),
                                              E.case_hash(rec.get("case"))))
    with open(path, "w") as fh:
        json.dump(rec, fh, indent=1)
        fh.write("\n")
    return path


def read_known(cid):
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            parts = line.strip().split(" ", 3)
            if len(parts) == 4 and parts[0] == "known:" and parts[1] == "property=" + cid:
                out[parts[2].split("=", 1)[1]] = parts[3]
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cid", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=0)
    ap.add_argument("--variant")
    a = ap.parse_args()
    t_start = time.time()
    if a.setup:
        print(*B.build("fast"))
        return 0
    cid = a.cid.upper()

    sys.path.append(E.HYPOTHESIS_SITE)
    meta = json.load(open(os.path.join(VERIF, "checks", "meta.json")))[cid]
    variants = [a.variant] if a.variant else meta.get("variants", {}).get(
        a.tier, ["fast"] if a.tier == "quick" else ["release"])

    try:
        built = {v: B.build(v) for v in variants}
    except B.BuildError as e:
        print("the working tree of /repo does not build:\n%s" % e, file=sys.stderr)
        return 2
    t_build = time.time() - t_start

    if a.replay:
        rec = json.load(open(a.replay))
        variant = rec.get("variant", variants[0])
        if variant not in built:
            built[variant] = B.build(variant)
        rc, out = run_replay(cid, a.replay, built[variant][0], variant, 900)
        print(out)
        if rc == 0:
            return 0
        print("VIOLATION property=%s replay=%s" % (cid, os.path.abspath(a.replay)))
        return 1

    workers = a.workers or min(8, os.cpu_count() or 1)
    budget = float(os.environ.get("VERIF_BUDGET_S", meta.get("budget", {}).get(
        a.tier, 240 if a.tier == "quick" else 1500)))
    outdir = tempfile.mkdtemp(prefix="verif-%s-" % cid)
    failures, errors, notes = [], [], []
    merged = {}
    try:
        for variant in variants:
            pkg = built[variant][0]
            env = env_for(pkg, variant, {"TMPDIR": outdir})
            procs = {}
            vdir = os.path.join(outdir, variant)
            os.makedirs(vdir)
            for s in range(workers):
                log = open(os.path.join(vdir, "log-%d" % s), "w")
                procs[s] = python(["worker", cid, str(s), str(workers), str(a.seed), a.tier, vdir,
                                   str(budget / len(variants))], env, stdout=log,
                                  stderr=subprocess.STDOUT)
            hung = {}
            while any(p.poll() is None for p in procs.values()):
                time.sleep(0.1)
                for s, p in procs.items():
                    if p.poll() is not None:
                        continue
                    try:
                        st = os.stat(os.path.join(vdir, "current-%d" % s))
                    except OSError:
                        continue
                    if st.st_size and time.time() - st.st_mtime > CASE_HANG_S:
                        hung[s] = True
                        p.kill()
                # stop early once a failure is established
                if any(json.load(open(f)).get("failures")
                       for f in glob.glob(os.path.join(vdir, "out-*.json"))):
                    for p in procs.values():
                        if p.poll() is None:
                            p.kill()
                            p.wait()
                    break
            for s, p in procs.items():
                p.wait()
                path = os.path.join(vdir, "out-%d.json" % s)
                out = json.load(open(path)) if os.path.exists(path) else {"tests": {}}
                for name, stt in out["tests"].items():
                    m = merged.setdefault(name, {"evaluations": 0, "skipped": 0,
                                                 "nontrivial": set(), "labels": {}, "samples": [],
                                                 "truncated": False, "planned": 0, "wall_s": 0})
                    m["evaluations"] += stt["evaluations"]
                    m["skipped"] += stt["skipped"]
                    m["planned"] += stt["planned"]
                    m["nontrivial"].update(stt["nontrivial"])
                    m["truncated"] |= stt["truncated"]
                    m["wall_s"] = max(m["wall_s"], stt["wall_s"])
                    for k, v in stt["labels"].items():
                        m["labels"][k] = m["labels"].get(k, 0) + v
                    m["samples"] = (m["samples"] + stt["samples"])[:3]
                for f in out.get("failures", []):
                    failures.append(dict(f, variant=variant))
                for e in out.get("errors", []):
                    errors.append(e)
                if not out.get("done") and not out.get("failures"):
                    crashed(cid, s, p, vdir, variant, pkg, hung.get(s), failures, errors, notes)
            if failures:
                break

        known_results = {}
        if not failures and not errors and meta.get("known"):
            kf = os.path.join(outdir, "known.json")
            p = python(["known", cid, kf], env_for(built[variants[0]][0], variants[0],
                                                   {"TMPDIR": outdir}),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            log, _ = p.communicate(timeout=300)
            if p.returncode:
                errors.append({"test": "known", "error": log[-3000:]})
            else:
                known_results = json.load(open(kf))
        listed = read_known(cid)
        for kid, msg in known_results.items():
            if msg is None:
                continue
            if kid in listed:
                print("KNOWN-FINDING: property=%s %s (%s)" % (cid, listed[kid], kid))
            else:
                failures.append({"test": "known:" + kid, "case": {"probe": kid}, "msg": msg,
                                 "variant": variants[0]})
    finally:
        shutil.rmtree(outdir, ignore_errors=True)

    evaluations = sum(m["evaluations"] for m in merged.values())
    distinct = sum(len(m["nontrivial"]) for m in merged.values())
    samples = []
    for name, m in merged.items():
        for c in m["samples"][:2]:
            text = json.dumps(c)
            samples.append({"test": name, "case": c if len(text) < 1500 else text[:1500] + "..."})
    evidence = {
        "property": cid, "tier": a.tier, "seed": a.seed, "level": meta["level"],
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct, "rule": meta["rule"],
            "samples": samples or ["none"],
            "per_test": {n: {"evaluations": m["evaluations"], "planned": m["planned"],
                             "distinct_nontrivial": len(m["nontrivial"]),
                             "out_of_domain": m["skipped"], "labels": dict(sorted(m["labels"].items())),
                             "stopped_by_time_budget": m["truncated"], "wall_s": m["wall_s"]}
                         for n, m in merged.items()},
            "build": {v: built[v][1] for v in variants}, "build_s": round(t_build, 1),
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - t_start, 2), "violations": len(failures),
    }
    edir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, cid + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1)
        fh.write("\n")

    for n in notes:
        print("note:", n)
    if failures:
        failures.sort(key=lambda f: len(E.canon(f.get("case"))))
        seen = set()
        for f in failures:
            if f["test"] in seen:
                continue
            seen.add(f["test"])
            path = write_replay(cid, dict(f, property=cid))
            print("%s: %s\n  case: %s" % (f["test"], f["msg"], E.canon(f.get("case"))[:600]))
            print("VIOLATION property=%s replay=%s" % (cid, path))
        return 1
    if errors:
        for e in errors[:1]:
            print("harness error in %s:\n%s" % (e["test"], e["error"]), file=sys.stderr)
        return 2
    print("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d build=%.1fs "
          "wall=%.1fs" % (cid, a.tier, a.seed, evaluations, distinct, t_build,
                          time.time() - t_start))
    return 0


def crashed(cid, s, p, vdir, variant, pkg, hung, failures, errors, notes):
    log = open(os.path.join(vdir, "log-%d" % s)).read()[-3000:]
    try:
        cur = json.load(open(os.path.join(vdir, "current-%d" % s)))
    except (OSError, ValueError):
        cur = None
    if p.returncode == -signal.SIGKILL and not hung:
        if failures or any(json.load(open(f)).get("failures")
                           for f in glob.glob(os.path.join(vdir, "out-*.json"))):
            return  # we stopped it ourselves
        errors.append({"test": "worker", "error": "worker was killed\n" + log})
        return
    if cur is None or (p.returncode is not None and p.returncode >= 0 and not hung):
        errors.append({"test": "worker", "error": "worker ended with %s\n%s" % (p.returncode, log)})
        return
    rec = {"test": cur["test"], "case": cur["case"], "variant": variant, "property": cid}
    path = os.path.join(vdir, "crash.json")
    with open(path, "w") as fh:
        json.dump(rec, fh)
    for _ in range(3):
        rc, out = run_replay(cid, path, pkg, variant, CASE_HANG_S)
        if rc == "hang" or (isinstance(rc, int) and rc < 0) or rc == 1:
            what = "hangs" if rc == "hang" else "ended with %s" % rc
            failures.append(dict(rec, msg="the process %s\n%s" % (what, (out or log)[-2500:])))
            return
    if hung:
        notes.append("a case exceeded %ds once but not when replayed" % CASE_HANG_S)
        return
    failures.append(dict(rec, msg="worker crashed with signal %s (not reproduced alone)\n%s"
                                  % (-p.returncode, log)))


if __name__ == "__main__":
    sys.exit(main())
