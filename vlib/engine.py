"""Runs generated cases of one check in a worker process (Hypothesis drives, shrinks, replays)."""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback
import warnings

HYPOTHESIS_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class Violation(Exception):
    """The property does not hold for this case."""


class Skip(Exception):
    """The case turned out to be outside the property's domain (counted, never silent)."""


class T:
    """One generated test: strategy() gives JSON-able cases, run(case) raises Violation or returns
    an Outcome-like tuple (nontrivial: bool, labels: iterable of str)."""

    def __init__(self, name, strategy, run, quick, thorough=None, rule="", variant=None, weight=1):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, quick * 20 if thorough is None else thorough
        self.rule = rule
        self.variant = variant
        self.weight = weight  # share of the time budget


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def case_hash(case):
    return hashlib.sha256(canon(case).encode()).hexdigest()[:16]


def derive_seed(*parts):
    return int.from_bytes(hashlib.sha256(":".join(map(str, parts)).encode()).digest()[:6], "big")


def _from_implicit(tb):
    pkg = os.environ.get("VERIF_PKG", "\0")
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(pkg) or f.startswith("implicit/") or f.endswith(".pyx"):
            return True
        tb = tb.tb_next
    return False


def run_case(test, case):
    """Runs one case; turns exceptions that escape from implicit into violations."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return test.run(case)
        except (Violation, Skip):
            raise
        except AssertionError as e:
            raise Violation("assertion: %s" % e) from e
        except Exception as e:  # noqa
            if _from_implicit(e.__traceback__):
                tail = traceback.format_exception(type(e), e, e.__traceback__)[-4:]
                raise Violation("unexpected %s from implicit: %s\n%s"
                                % (type(e).__name__, e, "".join(tail))) from e
            if isinstance(e, (MemoryError, OSError, ImportError)):
                raise  # the environment's fault, not the code's
            # never happens with correct results: what came back cannot even be judged
            raise Violation("result of an unusable form (%s: %s)\n%s" % (
                type(e).__name__, e,
                "".join(traceback.format_exception(type(e), e, e.__traceback__)[-3:]))) from e


def load_check(cid):
    return importlib.import_module("checks." + cid.lower())


def worker(cid, shard, shards, seed, tier, outdir, budget):
    sys.path.append(HYPOTHESIS_SITE)
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    mod = load_check(cid)
    start = time.time()
    out = {"tests": {}, "failures": [], "errors": []}
    cur = os.open(os.path.join(outdir, "current-%d" % shard), os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    variant = os.environ.get("VERIF_VARIANT", "")

    tests = [t for t in mod.TESTS if t.variant is None or t.variant == variant]
    only = os.environ.get("VERIF_ONLY")
    for ti, test in enumerate(tests):
        if only and test.name not in only.split(","):
            continue
        total = test.quick if tier == "quick" else test.thorough
        n = total // shards + (1 if shard < total % shards else 0)
        stats = {"evaluations": 0, "skipped": 0, "nontrivial": [], "labels": {}, "samples": [],
                 "wall_s": 0.0, "truncated": False, "planned": n}
        out["tests"][test.name] = stats
        if n <= 0:
            continue
        t0 = time.time()
        deadline = start + budget * sum(t.weight for t in tests[: ti + 1]) / sum(t.weight for t in tests)
        seen = set()
        best = {}

        def body(case):
            now = time.time()
            if "case" in best and now - best["t"] > best["limit"]:
                return
            if now > deadline and "case" not in best:
                stats["truncated"] = True
                return
            os.ftruncate(cur, 0)
            os.pwrite(cur, json.dumps({"test": test.name, "case": case}).encode(), 0)
            try:
                res = run_case(test, case)
            except Skip:
                stats["skipped"] += 1
                return
            except Violation as e:
                if "case" not in best:
                    best["t"], best["limit"] = now, 30.0
                if "case" not in best or len(canon(case)) <= len(canon(best["case"])):
                    best["case"], best["msg"] = json.loads(canon(case)), str(e)
                raise
            if "case" in best:
                return
            stats["evaluations"] += 1
            nontrivial, labels = res if isinstance(res, tuple) else (bool(res), ())
            for label in labels:
                stats["labels"][label] = stats["labels"].get(label, 0) + 1
            if nontrivial:
                h = case_hash(case)
                if h not in seen:
                    seen.add(h)
                    stats["nontrivial"].append(h)
                    if len(stats["samples"]) < 2:
                        stats["samples"].append(case)

        fn = given(test.strategy())(body)
        fn = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                      phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
                      print_blob=False,
                      suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                             HealthCheck.large_base_example])(fn)
        fn = hypothesis.seed(derive_seed(seed, cid, test.name, shard))(fn)
        try:
            fn()
        except Exception as e:  # noqa
            if "case" in best:
                out["failures"].append({"test": test.name, "case": best["case"],
                                        "msg": best["msg"]})
            else:
                out["errors"].append({"test": test.name,
                                      "error": "".join(traceback.format_exception(e))[-4000:]})
        stats["wall_s"] = round(time.time() - t0, 3)
        os.ftruncate(cur, 0)
        _dump(outdir, shard, out)
        if out["failures"]:
            break
    out["done"] = True
    _dump(outdir, shard, out)


def _dump(outdir, shard, out):
    tmp = os.path.join(outdir, "out-%d.tmp" % shard)
    with open(tmp, "w") as fh:
        json.dump(out, fh)
    os.replace(tmp, os.path.join(outdir, "out-%d.json" % shard))


def replay(cid, path):
    with open(path) as fh:
        rec = json.load(fh)
    mod = load_check(cid)
    tests = {t.name: t for t in mod.TESTS}
    if rec["test"].startswith("known:"):
        return
    try:
        run_case(tests[rec["test"]], rec["case"])
    except Violation as e:
        print("REPLAY violation:", e)
        sys.exit(1)
    print("REPLAY ok")


def known(cid, outfile):
    """Runs the fixed probes of known findings: {id: message or None}."""
    mod = load_check(cid)
    res = {}
    for kid, fn in getattr(mod, "KNOWN", {}).items():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res[kid] = fn()
    with open(outfile, "w") as fh:
        json.dump(res, fh)


if __name__ == "__main__":
    # make `from vlib.engine import Violation` and __main__ agree on the classes
    import vlib.engine as E
    a = sys.argv[1:]
    if a[0] == "worker":
        E.worker(a[1], int(a[2]), int(a[3]), int(a[4]), a[5], a[6], float(a[7]))
    elif a[0] == "replay":
        sys.path.append(HYPOTHESIS_SITE)
        E.replay(a[1], a[2])
    elif a[0] == "known":
        sys.path.append(HYPOTHESIS_SITE)
        E.known(a[1], a[2])
