#!/usr/bin/env python3
"""Mutation campaign: small source mutants of implicit that build and pass the stable tests are
run against the checks that judge their file; the ones nobody reports are listed for reading.

usage: mutate.py [-n COUNT] [--seed S] [--files SUBSTR,..] [-j 6] OUT.jsonl   (resumes OUT.jsonl)
Everything happens in scratch clones under /tmp/mut; /repo is not touched.
"""
import argparse
import io
import json
import os
import random
import re
import subprocess
import sys
import threading
import tokenize
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import mkbug  # noqa: E402

ROOT = mkbug.ROOT = "/tmp/mut"
PY = mkbug.PY


def build(w, k):
    rc, out = mkbug.sh([PY, f"{VERIF}/vlib/build.py", "fast"],
                       env={"VERIF_REPO": w, "VERIF_BUILD": f"{ROOT}/b{k}"})
    if rc:
        return None
    pkg = out.split()[0]
    for so in mkbug.glob.glob(f"{pkg}/implicit/**/*.so", recursive=True):
        mkbug.shutil.copy2(so, os.path.join(w, os.path.relpath(so, pkg)))
    return pkg


M = "C01 C02 C03 C04 C05 C10 C11 C13 C21 C25 C29 C20 C28"
CHECKS = {
    "implicit/cpu/matrix_factorization_base.py": M,
    "implicit/cpu/topk.pyx": "C01 C02 C03 C04 C05 C28",
    "implicit/cpu/select.h": "C01 C02 C03 C04 C05 C28",
    "implicit/cpu/als.py": "C06 C07 C08 C09 C10 C11 C12 C13 C22 C25 C26 C30 C21 C29",
    "implicit/cpu/_als.pyx": "C06 C07 C08 C09 C11 C22 C25 C28 C29",
    "implicit/cpu/bpr.pyx": "C23 C09 C13 C22 C25 C26 C28 C30",
    "implicit/cpu/bpr.h": "C23 C09",
    "implicit/cpu/lmf.pyx": "C24 C09 C13 C22 C25 C26 C28 C30",
    "implicit/nearest_neighbours.py": "C14 C15 C16 C02 C03 C04 C10 C13 C21 C22 C09 C28 C29",
    "implicit/_nearest_neighbours.pyx": "C14 C15 C02 C04 C29 C28",
    "implicit/nearest_neighbours.h": "C14 C15 C02 C04 C29 C28",
    "implicit/evaluation.pyx": "C17 C18 C19 C09 C28 C21",
    "implicit/ann/annoy.py": "C20 C30 C02 C04 C13 C21",
    "implicit/ann/faiss.py": "C20 C30 C02 C04 C13 C21",
    "implicit/ann/nmslib.py": "C20 C30 C02 C04 C13 C21",
    "implicit/utils.py": "C01 C02 C03 C04 C05 C09 C16 C20 C22 C25 C21",
    "implicit/recommender_base.py": "C03 C13 C10 C01 C02 C21",
    "implicit/als.py": "C30", "implicit/bpr.py": "C30", "implicit/lmf.py": "C30",
    "implicit/approximate_als.py": "C30",
    "implicit/datasets/_download.py": "C27 C32", "implicit/datasets/lastfm.py": "C27 C32",
    "implicit/datasets/million_song_dataset.py": "C27 C32", "implicit/datasets/movielens.py": "C27 C32",
    "implicit/datasets/reddit.py": "C27 C32", "implicit/datasets/sketchfab.py": "C27 C32",
}
SWAP = {"<": ["<="], "<=": ["<"], ">": [">="], ">=": [">"], "==": ["!="], "!=": ["=="], "+": ["-"],
        "-": ["+"], "*": ["/"], "/": ["*"], "+=": ["-=", "="], "-=": ["+="], "*=": ["="], "//": ["*"],
        "%": ["*"], "and": ["or"], "or": ["and"], "True": ["False"], "False": ["True"],
        "not": [""], "max": ["min"], "min": ["max"], "is": ["is not"], "break": ["pass"],
        "continue": ["pass"], "user_factors": ["item_factors"], "item_factors": ["user_factors"],
        "users": ["items"], "items": ["users"], "user": ["item"], "item": ["user"],
        "userid": ["0"], "itemid": ["0"], "copy": ["view"], "float64": ["float32"],
        "N": ["(N+1)", "(N-1)"], "K": ["(K+1)", "(K-1)"], "shape": [], "alpha": ["1"],
        "regularization": ["0"], "K1": ["1"], "B": ["1"]}


def mutants_of(path, text):
    lines = text.split("\n")
    out = []
    toks = []
    try:
        for t in tokenize.generate_tokens(io.StringIO(text).readline):
            toks.append(t)
    except (tokenize.TokenError, IndentationError, SyntaxError):
        pass
    if path.endswith(".h"):
        toks = []
        for i, l in enumerate(lines):
            if l.strip().startswith(("//", "#", "*", "/*")):
                continue
            for m in re.finditer(r"[A-Za-z_]\w*|\d+(?:\.\d*)?|<=|>=|==|!=|\+\+|--|->|::|<<|>>|\+=|-=|\*=|&&|\|\||[-+*/<>]", l):
                toks.append(("h", m.group(0), (i + 1, m.start()), (i + 1, m.end()), l))
    seen = set()
    for t in toks:
        s, (r, c0), (r2, c1) = t[1], t[2], t[3]
        line = lines[r - 1]
        if r != r2 or line.lstrip().startswith(("import", "from", "cimport", "def ", "cdef ", "cpdef ", "#", "@", "class ")) and not re.search(r"=\s", line):
            continue
        subs = list(SWAP.get(s, []))
        if re.fullmatch(r"\d+", s):
            subs += [str(int(s) + 1)] + (["0"] if s != "0" else [])
        elif re.fullmatch(r"\d+\.\d*", s):
            subs += ["0.5" if float(s) == 1 else "1.0"]
        for x in subs:
            out.append((r, line, line[:c0] + x + line[c1:], f"{s}->{x}"))
    instr = False
    for i, l in enumerate(lines):
        q = l.count('"""')
        if instr or q:
            if q % 2:
                instr = not instr
            continue
        st = l.strip()
        if not st or st.startswith(("#", "import", "from", "cimport", "cdef", "cpdef", "def", "class", "@", "//", "return", "if", "for", "while", "else", "elif", "with", "try", "except")):
            continue
        ind = l[:len(l) - len(l.lstrip())]
        if path.endswith(".h"):
            if st.endswith(";") and not re.match(r"(const )?\w[\w:<>]* \w+( =.*)?;", st) and "}" not in st and "{" not in st:
                out.append((i + 1, l, ind + ";", "delete"))
        elif re.match(r"[\w.\[\], :]+\s*([-+*/|]?=)[^=]|[\w.]+\(.*\)$|raise |continue$|break$", st) and st.count("(") == st.count(")") and st.count("[") == st.count("]"):
            out.append((i + 1, l, ind + "pass", "delete"))
    uniq = []
    for m in out:
        if (m[0], m[2]) not in seen and m[1] != m[2]:
            seen.add((m[0], m[2]))
            uniq.append({"file": path, "line": m[0], "old": m[1], "new": m[2], "op": m[3]})
    return uniq


def tests(w, k):
    x = f"{ROOT}/junit{k}.xml"
    if os.path.exists(x):
        os.unlink(x)
    try:
        rc, out = mkbug.sh(
            [PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "no:xdist", "--timeout=120",
             "--deselect", "tests/evaluation_test.py::test_evaluate_movielens_100k", "tests"], cwd=w, timeout=300,
            env={"OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "2", "PYTHONHASHSEED": "0",
                 "OMP_WAIT_POLICY": "passive", "PYTHONDONTWRITEBYTECODE": "1"})
    except subprocess.TimeoutExpired:
        return False
    return rc == 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("-n", type=int, default=10**9)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--files", default="")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("-j", type=int, default=6)
    ap.add_argument("--stage", default="both", help="tests: only find survivors; or the path of a "
                    "file of survivors to run against the checks")
    args = ap.parse_args()
    muts = []
    for f in CHECKS:
        if args.files and not any(x in f for x in args.files.split(",")):
            continue
        muts += mutants_of(f, open(os.path.join("/repo", f)).read())
    print(len(muts), "mutants", file=sys.stderr)
    if args.list:
        for m in muts:
            print(m["file"], m["line"], m["op"], m["new"].strip())
        return
    random.Random(args.seed).shuffle(muts)
    muts = muts[:args.n]
    if os.path.exists(args.stage):
        muts = [json.loads(l) for l in open(args.stage)]
        muts = [dict(m, survived=1) for m in muts if m["res"] == "SURVIVED"]
    done = set()
    if os.path.exists(args.out):
        for l in open(args.out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    muts = [m for m in muts if (m["file"], m["line"], m["new"]) not in done]
    q = Queue()
    for k in range(args.j):
        q.put(k)
    lock, chk = threading.Lock(), threading.Semaphore(3)

    def run(m):
        k = q.get()
        try:
            w = mkbug.worker_dir(k)
            p = os.path.join(w, m["file"])
            ls = open(p).read().split("\n")
            # (the tree could have changed since the mutant was made)
            at = [i for i, x in enumerate(ls) if x == m["old"]]
            if not at:
                raise RuntimeError("line is gone")
            ls[min(at, key=lambda i: abs(i + 1 - m["line"]))] = m["new"]
            open(p, "w").write("\n".join(ls))
            if m["file"].endswith(".py"):
                try:
                    compile("\n".join(ls), p, "exec")
                except SyntaxError:
                    m["res"] = "nobuild"
                    return
            pkg = build(w, k)
            if pkg is None:
                m["res"] = "nobuild"
            elif not m.get("survived") and not tests(w, k):
                m["res"] = "tests"
            else:
                m["res"] = "SURVIVED"
                if args.stage == "tests":
                    return
                m["res"] = "MISSED"
                env = {"VERIF_REPO": w, "VERIF_BUILD": f"{ROOT}/b{k}", "VERIF_EVIDENCE": f"{ROOT}/ev{k}",
                       "VERIF_REPLAYS": f"{ROOT}/rp{k}"}
                with chk:
                    for c in CHECKS[m["file"]].split():
                        try:
                            rc, out = mkbug.sh([f"{VERIF}/check", c, "--seed", "1"], cwd=VERIF, env=env)
                        except subprocess.TimeoutExpired:
                            rc = 124
                        if rc:
                            m["res"] = f"{c}:{rc}"
                            break
        except Exception as e:  # noqa
            m["res"] = "error " + repr(e)[:200]
        finally:
            mkbug.sh(["git", "-C", w, "checkout", "-q", "-f", "--", "."])
            q.put(k)
            with lock, open(args.out, "a") as fh:
                fh.write(json.dumps(m) + "\n")

    with ThreadPoolExecutor(args.j) as ex:
        list(ex.map(run, muts))


if __name__ == "__main__":
    main()
