"""Builds the implicit package from /repo's current working tree, outside /repo.

The sources are synchronised (by content) into .build/<variant>/src, compiled incrementally with
the project's own CMakeLists.txt, and the finished package is put in .build/<variant>/pkg-<hash>.
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD_ROOT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
VENV_PY = "/opt/venv/bin/python"

VARIANTS = {
    # what users get
    "release": {"CMAKE_BUILD_TYPE": "Release"},
    # same code, cheaper to compile (no floating point semantics differ between -O1 and -O3)
    "fast": {"CMAKE_BUILD_TYPE": "Release", "CMAKE_CXX_FLAGS_RELEASE": "-O1 -DNDEBUG"},
    "asan": {
        "CMAKE_BUILD_TYPE": "Release",
        "CMAKE_CXX_FLAGS_RELEASE": "-O1 -g1 -fsanitize=address -fno-omit-frame-pointer -D_GLIBCXX_SANITIZE_VECTOR",
        "CMAKE_MODULE_LINKER_FLAGS": "-fsanitize=address",
    },
}


class BuildError(Exception):
    pass


def _sources():
    out = {}
    for base, dirs, files in os.walk(os.path.join(REPO, "implicit")):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        for f in sorted(files):
            if f.endswith((".so", ".pyc", ".o")):
                continue
            path = os.path.join(base, f)
            with open(path, "rb") as fh:
                out[os.path.relpath(path, REPO)] = fh.read()
    with open(os.path.join(REPO, "CMakeLists.txt"), "rb") as fh:
        out["CMakeLists.txt"] = fh.read()
    return out


def _env():
    env = dict(os.environ)
    env["PATH"] = "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    env.update(CC="/usr/bin/gcc", CXX="/usr/bin/g++", IMPLICIT_DISABLE_CUDA="1", LANG="C.UTF-8",
               PYTHONDONTWRITEBYTECODE="1")
    for k in ("PYTHONPATH", "CFLAGS", "CXXFLAGS", "LDFLAGS", "LD_PRELOAD", "MAKEFLAGS"):
        env.pop(k, None)
    return env


def _sync(sources, dst):
    want = set()
    for rel, data in sources.items():
        path = os.path.join(dst, rel)
        want.add(path)
        try:
            with open(path, "rb") as fh:
                if fh.read() == data:
                    continue
        except OSError:
            pass
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as fh:
            fh.write(data)
    for base, _, files in os.walk(dst):
        for f in files:
            path = os.path.join(base, f)
            if path not in want:
                os.unlink(path)


def _compile(src, bld, variant):
    cmake_modules = glob.glob("/opt/venv/lib/python3*/site-packages/skbuild/resources/cmake")
    args = [
        "cmake", "-G", "Ninja", "-S", src, "-B", bld,
        "-DCMAKE_MODULE_PATH=" + (cmake_modules[0] if cmake_modules else ""),
        "-DPYTHON_EXECUTABLE=" + VENV_PY,
        "-DPYTHON_INCLUDE_DIR=/usr/include/python3.12",
        "-DPYTHON_LIBRARY=/usr/lib/x86_64-linux-gnu/libpython3.12.so",
        "-DPYTHON_VERSION_STRING=3.12.3", "-DSKBUILD=TRUE", "-Wno-author",
    ] + ["-D%s=%s" % kv for kv in VARIANTS[variant].items()]
    for cmd in (args, ["cmake", "--build", bld]):
        r = subprocess.run(cmd, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, check=False)
        if r.returncode:
            raise BuildError(r.stdout[-6000:])


def build(variant="fast"):
    """Returns (package directory, source hash)."""
    sources = _sources()
    h = hashlib.sha256()
    for rel in sorted(sources):
        h.update(rel.encode() + b"\0" + hashlib.sha256(sources[rel]).digest())
    digest = h.hexdigest()[:16]
    root = os.path.join(BUILD_ROOT, variant)
    os.makedirs(root, exist_ok=True)
    pkg = os.path.join(root, "pkg-" + digest)
    with open(os.path.join(root, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(pkg, "complete")):
            os.utime(pkg)
            return pkg, digest
        src, bld = os.path.join(root, "src"), os.path.join(root, "bld")
        _sync(sources, src)
        try:
            _compile(src, bld, variant)
        except BuildError:
            # once more from scratch, in case the incremental state was the problem
            shutil.rmtree(bld, ignore_errors=True)
            _compile(src, bld, variant)
        tmp = pkg + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.copytree(os.path.join(src, "implicit"), os.path.join(tmp, "implicit"))
        for so in glob.glob(os.path.join(bld, "implicit", "**", "*.so"), recursive=True):
            shutil.copy2(so, os.path.join(tmp, os.path.relpath(so, bld)))
        with open(os.path.join(tmp, "complete"), "w") as fh:
            fh.write(digest)
        shutil.rmtree(pkg, ignore_errors=True)
        os.rename(tmp, pkg)
        old = sorted(glob.glob(os.path.join(root, "pkg-*")), key=os.path.getmtime)[:-4]
        for d in old:
            shutil.rmtree(d, ignore_errors=True)
    return pkg, digest


if __name__ == "__main__":
    for v in sys.argv[1:] or ["fast"]:
        print(*build(v))
