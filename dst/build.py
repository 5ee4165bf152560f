"""Builds, outside /repo, what the simulation needs: the Fortran extensions of the current
working tree and the allocator seam.  Results are cached by content hash."""
import ast
import concurrent.futures
import hashlib
import glob
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("DST_REPO", "/repo")
CACHE = os.path.join(ROOT, ".build")
SUFFIX = sysconfig.get_config_var("EXT_SUFFIX")
INCLUDE = re.compile(r"""^\s*include\s*['"]([^'"]+)['"]""", re.I | re.M)


class BuildError(Exception):
    pass


def extensions():
    with open(os.path.join(REPO, "setup.py")) as f:
        tree = ast.parse(f.read())
    for node in ast.walk(tree):
        if isinstance(node, ast.Call) and getattr(node.func, "id", "") == "Extension":
            args = dict(zip(("name", "sources"), node.args))
            args.update((k.arg, k.value) for k in node.keywords)
            yield ast.literal_eval(args["name"]), ast.literal_eval(args["sources"])


def closure(sources):
    seen, todo = [], [os.path.normpath(os.path.join(REPO, s)) for s in sources]
    while todo:
        p = todo.pop(0)
        if p in seen or not os.path.exists(p):
            continue
        seen.append(p)
        with open(p, errors="replace") as f:
            for inc in INCLUDE.findall(f.read()):
                todo.append(os.path.normpath(os.path.join(os.path.dirname(p), inc)))
    return seen


def digest(name, files):
    h = hashlib.sha256((name + sys.version + "v3").encode())
    import numpy
    h.update(numpy.__version__.encode())
    for p in sorted(files):
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def build_fortran(name, sources):
    mod = name.rsplit(".", 1)[1]
    files = closure(sources)
    if not files:
        raise BuildError("no sources for " + name)
    out = os.path.join(CACHE, "%s-%s%s" % (mod, digest(name, files), SUFFIX))
    if os.path.exists(out):
        return out
    tmp = tempfile.mkdtemp(prefix="f2py-", dir=CACHE)
    try:
        src = os.path.join(tmp, "src")
        for p in files:  # keep relative includes working
            dst = os.path.join(src, os.path.relpath(p, REPO))
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copy(p, dst)
        main = [os.path.relpath(os.path.join(REPO, s), REPO) for s in sources]
        work = os.path.join(src, os.path.dirname(main[0]))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        for k in ("PYTHONPATH", "VERIF_SEED"):
            env.pop(k, None)
        r = subprocess.run([sys.executable, "-m", "numpy.f2py", "-c", "--backend", "meson",
                            "--build-dir", os.path.join(tmp, "meson"), "-I" + work, "-m", mod]
                           + [os.path.join(src, m) for m in main],
                           cwd=tmp, env=env, capture_output=True, text=True)
        so = glob.glob(os.path.join(tmp, mod + "*.so"))
        if r.returncode != 0 or not so:
            raise BuildError("%s: f2py failed\n%s" % (name, (r.stdout + r.stderr)[-3000:]))
        os.replace(so[0], out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def build_memseam():
    import numpy
    src = os.path.join(HERE, "memseam.c")
    h = hashlib.sha256((sys.version + numpy.__version__).encode())
    with open(src, "rb") as f:
        h.update(f.read())
    out = os.path.join(CACHE, "memseam-%s%s" % (h.hexdigest()[:24], SUFFIX))
    if os.path.exists(out):
        return out
    tmp = out + ".%d.tmp" % os.getpid()
    r = subprocess.run(["gcc", "-O2", "-fPIC", "-shared", "-I", sysconfig.get_paths()["include"],
                        "-I", numpy.get_include(), src, "-o", tmp], capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("memseam: " + r.stderr[-3000:])
    os.replace(tmp, out)
    return out


def build_all():
    os.makedirs(CACHE, exist_ok=True)
    exts = list(extensions())
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        seam = ex.submit(build_memseam)
        futs = [(n, ex.submit(build_fortran, n, s)) for n, s in exts]
        return {"memseam": seam.result(), "ext": {n: f.result() for n, f in futs}}


if __name__ == "__main__":
    print(build_all())
