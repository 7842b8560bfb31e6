"""Prepare the code under test: a private snapshot of /repo's working tree (sources, CLI and built extensions) in a
scratch directory outside /repo, with the Cython extensions rebuilt if the built ones do not belong to these sources."""
import os, sys, shutil, subprocess, hashlib, tempfile, glob

REPO = os.environ.get("SWITSS_SIM_REPO", "/repo")
PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))


class PrepError(Exception):
    """The tree cannot be prepared (does not build): an error of the check, never a violation."""


def _stamp(root):
    files = []
    for d, _, fs in os.walk(os.path.join(root, "switss")):
        files += [os.path.relpath(os.path.join(d, f), root) for f in fs if f.endswith((".pyx", ".pxd"))]
    out = []
    for f in sorted(files, key=lambda s: s.encode()) + ["setup.py"]:
        with open(os.path.join(root, f), "rb") as fh:
            out.append("%s  %s\n" % (hashlib.sha256(fh.read()).hexdigest(), f))
    return "".join(out)


def prepare(scratch):
    """Snapshot into scratch/src; returns (src dir, info)."""
    src = os.path.join(scratch, "src")
    os.makedirs(src)
    stamp = _stamp(REPO)
    fresh = False
    try:
        with open(os.path.join(REPO, "build", "ext.sha256")) as f:
            fresh = f.read() == stamp
    except OSError:
        pass
    for m in ("graph", "stack", "treaps"):
        if not glob.glob(os.path.join(REPO, "switss/utils/%s.cpython-*.so" % m)):
            fresh = False

    def ignore(d, names):
        return [n for n in names if n == "__pycache__" or n.endswith((".c", ".cpp")) or
                (not fresh and ".cpython-" in n and n.endswith(".so"))]
    shutil.copytree(os.path.join(REPO, "switss"), os.path.join(src, "switss"), ignore=ignore)
    shutil.copytree(os.path.join(REPO, "bin"), os.path.join(src, "bin"))
    shutil.copy(os.path.join(REPO, "setup.py"), src)
    if not fresh:
        env = dict(os.environ, CYTHON_FORCE_REGEN="1", PYTHONDONTWRITEBYTECODE="1", HOME="/root", LANG="C.UTF-8")
        r = subprocess.run([PY, "-W", "ignore", "setup.py", "build_ext", "--inplace", "--force", "-j3"], cwd=src,
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise PrepError("building the extensions failed:\n" + r.stdout.decode(errors="replace")[-3000:])
        shutil.rmtree(os.path.join(src, "build"), ignore_errors=True)
    return src, {"extensions": "taken from the repository's build" if fresh else "rebuilt for this check"}


def shim(scratch):
    """Compile the LD_PRELOAD shim that puts rand()/srand()/time() behind the simulator."""
    so = os.path.join(scratch, "simshim.so")
    r = subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", so, os.path.join(HERE, "shim.c")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise PrepError("compiling the shim failed: " + r.stdout.decode(errors="replace"))
    return so
