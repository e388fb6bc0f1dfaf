"""Build the native modules of the tree under test out of tree, and make `PyECLOUD` importable from it.

The f2py command lines are read from the tree's own Makefile (make -n), the Cython extensions from its
setup.py.  Nothing is written in the repository: sources are copied to a scratch folder and the products
are cached in /verif/.native/<module>-<content hash>/ (git-ignored)."""
import concurrent.futures
import glob
import hashlib
import importlib.machinery
import importlib.util
import os
import shlex
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
CACHE = os.environ.get("VERIF_NATIVE", os.path.join(VERIF, ".native"))
PY = "/opt/venv/bin/python"
F2PY = "/opt/venv/bin/f2py"

ENV = {
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "NUMBA_NUM_THREADS": "1",
    "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "PYTHONHASHSEED": "0",
}


def reexec_with_env():
    """Fixed hash seed, one thread per process, the venv interpreter."""
    want = dict(ENV)
    if "VERIF_HASHSEED" in os.environ:
        want["PYTHONHASHSEED"] = os.environ["VERIF_HASHSEED"]
    if os.environ.get("VERIF_REEXEC") == "1":
        return
    env = dict(os.environ)
    env.update(want)
    env["VERIF_REEXEC"] = "1"
    env["PATH"] = "/opt/venv/bin:" + env.get("PATH", "/usr/bin:/bin")
    os.execve(PY, [PY, "-B", "-W", "ignore"] + sys.argv, env)


def _digest(files, extra):
    h = hashlib.sha256(repr(extra).encode())
    for f in sorted(files):
        h.update(os.path.basename(f).encode() + b"\0")
        with open(f, "rb") as fid:
            h.update(hashlib.sha256(fid.read()).digest())
    return h.hexdigest()[:24]


def _jobs():
    lines = subprocess.run(["make", "-n", "all", "F2PY=" + F2PY], cwd=REPO, check=True,
                           stdout=subprocess.PIPE, text=True).stdout.splitlines()
    jobs = []
    for line in lines:
        cmd = shlex.split(line)
        if cmd[:1] != [F2PY] or "-m" not in cmd:
            continue
        name = cmd[cmd.index("-m") + 1]
        srcs = [os.path.join(REPO, a) for a in cmd if a.endswith(".f")]
        jobs.append(([name], cmd, srcs))
    pyx = sorted(glob.glob(REPO + "/*.pyx"))
    extra = sorted(glob.glob(REPO + "/*.pxd") + glob.glob(REPO + "/*.h")
                   + [f for f in glob.glob(REPO + "/*.c") if not os.path.exists(f[:-2] + ".pyx")])
    jobs.append(([os.path.basename(p)[:-4] for p in pyx], [PY, "setup.py", "build_ext", "-i", "-f"],
                 pyx + extra + [REPO + "/setup.py"]))
    return jobs


def _build_one(job):
    names, cmd, srcs = job
    out = os.path.join(CACHE, names[0] + "-" + _digest(srcs, cmd))
    if os.path.isdir(out) and all(glob.glob(os.path.join(out, n + ".*.so")) for n in names):
        return out, False
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="pyecl-native-")
    try:
        for s in srcs:
            shutil.copy(s, tmp)
        env = dict(os.environ)
        env["PATH"] = "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin"
        p = subprocess.run(cmd, cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace")
        sos = [glob.glob(os.path.join(tmp, n + ".*.so")) for n in names]
        if p.returncode != 0 or not all(sos):
            raise RuntimeError("native build of %s failed:\n%s" % (names, p.stdout[-3000:]))
        stage = tempfile.mkdtemp(prefix=".stage-", dir=CACHE)
        for group in sos:
            for so in group:
                shutil.copy(so, stage)
        try:
            os.rename(stage, out)
        except OSError:
            shutil.rmtree(stage, ignore_errors=True)  # somebody else built it meanwhile
        return out, True
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def build_native():
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(_build_one, _jobs()))
    return [r[0] for r in res], sum(r[1] for r in res)


class _Finder:
    """`PyECLOUD` is the tree under test, with the freshly built native modules in front of it."""

    def __init__(self, native_dirs):
        self.paths = list(native_dirs) + [REPO]

    def find_spec(self, fullname, path=None, target=None):
        if fullname != "PyECLOUD":
            return None
        return importlib.util.spec_from_file_location(
            "PyECLOUD", os.path.join(REPO, "__init__.py"), submodule_search_locations=self.paths)


def install():
    dirs, built = build_native()
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder(dirs))
    return built
