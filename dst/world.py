"""The simulated environment of one process incarnation: disk, clock, randomness, subprocess, directory order.

Everything is installed by patching the Python-level entry points that the code under test (and scipy, shutil,
pickle below it) really uses; the data still goes to a scratch folder on tmpfs, but every state-changing
operation passes through `World.op`, which counts it and decides whether a fault happens there:

  kill    the process dies (os._exit) before / after the operation, or in the middle of a write, of which only a
          prefix reaches the disk; with power=True, data never fsync'ed by this incarnation is damaged as well
  err     the operation fails with an errno (a write after a prefix was written), once or for a window of operations
"""
import builtins
import errno
import io
import os
import random
import shutil
import stat
import subprocess
import time

_real = {
    "open": io.open, "os_open": os.open, "os_write": os.write, "os_close": os.close, "replace": os.replace,
    "rename": os.rename, "remove": os.remove, "unlink": os.unlink, "mkdir": os.mkdir, "rmdir": os.rmdir,
    "fsync": os.fsync, "fdatasync": os.fdatasync, "truncate": os.truncate, "ftruncate": os.ftruncate,
    "listdir": os.listdir, "chmod": os.chmod, "utime": os.utime, "link": os.link, "symlink": os.symlink,
    "rmtree": shutil.rmtree, "time": time.time, "localtime": time.localtime, "asctime": time.asctime, "sleep": time.sleep,
    "check_output": subprocess.check_output, "run": subprocess.run, "exit": os._exit,
}
KILL_STATUS = 113

W = None  # the active world of this process


class Escape(PermissionError):
    """A write outside the scratch folder: blocked, and reported."""


def _abspath(p):
    p = os.fspath(p)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    d, b = os.path.split(os.path.abspath(p))
    return os.path.join(os.path.realpath(d), b)


class SimRaw(io.FileIO):
    """Raw file whose writes go through the world."""

    def __init__(self, world, path, mode, closefd=True):
        self._w, self._p = world, path
        super().__init__(path if not isinstance(path, tuple) else path[1], mode, closefd=closefd)
        self._name = path if not isinstance(path, tuple) else path[0]
        world.fds[self.fileno()] = self._name

    def write(self, b):
        mv = memoryview(b).cast("B")
        return self._w.do_write(self._name, mv, lambda m: io.FileIO.write(self, m), self.fileno())

    def truncate(self, size=None):
        self._w.op("truncate", self._name)
        return io.FileIO.truncate(self, size)

    def close(self):
        if not self.closed:
            try:
                self._w.fds.pop(self.fileno(), None)
            except ValueError:
                pass
        io.FileIO.close(self)


class World:
    def __init__(self, root, faults=(), clock=None, listdir_seed=None, git="ok", bufsize=None, emit=None,
                 rng_states=None, power_seed=0):
        self.root = os.path.realpath(root)
        self.faults = [dict(f) for f in faults]
        self.n = 0
        self.ops = []           # (kind, relative path, size)
        self.fired = {}
        self.fds = {}
        self.dirty = {}         # (dev, ino) -> path, for data never fsync'ed
        self.active = False
        self.escapes = []
        self.emit = emit or (lambda *a: None)
        self.bufsize = bufsize
        self.git = git
        self.rng_states = dict(rng_states or {})   # checkpoint basename -> numpy state
        self.rng_saved = {}
        self.track_rng = False
        self.power_rng = random.Random(power_seed)
        self.err_active = []
        self.on_op = None
        ck = clock or {}
        self.t = float(ck.get("t0", 1.6e9))
        self.tick = float(ck.get("tick", 0.01))
        self.jumps = list(ck.get("jumps", []))
        self.calls = 0
        self.slept = 0.0
        self.listdir_rng = random.Random(listdir_seed) if listdir_seed is not None else None

    # ---- faults ----------------------------------------------------------------------------------------------
    def rel(self, path):
        return os.path.relpath(path, self.root)

    def inside(self, path):
        return path == self.root or path.startswith(self.root + os.sep)

    def allowed_tmp(self, path):
        return path.startswith("/tmp/PyECLOUD_%d" % os.getpid())

    def guard(self, path):
        """True: simulated; False: pass through (the code's private temporary folder); else blocked."""
        if self.inside(path):
            return True
        if self.allowed_tmp(path) or path == "/dev/null":
            return False
        self.escapes.append(path)
        raise Escape(errno.EACCES, "write outside the scratch folder", path)

    def fire(self, name):
        self.fired[name] = self.fired.get(name, 0) + 1

    def _match(self, f, kind, rel):
        if f.get("kinds") and kind not in f["kinds"]:
            return False
        if f.get("path") and f["path"] not in rel:
            return False
        return True

    def decide(self, kind, path, size=0):
        """Count the operation; return the fault that hits it, or None."""
        rel = self.rel(path)
        self.n += 1
        self.ops.append((kind, rel, size))
        if self.on_op is not None:
            self.on_op(self.n, kind, rel)
        hit = None
        for f in self.faults:
            if f.get("done") or not self._match(f, kind, rel):
                continue
            f["seen"] = f.get("seen", 0) + 1
            lo = f["at"]
            hi = lo + f.get("span", 1)
            if lo <= f["seen"] < hi:
                if f["seen"] == hi - 1:
                    f["done"] = True
                hit = f
        return hit

    def die(self, f, where):
        self.fire("kill." + where)
        if f.get("power"):
            self.power_cut()
        self.emit("killed", {"n": self.n, "op": self.ops[-1], "where": where})
        self.flush()
        _real["exit"](KILL_STATUS)

    def flush(self):
        self.emit("world", {"n": self.n, "ops": self.ops, "fired": self.fired, "rng": self.rng_saved,
                            "escapes": self.escapes, "slept": self.slept})

    def raise_err(self, f, path):
        e = f.get("errno", "ENOSPC")
        self.fire("err." + e)
        code = getattr(errno, e)
        raise OSError(code, os.strerror(code), path)

    def op(self, kind, path, size=0, do=None):
        f = self.decide(kind, path, size)
        if f is None:
            return do() if do is not None else None
        if f["do"] == "err":
            self.raise_err(f, path)
        if f.get("after") and do is not None:
            do()
            self.die(f, kind + ".after")
        self.die(f, kind + ".before")

    def do_write(self, path, mv, real, fd):
        f = self.decide("write", path, len(mv))
        try:
            st = os.fstat(fd)
            self.dirty[(st.st_dev, st.st_ino)] = path
        except OSError:
            pass
        if f is None:
            n = real(mv)
            return n
        k = int(f.get("frac", 0.0) * len(mv))
        if k:
            real(mv[:k])
        if f["do"] == "err":
            self.raise_err(f, path)
        self.die(f, "write.torn" if 0 < k < len(mv) else "write")

    def synced(self, fd):
        try:
            st = os.fstat(fd)
            self.dirty.pop((st.st_dev, st.st_ino), None)
        except OSError:
            pass

    def power_cut(self):
        """Lose (part of) the data of files this incarnation wrote and never flushed to stable storage."""
        if not self.dirty:
            return
        for d, _, fs in os.walk(self.root):
            for name in sorted(fs):
                p = os.path.join(d, name)
                st = os.stat(p)
                if (st.st_dev, st.st_ino) in self.dirty and st.st_size:
                    how = self.power_rng.choice(["keep", "zero", "half", "nul"])
                    if how == "keep":
                        continue
                    self.fire("power." + how)
                    if how == "zero":
                        _real["truncate"](p, 0)
                    elif how == "half":
                        _real["truncate"](p, self.power_rng.randrange(st.st_size))
                    else:
                        k = self.power_rng.randrange(st.st_size)
                        with _real["open"](p, "r+b") as fid:
                            fid.seek(k)
                            fid.write(b"\0" * (st.st_size - k))

    # ---- seams -----------------------------------------------------------------------------------------------
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        args = (file, mode, buffering, encoding, errors, newline, closefd, opener)
        if not self.active:
            return _real["open"](*args)
        writing = any(c in mode for c in "wax+")
        if isinstance(file, int):
            if file not in self.fds or not writing:
                return _real["open"](*args)
            path, target = self.fds[file], file
        else:
            path = _abspath(file)
            target = None
            if not writing:
                if self.inside(path):
                    self.on_read(path)
                return _real["open"](*args)
            if not self.guard(path):
                return _real["open"](*args)
        rawmode = mode.replace("b", "").replace("t", "")

        def do():
            if target is not None:
                return SimRaw(self, (path, target), rawmode, closefd)
            return SimRaw(self, path, rawmode)

        if target is None:
            existed = os.path.exists(path)
            kind = "create" if ("x" in mode or not existed) else ("trunc" if "w" in mode else "openw")
            if kind == "openw":
                raw = do()
            else:
                if path.endswith(".pkl"):
                    self.on_publish(path)
                raw = self.op(kind, path, 0, do)
                st = os.fstat(raw.fileno())
                self.dirty[(st.st_dev, st.st_ino)] = path
        else:
            raw = do()
        binary = "b" in mode
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else (self.bufsize or io.DEFAULT_BUFFER_SIZE)
        buf = io.BufferedRandom(raw, size) if "+" in mode else io.BufferedWriter(raw, size)
        if binary:
            return buf
        txt = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        txt.mode = mode
        return txt

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        if not self.active or dir_fd is not None or not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            return _real["os_open"](path, flags, mode, dir_fd=dir_fd)
        p = _abspath(path)
        if not self.guard(p):
            return _real["os_open"](path, flags, mode)
        fd = self.op("create", p, 0, lambda: _real["os_open"](path, flags, mode))
        self.fds[fd] = p
        return fd

    def os_write(self, fd, data):
        if not self.active or fd not in self.fds:
            return _real["os_write"](fd, data)
        return self.do_write(self.fds[fd], memoryview(data).cast("B"), lambda m: _real["os_write"](fd, m), fd)

    def _sync(self, name, fd):
        if not self.active:
            return _real[name](fd)
        fd = fd if isinstance(fd, int) else fd.fileno()
        path = self.fds.get(fd)
        if path is None:
            return _real[name](fd)

        def do():
            self.synced(fd)
        self.op("fsync", path, 0, do)

    def _two(self, name, src, dst, **kw):
        if not self.active:
            return _real[name](src, dst, **kw)
        s, d = _abspath(src), _abspath(dst)
        if not self.guard(d) or not self.guard(s):
            return _real[name](src, dst, **kw)
        if d.endswith(".pkl"):
            self.on_publish(d)
        return self.op(name, d, 0, lambda: _real[name](src, dst, **kw))

    def _one(self, name, path, *a, **kw):
        if not self.active or kw.get("dir_fd") is not None or isinstance(path, int):
            return _real[name](path, *a, **kw)
        p = _abspath(path)
        if not self.guard(p):
            return _real[name](path, *a, **kw)
        return self.op(name, p, 0, lambda: _real[name](path, *a, **kw))

    def rmtree(self, path, *a, **kw):
        if not self.active:
            return _real["rmtree"](path, *a, **kw)
        p = _abspath(path)
        sim = self.guard(p)
        was, self.active = self.active, False
        try:
            if sim:
                self.active = True
                return self.op("rmtree", p, 0, lambda: self._raw_rmtree(path, *a, **kw))
            return _real["rmtree"](path, *a, **kw)
        finally:
            self.active = was

    def _raw_rmtree(self, path, *a, **kw):
        self.active = False
        return _real["rmtree"](path, *a, **kw)

    def listdir(self, path="."):
        r = _real["listdir"](path)
        if self.active and self.listdir_rng is not None:
            r = sorted(r)
            self.listdir_rng.shuffle(r)
        return r

    def on_publish(self, path):
        if self.track_rng:
            import numpy as np
            self.rng_saved[os.path.basename(path)] = np.random.get_state()

    def on_read(self, path):
        if self.track_rng and path.endswith(".pkl"):
            st = self.rng_states.get(os.path.basename(path))
            if st is not None:
                import numpy as np
                np.random.set_state(st)
                self.fire("rng.resumed")

    # ---- clock -----------------------------------------------------------------------------------------------
    def now(self):
        self.calls += 1
        self.t += self.tick
        for j in self.jumps:
            if j[0] == self.calls:
                self.t += j[1]
                self.fire("clock.jump" if j[1] > 0 else "clock.back")
        return self.t

    def sleep(self, dt):
        self.slept += dt
        self.t += dt

    def localtime(self, t=None):
        return _real["localtime"](self.now() if t is None else t)

    def asctime(self, t=None):
        return _real["asctime"](_real["localtime"](self.now()) if t is None else t)

    def subprocess(self, name, cmd, *a, **kw):
        text = cmd if isinstance(cmd, str) else " ".join(map(str, cmd))
        if not self.active or "git" not in text.split("/")[-1].split()[0:1]:
            return _real[name](cmd, *a, **kw)
        self.fire("git." + self.git)
        if self.git == "missing":
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", "git")
        if self.git == "fail":
            if name == "run" and not kw.get("check"):
                return subprocess.CompletedProcess(cmd, 128, b"", b"fatal")
            raise subprocess.CalledProcessError(128, cmd)
        out = b"" if self.git == "empty" else b"0123abc\n"
        if name == "run":
            return subprocess.CompletedProcess(cmd, 0, out, b"")
        return out

    # ---- life cycle ------------------------------------------------------------------------------------------
    def __enter__(self):
        global W
        W = self
        self.active = True
        return self

    def __exit__(self, *a):
        self.active = False
        return False


def _dispatch(method, real):
    def f(*a, **kw):
        if W is None or not W.active:
            return real(*a, **kw)
        return getattr(W, method)(*a, **kw)
    f.__name__ = getattr(real, "__name__", method)
    return f


def install():
    """Patch the entry points once per process (before PyECLOUD is imported)."""
    sim_open = _dispatch("open", _real["open"])
    builtins.open = sim_open
    io.open = sim_open
    os.open = _dispatch("os_open", _real["os_open"])
    os.write = _dispatch("os_write", _real["os_write"])
    os.listdir = _dispatch("listdir", _real["listdir"])
    for n in ("fsync", "fdatasync"):
        setattr(os, n, (lambda nm: lambda fd: W._sync(nm, fd) if W is not None else _real[nm](fd))(n))
    for n in ("replace", "rename", "link", "symlink"):
        setattr(os, n, (lambda nm: lambda s, d, **k: W._two(nm, s, d, **k) if W is not None else _real[nm](s, d, **k))(n))
    for n in ("remove", "unlink", "mkdir", "rmdir", "truncate", "chmod", "utime"):
        setattr(os, n, (lambda nm: lambda p, *a, **k: W._one(nm, p, *a, **k) if W is not None else _real[nm](p, *a, **k))(n))
    for n in ("chmod", "utime", "unlink", "rmdir", "remove", "mkdir", "open"):
        r = _real.get("os_open" if n == "open" else n)
        for s in (os.supports_fd, os.supports_dir_fd, os.supports_follow_symlinks):
            if r in s:
                s.add(getattr(os, n))
    shutil.rmtree = _dispatch("rmtree", _real["rmtree"])
    shutil._USE_CP_SENDFILE = False
    time.time = _dispatch("now", _real["time"])
    time.localtime = _dispatch("localtime", _real["localtime"])
    time.sleep = _dispatch("sleep", _real["sleep"])
    time.asctime = _dispatch("asctime", time.asctime)
    _real["ctime"] = time.ctime
    time.ctime = lambda t=None: _real["ctime"](t) if (t is not None or W is None or not W.active) else _real["ctime"](W.now())

    def check_output(cmd, *a, **k):
        return W.subprocess("check_output", cmd, *a, **k) if W is not None else _real["check_output"](cmd, *a, **k)

    def run(cmd, *a, **k):
        return W.subprocess("run", cmd, *a, **k) if W is not None else _real["run"](cmd, *a, **k)
    subprocess.check_output = check_output
    subprocess.run = run
    _install_rng()


# ---- randomness ------------------------------------------------------------------------------------------------
RNG_HOOK = None   # None: the plain seeded global generator
RNG_CALLS = 0


def _install_rng():
    import numpy as np

    def wrap(name):
        real = getattr(np.random, name)

        def draw(*a, **k):
            global RNG_CALLS
            RNG_CALLS += 1
            r = real(*a, **k)
            if RNG_HOOK is not None:
                r = RNG_HOOK(name, r)
            return r
        draw.__name__ = name
        return draw
    for name in ("rand", "randn", "random", "random_sample", "uniform", "normal", "standard_normal", "lognormal",
                 "poisson", "exponential"):
        setattr(np.random, name, wrap(name))


def adversarial_rng(seed, p_call=0.2, n_elem=2, which=("lo", "hi")):
    """Legal but extreme draws at a sparse, seeded subset of positions: uniforms next to 0 and next to 1."""
    import numpy as np
    r = random.Random(seed)
    counts = {"rng.lo": 0, "rng.hi": 0}

    def hook(name, val):
        if name not in ("rand", "random", "random_sample") or r.random() > p_call:
            return val
        k = r.choice(which)
        v = {"lo": 0.0, "lo2": 2.0 ** -53, "hi": 1.0 - 2.0 ** -53}[k if k != "lo" or r.random() < .5 else "lo2"]
        counts["rng." + k[:2]] += 1
        if np.ndim(val) == 0:
            return v
        flat = val.reshape(-1)
        for _ in range(n_elem):
            if flat.size:
                flat[r.randrange(flat.size)] = v
        return val
    hook.counts = counts
    return hook
