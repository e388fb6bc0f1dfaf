"""Forked processes: one per simulated run, and one more per process incarnation inside a run.

A crash really loses the memory of the incarnation; what survives is the scratch folder.  Everything a child wants
to report travels through a pipe as pickled (kind, payload) messages."""
import os
import pickle
import resource
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

from . import boot, world

_fork, _exit, _time = os.fork, os._exit, time.monotonic
OSWRITE = world._real["os_write"]
CPU_LIMIT = int(os.environ.get("VERIF_RUN_CPU", "100"))


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, what, **detail):
        Exception.__init__(self, what)
        self.what, self.detail = what, detail


class HarnessError(Exception):
    pass


def _here(fn):
    return fn.startswith(boot.VERIF + "/dst/") or fn.endswith("/check.py")


def classify(tb):
    """'sut' when the innermost frame that is ours or the repository's belongs to the repository."""
    origin = "harness"
    for fr in traceback.extract_tb(tb):
        fn = os.path.realpath(fr.filename)
        if fn == os.path.join(boot.VERIF, "dst", "world.py"):
            continue
        if fn.startswith(boot.REPO + "/") or "/PyPIC/" in fn or fn.endswith(".pyx"):
            origin = "sut"
        elif _here(fn):
            origin = "harness"
    return origin


def describe(exc):
    tb = exc.__traceback__
    frames = [("%s:%d" % (os.path.basename(f.filename), f.lineno), f.name) for f in traceback.extract_tb(tb)]
    return {"type": type(exc).__name__, "msg": str(exc)[:300], "origin": classify(tb),
            "where": ["%s %s" % f for f in frames[-6:]], "tb": traceback.format_exc()[-3000:]}


def _quiet():
    if os.environ.get("VERIF_DEBUG") == "1":
        return
    sys.stdout.flush()
    n = os.open("/dev/null", os.O_RDWR)
    os.dup2(n, 1)
    os.dup2(n, 2)


class Child:
    """A forked child running fn(emit, *args)."""

    def __init__(self, fn, args=(), cpu=None, quiet=True):
        r, w = os.pipe()
        sys.stdout.flush()
        self.t0 = _time()
        self.pid = _fork()
        if self.pid == 0:
            code = 1
            try:
                os.close(r)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                if cpu:
                    resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                if quiet:
                    _quiet()

                def emit(kind, payload=None):
                    data = pickle.dumps((kind, payload), protocol=4)
                    data = struct.pack("<Q", len(data)) + data
                    mv = memoryview(data)
                    while mv:
                        k = OSWRITE(w, mv)
                        mv = mv[k:]
                try:
                    res = fn(emit, *args)
                    if world.W is not None:
                        world.W.active = False
                    emit("result", res)
                except Violation as e:
                    if world.W is not None:
                        world.W.active = False
                    emit("violation", {"what": e.what, "detail": e.detail})
                except BaseException as e:
                    if world.W is not None:
                        world.W.active = False
                    emit("exception", describe(e))
                code = 0
            except BaseException:
                code = 1
            finally:
                try:
                    if world.W is not None:
                        world.W.active = False
                    shutil.rmtree("/tmp/PyECLOUD_%d" % os.getpid(), ignore_errors=True)
                finally:
                    _exit(code)
        os.close(w)
        self.fd = r
        self.buf = bytearray()
        self.msgs = []
        self.eof = False
        self.status = None

    def pump(self):
        """Read what is there (call when readable)."""
        d = os.read(self.fd, 1 << 20)
        if not d:
            self.eof = True
            os.close(self.fd)
            self.status = os.waitpid(self.pid, 0)[1]
            shutil.rmtree("/tmp/PyECLOUD_%d" % self.pid, ignore_errors=True)
        self.buf += d
        while len(self.buf) >= 8:
            n = struct.unpack("<Q", self.buf[:8])[0]
            if len(self.buf) < 8 + n:
                break
            self.msgs.append(pickle.loads(bytes(self.buf[8:8 + n])))
            del self.buf[:8 + n]
        return self.eof

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass

    def wait(self, timeout):
        end = _time() + timeout
        while not self.eof:
            left = end - _time()
            if left <= 0:
                self.kill()
                while not self.pump():
                    pass
                self.status = -1
                return self
            if select.select([self.fd], [], [], left)[0]:
                self.pump()
        return self

    def outcome(self):
        """(kind, payload, messages): result | violation | exception | killed | signal | timeout"""
        d = {}
        for k, p in self.msgs:
            d.setdefault(k, []).append(p)
        for k in ("result", "violation", "exception"):
            if k in d:
                return k, d[k][-1], d
        if self.status == -1:
            return "timeout", None, d
        if os.WIFSIGNALED(self.status):
            return "signal", signal.Signals(os.WTERMSIG(self.status)).name, d
        if os.WEXITSTATUS(self.status) == world.KILL_STATUS:
            return "killed", (d.get("killed") or [None])[-1], d
        return "exit", os.WEXITSTATUS(self.status), d


def incarnation(fn, args=(), timeout=400, cpu=None):
    """Run fn(emit, *args) in a forked process and wait for it."""
    return Child(fn, args, cpu=cpu or CPU_LIMIT).wait(timeout).outcome()


UNREADABLE = ("TypeError", "ValueError", "IndexError", "ZeroDivisionError", "FloatingPointError", "OverflowError", "KeyError")


def unreadable(p):
    """An observer tripped over data of the simulation (None or an array of another length where a number was due, a record that is not
    there): that state of the simulation is itself the failure.  A missing attribute of an object is not: the seam may have moved."""
    return p["origin"] == "harness" and (p["type"] in UNREADABLE or p["type"] == "AttributeError" and "'NoneType' object" in p["msg"])


def raise_if_bad(out, what):
    """Turn an unexpected ending of an incarnation into a violation or a harness error."""
    kind, p, d = out
    if kind == "result":
        return p
    if kind == "violation":
        raise Violation(p["what"], **p["detail"])
    if kind == "exception":
        if p["origin"] == "sut":
            raise Violation("%s: unexpected %s: %s" % (what, p["type"], p["msg"]), where=p["where"])
        if unreadable(p):
            raise Violation("%s: the simulation is in a state no witness can read (%s: %s)" % (what, p["type"], p["msg"]), where=p["where"])
        raise HarnessError("%s: %s" % (what, p["tb"]))
    if kind == "signal" and p in ("SIGSEGV", "SIGABRT", "SIGFPE", "SIGXCPU", "SIGBUS"):
        raise Violation("%s: process died with %s" % (what, p), **({"hang": True} if p == "SIGXCPU" else {}))
    raise HarnessError("%s: process ended with %s %r" % (what, kind, p))


SCRATCH = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="verif-dst-", dir=SCRATCH)
        return self.path

    def __exit__(self, *a):
        if world.W is not None:
            world.W.active = False
        world._real["rmtree"](self.path, ignore_errors=True)
        return False
