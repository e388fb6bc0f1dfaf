"""C12: simulations averaging their charge densities over processes agree on one field."""
import copy
import os
import random
import threading

import numpy as np

from .. import cfg, common, drive, proc, shadow
from ..proc import Violation

LEVEL = "exploration"
TIERS = {"quick": dict(runs=130, cap=60, shrink=60), "thorough": dict(runs=5000, cap=1200, shrink=180)}
RULE = ("a run draws a set-up and 2-4 participants that differ in initial clouds and random numbers, a scheduling policy (random, starving one participant, bursts) and a completion "
        "mode for every collective operation (buffered or waiting for its partners); every participant is a thread that runs only when the simulated scheduler says so, with its own "
        "random numbers; density and field of every participant at every refresh are compared with the average of independently deposited densities and a second solver; "
        "non-trivial when at least 3 refreshes of different densities were compared and the scheduler switched at least 20 times; distinct by feature signature, participants, policy and seed of the schedule")
STATES = "distinct (participants, policy, order in which the participants reached a collective operation, completion modes) reached"
REAL = common.REAL
STUB = ["the MPI communicator is simulated (matching of collective operations by order, buffered or synchronous completion, copies of raw bytes)"] + common.STUB
ASSUMPTIONS = common.ASSUME + ["the Poisson solver of PyPIC is taken as it is (a second instance computes the expected field)",
                               "all participants describe the same chamber, grid and time axis; none of them dies; collective operations are those of MPI on one communicator"]


def gen(r, tier):
    c = cfg.gen(r, nonunif_t=.1, clouds=r.choice([0, 0, 0, 1, 2]), small=r.random() < .6, em=r.random() < .15)
    S, bs, M = c["sim"], c["beam"]["b_spac"], c["mach"]
    c["paths"] = "abs"
    S["Dt_sc"] = r.choice([S["Dt"], 1.5 * S["Dt"], 4 * S["Dt"], 0.2e-9, 0.5e-9])
    S["t_sc_ON"] = r.choice([0., 0., 0., 0.4 * bs, 10 * S["Dt"]])
    pic = None
    if not S.get("flag_em_tracking"):
        pic = r.choice([None, None, None, "FiniteDifferences_Staircase"] + (["FFT_PEC_Boundary", "FFT_OpenBoundary"] if M["chamb_type"] == "rect" else []))
    if pic:
        S["PyPICmode"] = pic
    if r.random() < .4:
        M["Nel_init_unif"] = 2e9
        S["nel_mp_ref_0"] = 2e9 / 300
    n = r.choice([2, 2, 3, 4])
    parts = []
    for k in range(n):
        p = dict(seed=r.randrange(1 << 30), nel=r.choice([1., 1., .3, 2., 0.]) * M["Nel_init_unif"])
        p["x"] = r.choice([1., 1., .5, .2])
        parts.append(p)
    return dict(c=c, parts=parts, env=common.gen_env(r), policy=r.choice(["random", "random", "burst", "starve", "turn"]), sched=r.randrange(1 << 30), cut=1 << 30,
                eager=r.choice([0., .5, .5, 1.]))


class Sched:
    """One thread runs at a time; who comes next is decided here."""

    def __init__(self, n, policy, seed, cut):
        self.n, self.policy, self.r, self.cut = n, policy, random.Random(seed), cut
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.main = threading.Semaphore(0)
        self.ready = [lambda: True] * n
        self.done = [False] * n
        self.err = [None] * n
        self.rng = [None] * n
        self.dead = False
        self.last, self.left, self.switches, self.decisions = -1, 0, 0, 0
        self.victim = self.r.randrange(n)

    def wait(self, me, ready=lambda: True):
        """Called by a participant: let others run; return when ready() and chosen."""
        self.ready[me] = ready
        self.rng[me] = np.random.get_state()
        self.main.release()
        self.sem[me].acquire()
        if self.dead:
            raise SystemExit
        np.random.set_state(self.rng[me])

    def pick(self, can):
        self.decisions += 1
        if self.decisions > self.cut:
            return can[0]
        if self.policy == "starve":
            rest = [k for k in can if k != self.victim]
            if self.r.random() < .02:
                self.victim = self.r.randrange(self.n)
            return self.r.choice(rest or can)
        if self.policy == "burst":
            if self.left > 0 and self.last in can:
                self.left -= 1
                return self.last
            self.left = self.r.choice([1, 5, 30])
        if self.policy == "turn":
            return min(can, key=lambda k: (k - self.last - 1) % self.n)
        return self.r.choice(can)

    def go(self, body):
        def thread(k):
            self.sem[k].acquire()
            try:
                if not self.dead:
                    np.random.set_state(self.rng[k])
                    body(k)
            except SystemExit:
                pass
            except BaseException as e:
                self.err[k] = e
            self.done[k] = True
            self.main.release()
        threading.stack_size(128 << 20)
        T = [threading.Thread(target=thread, args=(k,), daemon=True) for k in range(self.n)]
        for k, t in enumerate(T):
            self.rng[k] = np.random.get_state()
            t.start()
        bad = None
        while not all(self.done):
            can = [k for k in range(self.n) if not self.done[k] and self.ready[k]()]
            if not can:
                bad = Violation("the participants wait for each other forever", waiting=[k for k in range(self.n) if not self.done[k]], finished=sum(self.done))
                break
            k = self.pick(can)
            self.switches += k != self.last
            self.last = k
            self.sem[k].release()
            self.main.acquire()
            if self.err[k] is not None:
                bad = self.err[k]
                break
        self.dead = True
        for k in range(self.n):
            self.sem[k].release()
        if bad is not None:
            raise bad


def raw(b):
    """The memory of an MPI buffer argument."""
    if isinstance(b, (list, tuple)):
        b = b[0]
    b = np.asarray(b)
    if not b.flags.c_contiguous:
        raise Violation("a buffer that is not contiguous was handed to the communicator")
    return b.reshape(-1).view(np.uint8)


class World:
    def __init__(self, sched, n, eager, seed):
        self.s, self.n, self.eager, self.r = sched, n, eager, random.Random(seed)
        self.ops = []
        self.nb = dict(buffered=0, synchronous=0)
        self.orders = set()

    def op(self, rank, idx, what):
        while len(self.ops) <= idx:
            self.ops.append(dict(what=None, data={}, out=None, got=set(), order=[], eager=[self.r.random() < self.eager for _ in range(self.n)]))
        o = self.ops[idx]
        if o["what"] is None:
            o["what"] = what
        elif o["what"] != what:
            raise Violation("the participants are in different collective operations", first=str(o["what"]), then=str(what), number=idx)
        o["order"].append(rank)
        if len(o["order"]) == self.n:
            self.orders.add("%s|%s" % (what[0], "".join(map(str, o["order"]))))
        return o


class Comm:
    """The collective operations of a communicator, as one participant sees them."""

    def __init__(self, w, rank):
        self.w, self.rank, self.size, self.k = w, rank, w.n, 0

    def Get_size(self):
        return self.size

    def Get_rank(self):
        return self.rank

    def _enter(self, *what):
        self.w.s.wait(self.rank)
        o = self.w.op(self.rank, self.k, what)
        self.k += 1
        return o

    def _eager(self, o):
        e = o["eager"][self.rank]
        self.w.nb["buffered" if e else "synchronous"] += 1
        return e

    def _all(self, o):
        self.w.s.wait(self.rank, lambda: len(o["data"]) == self.size)

    def _collect(self, o, mine, root):
        """Everybody's contribution at the root (everywhere when root is None)."""
        o["data"][self.rank] = mine
        if root is None or self.rank == root:
            self._all(o)
            o["got"].add(self.rank)
            return [o["data"][k] for k in range(self.size)]
        if not self._eager(o):
            self.w.s.wait(self.rank, lambda: root in o["got"])
        return None

    def _spread(self, o, mine, root):
        if self.rank == root:
            o["out"] = (mine,)
            if not self._eager(o):
                self.w.s.wait(self.rank, lambda: len(o["got"]) == self.size - 1)
            return mine
        self.w.s.wait(self.rank, lambda: o["out"] is not None)
        o["got"].add(self.rank)
        return o["out"][0]

    def _fill(self, buf, data):
        b = raw(buf)
        if len(b) < len(data):
            raise Violation("a message was truncated: the receive buffer is too small", bytes=len(b), message=len(data))
        b[:len(data)] = data

    # -- buffers
    def Gather(self, sendbuf, recvbuf, root=0):
        o = self._enter("Gather", root)
        got = self._collect(o, raw(sendbuf).copy(), root)
        if got is not None:
            if len({len(g) for g in got}) > 1:
                raise Violation("the participants exchange densities of different sizes", sizes=[len(g) for g in got])
            self._fill(recvbuf, np.concatenate(got))

    def Allgather(self, sendbuf, recvbuf):
        got = self._collect(self._enter("Allgather"), raw(sendbuf).copy(), None)
        self._fill(recvbuf, np.concatenate(got))

    def Bcast(self, buf, root=0):
        o = self._enter("Bcast", root)
        data = self._spread(o, raw(buf).copy(), root)
        if self.rank != root:
            self._fill(buf, data)

    def _sum(self, got):
        out = got[0].copy()
        for g in got[1:]:
            out = out + g
        return out

    def Reduce(self, sendbuf, recvbuf, op=None, root=0):
        got = self._collect(self._enter("Reduce", root), np.array(sendbuf), root)
        if got is not None:
            self._fill(recvbuf, raw(self._sum(got)))

    def Allreduce(self, sendbuf, recvbuf, op=None):
        got = self._collect(self._enter("Allreduce"), np.array(sendbuf), None)
        self._fill(recvbuf, raw(self._sum(got)))

    # -- objects
    def gather(self, obj, root=0):
        return self._collect(self._enter("gather", root), copy.deepcopy(obj), root)

    def allgather(self, obj):
        return self._collect(self._enter("allgather"), copy.deepcopy(obj), None)

    def bcast(self, obj, root=0):
        return copy.deepcopy(self._spread(self._enter("bcast", root), copy.deepcopy(obj), root))

    def reduce(self, obj, op=None, root=0):
        got = self._collect(self._enter("reduce", root), copy.deepcopy(obj), root)
        return None if got is None else self._sum([np.asarray(g) for g in got])

    def allreduce(self, obj, op=None):
        return self._sum([np.asarray(g) for g in self._collect(self._enter("allreduce"), copy.deepcopy(obj), None)])

    def Barrier(self):
        self._collect(self._enter("Barrier"), None, None)

    barrier = Barrier


def grid(sc):
    p = sc.PyPICobj
    dx = getattr(p, "dx", None)
    return dx if dx is not None else p.Dh, getattr(p, "dy", None) if getattr(p, "dy", None) is not None else p.Dh


def deposit(sc, d, w):
    rho = np.zeros((sc.Nxg, sc.Nyg))
    dx, dy = grid(sc)
    if d["N"]:
        fx, fy = (d["x_mp"] - sc.bias_x) / dx, (d["y_mp"] - sc.bias_y) / dy
        i, j = np.floor(fx).astype(int), np.floor(fy).astype(int)
        hx, hy = fx - i, fy - j
        for a, b, f in ((0, 0, (1 - hx) * (1 - hy)), (1, 0, hx * (1 - hy)), (0, 1, (1 - hx) * hy), (1, 1, hx * hy)):
            np.add.at(rho, (i + a, j + b), w * f)
    return rho / (dx * dy)


EPSMU = 8.8541878128e-12 * 1.25663706212e-6


class Witness:
    """One participant: its own density and the field it ended up with, at every refresh."""

    def __init__(self, br, c, rank, book):
        self.br, self.c, self.rank, self.book = br, c, rank, book

    def before_save(self, i):
        sim, S = self.br.sim, self.c["sim"]
        sc, bt = sim.spacech_ele, sim.beamtim
        if i != 0 or not sc.last_recomputation_check or not float(bt.tt_curr) > S["t_sc_ON"]:
            return
        own = {}
        st = [(shadow.take(cl.MP_e), float(cl.MP_e.charge)) for cl in sim.cloud_list]
        own["rho"] = sum(deposit(sc, d, d["nel_mp"] * q) for d, q in st)
        now = dict(rho=np.array(sc.rho), efx=np.array(sc.efx), efy=np.array(sc.efy))
        if S.get("flag_em_tracking"):
            for k, v in (("Ax", "vx_mp"), ("Ay", "vy_mp")):
                own[k] = sum(deposit(sc, d, d["nel_mp"] * q * d[v] * EPSMU) for d, q in st)
                now[k] = np.array(getattr(sc, "state_" + k).rho)
                now[k + "f"] = np.array(getattr(sc, "state_" + k).efx)
        self.book.setdefault(int(bt.ii_curr), {})[self.rank] = (own, now)


def judge(book, n, twin, c, probes):
    for ii in sorted(book):
        b = book[ii]
        if len(b) < n:
            raise Violation("not all participants refreshed the field at the step", step=ii, refreshed=sorted(b))
        for k in b[0][0]:
            owns = [b[r][0][k] for r in range(n)]
            avg = sum(owns) / n
            scale = max(np.max(np.abs(o)) for o in owns)
            for r in range(n):
                if np.any(np.abs(b[r][1][k] - avg) > 1e-8 * scale):
                    raise Violation("the density of a participant is not the average of all", step=ii, participant=r, which=k, participants=n,
                                    total=float(b[r][1][k].sum()), average=float(avg.sum()), own=[float(o.sum()) for o in owns])
            twin.rho = avg.copy()
            twin.solve()
            for f, src in (("efx", "efx"), ("efy", "efy")) if k == "rho" else ((k + "f", "efx"),):
                e = np.array(getattr(twin, src))
                for r in range(n):
                    if np.any(np.abs(b[r][1][f] - e) > 1e-6 * max(np.max(np.abs(e)), 1e-30)):
                        raise Violation("the field of a participant is not that of the average density", step=ii, participant=r, array=f, participants=n)
                    if not np.array_equal(b[r][1][f], b[0][1][f], equal_nan=True):
                        raise Violation("the participants do not agree on the field", step=ii, participant=r, array=f)
        probes["refreshes"] += 1
        probes["different"] += any(not np.array_equal(b[0][0]["rho"], b[r][0]["rho"]) for r in range(1, n))


def _life(emit, plan, root):
    n = len(plan["parts"])
    cs, dirs = [], []
    for k, p in enumerate(plan["parts"]):
        c = copy.deepcopy(plan["c"])
        c["seed"] = p["seed"]
        M = c["mach"]
        M["Nel_init_unif"] = p["nel"]
        if not p["nel"]:
            M["init_unif_flag"] = 0
        for q in ("x_max_init_unif", "x_min_init_unif"):
            M[q] = M[q] * p["x"]
        d = os.path.join(root, "p%d" % k)
        os.makedirs(d)
        drive.prepare(c, d)
        cs.append(c)
        dirs.append(d)
    with common.mkworld(root, plan["env"]) as w:
        s = Sched(n, plan["policy"], plan["sched"], plan["cut"])
        net = World(s, n, plan["eager"], plan["sched"] + 1)
        book, steps, sims, brs = {}, [0] * n, [None] * n, []

        # the simulations are built one after the other: until they are given the communicator, they have no part in each other
        rng = []
        for k in range(n):
            sims[k] = drive.build(cs[k], dirs[k])
            rng.append(np.random.get_state())
            br = shadow.Bracket(sims[k])
            br.listeners.append(Witness(br, cs[k], k, book))
            brs.append(br)
            sims[k].spacech_ele.comm = Comm(net, k)
        from PyECLOUD.space_charge_class import space_charge
        sc = sims[0].spacech_ele
        S = cs[0]["sim"]
        twin = space_charge(copy.deepcopy(sims[0].chamb), S["Dh_sc"], Dt_sc=S["Dt_sc"], PyPICmode=S.get("PyPICmode", "FiniteDifferences_ShortleyWeller"),
                            sparse_solver=getattr(sc.PyPICobj, "sparse_solver", "scipy_slu")).PyPICobj

        def body(k):
            np.random.set_state(rng[k])
            while True:
                s.wait(k)
                if not drive.step(sims[k]):
                    return
                steps[k] += 1
        s.go(body)
        for br in reversed(brs):
            br.close()
        probes = dict(refreshes=0, different=0)
        judge(book, n, twin, cs[0], probes)
        w.active = False
        common.check_escapes(w)
        return dict(steps=sum(steps), probes=probes, switches=s.switches, nb=net.nb, tt=float(sims[0].beamtim.tt_curr), fired=dict(w.fired),
                    states=sorted("%d|%s|%s|%g" % (n, plan["policy"], o, plan["eager"]) for o in net.orders), collectives=len(net.ops))


def run(plan, emit):
    with proc.Scratch() as top:
        r = proc.raise_if_bad(proc.incarnation(_life, (plan, top)), "run with a communicator")
    f = dict(r["fired"])
    f["collective." + "buffered"], f["collective.synchronous"], f["schedule.switch"] = r["nb"]["buffered"], r["nb"]["synchronous"], r["switches"]
    return dict(faults=f, probes={"refreshes": r["probes"]["refreshes"], "of different densities": r["probes"]["different"], "collective operations": r["collectives"]},
                states=r["states"], sim_time=r["tt"], steps=r["steps"], nontrivial=r["probes"]["different"] >= 3 and r["switches"] >= 20,
                sig=[common.feature_sig(plan["c"]), plan["c"]["sim"].get("PyPICmode"), len(plan["parts"]), plan["policy"], plan["sched"]],
                sample=dict(steps=r["steps"], refreshes=r["probes"]["refreshes"], switches=r["switches"], collectives=r["collectives"]))


def shrink(plan):
    if len(plan["parts"]) > 2:
        for k in range(len(plan["parts"])):
            yield dict(plan, parts=plan["parts"][:k] + plan["parts"][k + 1:])
    for cut in (0, 10, 100):
        if plan["cut"] > cut:
            yield dict(plan, cut=cut)
            break
    if plan["eager"] not in (0., 1.):
        yield dict(plan, eager=1.)
    if plan["c"]["sim"].get("PyPICmode"):
        p = copy.deepcopy(plan)
        del p["c"]["sim"]["PyPICmode"]
        yield p
    yield from common.shrink_key(plan)
