"""C10: a simulation is a function of its input files and its random stream: environment and neighbours do not matter."""
import copy
import os

import numpy as np

from .. import cfg, common, drive, proc
from ..proc import Violation

LEVEL = "exploration"
TIERS = {"quick": dict(runs=160, cap=60, shrink=60), "thorough": dict(runs=6000, cap=1500, shrink=180)}
RULE = ("a run draws 1-3 random set-ups and an interleaving of their time steps inside one process (the random stream is "
        "swapped at each switch), in a random environment; each is compared step by step and file by file with itself "
        "running alone in a fresh process in another environment; non-trivial when two simulations alternated at least "
        "5 times or one ran after another one was built and discarded; distinct by feature signature and schedule")
STATES = "distinct per-step state digests (macroparticles, field, random stream) over all simulations"
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = common.ASSUME


def twist(c):
    for m in c["mats"].values():
        if m["kind"] == "sey":
            m["dmax"] *= .6
        elif m["kind"] == "chamber":
            m.update(rx=m["rx"] * .97, ry=m["ry"] * 1.04, rot=m["rot"] + .01, useed=m["useed"] + 1)
        elif m["kind"] == "profile":
            m["lam"] *= 1.3
        elif m["kind"] == "xsection":
            m["scale"] = .3


def gen(r, tier):
    n = r.choice([1, 2, 2, 2, 3])
    special = r.choice([dict(sey="from_file"), dict(chamb="polyg"), dict(cross=True), dict(nonunif_t=1., track="Boris", sec=False)])
    cs = [cfg.gen(r, small=r.random() < .6, **(special if i == 0 and r.random() < .35 else {})) for i in range(n)]
    if n > 1 and r.random() < .4:   # near twins: same set-up, one parameter apart
        cs[1] = copy.deepcopy(cs[0])
        cs[1]["seed"] = r.randrange(1 << 30)
        if r.random() < .4:
            cs[1]["sey"]["del_max"] = 1.1
        if r.random() < .6:     # same file names, other contents
            for c in cs[:2]:
                c["paths"] = "rel"
            twist(cs[1])
    return dict(cs=cs, envs=[common.gen_env(r) for _ in range(2)], order=r.choice(["build_all", "build_all", "lazy"]),
                sched=[r.randrange(n) for _ in range(60)], burst=r.choice([1, 3, 10]), second=r.random() < .35)


def _solo(emit, c, root, env):
    drive.prepare(c, root)
    with common.mkworld(root, env) as w:
        sim = drive.build(c, root)
        dig = [drive.digest(sim)]
        while drive.step(sim):
            dig.append(drive.digest(sim))
        w.active = False
        common.check_escapes(w)
        return dig, common.outputs(c, root), float(sim.beamtim.tt_curr)


def _inter(emit, plan, top):
    cs = plan["cs"]
    roots = [os.path.join(top, "i%d" % i) for i in range(len(cs))]
    for c, root in zip(cs, roots):
        os.makedirs(root)
        drive.prepare(c, root)
    n = len(cs)
    sims, rng, dig, done = [None] * n, [None] * n, [[] for _ in cs], [False] * n
    switches, cur = 0, None
    with common.mkworld(top, plan["envs"][1]) as w:

        def make(i):
            if plan["second"]:
                # an unrelated simulation lived and died in this process before
                nb = os.path.join(top, "n%d" % i)
                os.makedirs(nb)
                drive.prepare(cs[(i + 1) % n], nb)
                s = drive.build(cs[(i + 1) % n], nb)
                for _ in range(7):
                    drive.step(s)
                del s
            sims[i] = drive.build(cs[i], roots[i])
            dig[i].append(drive.digest(sims[i]))
            rng[i] = np.random.get_state()

        if plan["order"] == "build_all":
            for i in range(n):
                make(i)
        k = 0
        while not all(done):
            i = plan["sched"][k % len(plan["sched"])] if plan["sched"] else 0
            if done[i]:
                i = done.index(False)
            if sims[i] is None:
                make(i)
            os.chdir(roots[i])
            np.random.set_state(rng[i])
            if cur != i:
                switches += 1
                cur = i
            for _ in range(plan["burst"]):
                if not drive.step(sims[i]):
                    done[i] = True
                    break
                dig[i].append(drive.digest(sims[i]))
            rng[i] = np.random.get_state()
            k += 1
        w.active = False
        common.check_escapes(w)
        fired = dict(w.fired)
    return dig, [common.outputs(c, r) for c, r in zip(cs, roots)], switches, fired


def run(plan, emit):
    with proc.Scratch() as top:
        cs = plan["cs"]
        solo = []
        for i, c in enumerate(cs):
            root = os.path.join(top, "s%d" % i)
            os.makedirs(root)
            solo.append(proc.raise_if_bad(proc.incarnation(_solo, (c, root, plan["envs"][0])), "alone"))
        dig, outs, switches, fired = proc.raise_if_bad(proc.incarnation(_inter, (plan, top)), "together")
        for i, c in enumerate(cs):
            sd, so, _ = solo[i]
            if len(sd) != len(dig[i]):
                raise Violation("a simulation takes a different number of steps depending on its environment", sim=i,
                                alone=len(sd), together=len(dig[i]))
            for k, (a, b) in enumerate(zip(sd, dig[i])):
                if a != b:
                    raise Violation("a simulation computes something else when other simulations share the process or the environment differs",
                                    sim=i, step=k - 1, of=len(sd) - 1)
            d = drive.diff(so, outs[i])
            if d:
                raise Violation("output file depends on the environment or on other simulations in the process", sim=i, diff=d)
        st = sorted(set(x for s in solo for x in s[0]))
        return dict(faults=fired, probes={"switches": switches, "sims": len(cs)}, states=st[:400],
                    sim_time=sum(s[2] for s in solo) * 2, steps=2 * sum(len(s[0]) for s in solo),
                    nontrivial=switches >= 5 or plan["second"], sig=[[common.feature_sig(c) for c in cs], plan["sched"][:12]],
                    sample=dict(steps=[len(s[0]) for s in solo], switches=switches))


def shrink(plan):
    n = len(plan["cs"])
    for i in range(n):
        if n > 1:
            p = copy.deepcopy(plan)
            del p["cs"][i]
            p["sched"] = [x - (x > i) for x in p["sched"] if x != i] or [0]
            yield p
    if plan["second"]:
        yield dict(plan, second=False)
    if plan["burst"] < 10:
        yield dict(plan, burst=10)
    for i in range(n):
        for c in common.shrink_cfg(plan["cs"][i]):
            p = copy.deepcopy(plan)
            p["cs"][i] = c
            yield p
    yield from common.shrink_list(plan, "sched")
