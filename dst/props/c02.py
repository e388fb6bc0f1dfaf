"""C02: a simulation resumed from a checkpoint computes what the uninterrupted simulation would have computed."""
import copy
import os

from .. import common, drive, proc, resume
from ..proc import Violation

LEVEL = "exploration"
TIERS = {"quick": dict(runs=240, cap=60, shrink=60), "thorough": dict(runs=8000, cap=1500, shrink=180)}
RULE = ("a run draws a set-up with checkpoints and 1-3 stop points (after the n-th checkpoint plus some steps); each stop "
        "ends the process (memory is lost), a fresh process restarts; given the random stream position of the checkpoint, "
        "every later step (macroparticles, field, stream) must equal the uninterrupted run's; non-trivial when at least one "
        "restart resumed from a checkpoint and then executed at least 5 steps; distinct by feature signature and stops")
STATES = "distinct (step, state digest) pairs reached by resumed processes"
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = common.ASSUME + ["the position in the random stream is carried over by the simulated environment (PyECLOUD leaves it to the user)",
                               "single-grid Shortley-Weller PIC (the telescopic and FFT solvers cannot be checkpointed)"]


def gen(r, tier):
    c = resume.gen_ckpt(r, nonunif_t=0.1)
    return dict(c=c, stops=[[r.choice([1, 1, 2, 3]), r.choice([0, 1, 7, 30])] for _ in range(r.choice([1, 1, 2, 3]))],
                envs=[common.gen_env(r) for _ in range(3)])


def lives(plan, top):
    """The uninterrupted run, then the chain of interrupted ones."""
    c = plan["c"]
    ref = resume.reference(c, top)
    root = os.path.join(top, "cut")
    os.makedirs(root)
    drive.prepare(c, root)
    rng, hist, resumed, steps, last = {}, [], 0, 0, None
    for k, stop in enumerate(plan["stops"] + [None]):
        out = proc.incarnation(resume.life, (c, root, plan["envs"][k % 3], (), rng, stop))
        last = proc.raise_if_bad(out, "restart %d" % k if k else "first run")
        m = out[2]
        w = m["world"][-1]
        rng.update(w["rng"])
        hist.append((k, m.get("d", []), m.get("pub", []), last["first"]))
        if last["first"] >= 0:
            resumed += 1
            steps += last["steps"]
        if last["ended"]:
            break
    return ref, root, hist, resumed, steps, last


def run(plan, emit):
    with proc.Scratch() as top:
        ref, root, hist, resumed, steps, last = lives(plan, top)
        ck = None
        for k, digs, pubs, first in hist:
            if k and ck is not None and first != ck:
                raise Violation("restart did not resume at the last checkpoint", resumed_at=first, checkpoint_at=ck, restart=k)
            resume.compare_digests(ref, digs, "restart %d" % k if k else "the interrupted run")
            if pubs:
                ck = pubs[-1][0]
        d = drive.diff(ref["res"]["state"], last["state"])
        if d:
            raise Violation("final state of the resumed run differs", diff=d)
        return dict(faults={"process.stop": len(hist) - 1}, probes={"resumed": resumed},
                    states=sorted(set(h for _, dg, _, f in hist if f >= 0 for _, h in dg))[:300],
                    sim_time=2 * ref["res"]["tt"], steps=ref["res"]["steps"] + steps, ops=len(ref["ops"]),
                    nontrivial=resumed > 0 and steps >= 5, sig=[common.feature_sig(plan["c"]), plan["stops"]],
                    sample=dict(resumed=resumed, steps=steps, checkpoints=len(ref["pub"])))


def shrink(plan):
    n = len(plan["stops"])
    for i in range(n):
        if n > 1:
            yield dict(plan, stops=plan["stops"][:i] + plan["stops"][i + 1:])
    yield from common.shrink_key(plan)
    S = plan["c"]["sim"]
    for k in ("copy_main_outp_DT", "copy_main_outp_folder"):
        if k in S:
            p = copy.deepcopy(plan)
            del p["c"]["sim"][k]
            if k == "copy_main_outp_folder":
                p["c"]["sim"].pop("copy_main_outp_DT", None)
            yield p
    if S.get("save_mat_every", 1) != 1:
        p = copy.deepcopy(plan)
        p["c"]["sim"]["save_mat_every"] = 1
        yield p
    for i, s in enumerate(plan["stops"]):
        for t in ([1, s[1]], [s[0], 0]):
            if t != s:
                yield dict(plan, stops=plan["stops"][:i] + [t] + plan["stops"][i + 1:])
