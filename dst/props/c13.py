"""C13: a disk error is either reported or harmless; it never costs earlier durable results nor falsifies later ones."""
import copy
import os

from .. import common, drive, proc, resume
from ..proc import Violation
from . import c01, c02, c03

LEVEL = "fault_enumeration"
TIERS = {"quick": dict(runs=260, cap=75, shrink=60), "thorough": dict(runs=12000, cap=2400, shrink=180)}
RULE = ("a run draws a set-up with checkpoints and 1-3 process incarnations whose disk operations fail (ENOSPC, EIO, EACCES, "
        "EDQUOT, EMFILE) at a seeded operation, once or for a window of operations, a write possibly after a part was "
        "written; either the error is reported to the caller as an OSError or the run ends with the outputs of a fault-free "
        "run; after a reported error all result files on disk are complete snapshots, the same process can go on, and a "
        "later process resumes at the last durable checkpoint and ends with the fault-free outputs; non-trivial when a fault fired")
STATES = "distinct (operation kind, file class, errno, outcome) combinations"
REAL = common.REAL
STUB = common.STUB
ASSUMPTIONS = c02.ASSUMPTIONS
PATHS = {"ckpt": "ckpt", "out": "Pyecltest", "safe": "safe", "log": "log", "progress": "progress", "mp": "MP_state", "state": "simulation_state",
         "video": "video"}


def gen(r, tier):
    c = resume.gen_ckpt(r, nonunif_t=0.05, small=r.random() < .3)
    c03.gen_outputs(r, c)
    if r.random() < .5:
        c["sim"]["logfile_path"] = "@/log.txt"
    if r.random() < .5:
        c["sim"]["progress_path"] = "@/progress"
    fs = []
    for _ in range(r.choice([1, 1, 2, 3])):
        f = dict(do="err", at=1, span=r.choice([1, 1, 2, 5, 50]), frac=r.choice([0., .4, .9]), errno=r.choice(["ENOSPC", "ENOSPC", "EIO", "EACCES", "EDQUOT", "EMFILE"]))
        mode = r.choice(["any", "any", "ckpt", "ckpt", "out", "safe", "log", "progress", "mp", "state", "kind"])
        if mode == "any":
            f["u"] = r.random()
        else:
            if mode == "kind":
                f["kinds"] = r.choice([["replace", "rename"], ["remove", "unlink"], ["fsync"], ["create", "trunc"], ["mkdir"]])
            else:
                f["path"] = PATHS[mode]
            f["at"] = int(2 ** (r.random() * 5))
        fs.append(f)
    return dict(c=c, faults=fs, envs=[common.gen_env(r) for _ in range(3)], retry=r.random() < .5)


def faulty(emit, c, root, env, faults, rng, retry):
    """Like resume.life, but an OSError is an outcome; optionally go on in the same process after it."""
    with common.mkworld(root, env, faults=faults, emit=emit, rng_states=rng) as w:
        w.track_rng = True
        where = "init"
        try:
            sim = drive.build(c, root)
            where = "step"
            emit("start", int(sim.beamtim.ii_curr))
            last = resume.ckpts(root)
            while drive.step(sim):
                cur = resume.ckpts(root)
                if cur != last:
                    last = cur
                    emit("pub", (int(sim.beamtim.ii_curr), cur, w.n))
                emit("d", (int(sim.beamtim.ii_curr), drive.digest(sim)))
        except OSError as e:
            if not w.fired:
                raise
            emit("oserror", (where, repr(e)[:200], w.ops[-1]))
            w.flush()
            if where == "step" and retry:
                # the disk works again and the caller goes on with the same object
                w.active = False
                w.faults = []
                w.rng_saved = {}
                n = 0
                try:
                    import shutil
                    while drive.step(sim) and n < 40:
                        n += 1
                        drive.digest(sim)
                except Exception as e2:
                    raise Violation("after a reported disk error the simulation object is unusable", error="%s: %s" % (type(e2).__name__, e2),
                                    first_error=repr(e)[:150], where=proc.describe(e2)["where"])
                return dict(reported=True, went_on=n)
            return dict(reported=True, went_on=-1)
        w.flush()
        return dict(reported=False, state=drive.full_state(sim))


def run(plan, emit):
    c = plan["c"]
    with proc.Scratch() as top:
        ref = resume.reference(c, top)
        root = os.path.join(top, "cut")
        os.makedirs(root)
        drive.prepare(c, root)
        nref = len(ref["ops"])
        durable, rng, fired, states, steps, had, gone_on, reported = -1, {}, {}, [], 0, set(), 0, 0
        done = None
        for k, f in enumerate(plan["faults"] + [None]):
            faults = []
            if f is not None:
                f = dict(f)
                if "u" in f:
                    f["at"] = 1 + int(f.pop("u") * nref)
                faults = [f]
            last = f is None
            # going on in the same process advances the files on disk, so it ends the scenario
            retry = plan["retry"] and k == len(plan["faults"]) - 1
            out = proc.incarnation(faulty, (c, root, plan["envs"][k % 3], faults, rng, retry))
            m = out[2]
            wd = (m.get("world") or [{}])[0]
            rng.update(wd.get("rng", {}))
            for a, b in wd.get("fired", {}).items():
                fired[a] = fired.get(a, 0) + b
            for first in m.get("start", ())[:1]:
                if first < durable:
                    raise Violation("the restart lost progress after a disk error", resumed_at=first, durable=durable)
                durable = max(durable, first)
            for pb in m.get("pub", ()):
                durable = max(durable, pb[0])
            resume.compare_digests(ref, m.get("d", ()), "incarnation %d" % k)
            steps += len(m.get("d", ()))
            res = proc.raise_if_bad(out, "incarnation %d with a disk error" % k if faults else "incarnation %d" % k)
            hit = any(x.startswith("err.") for x in wd.get("fired", {}))
            if res["reported"]:
                reported += 1
                op = m["oserror"][-1][2]
                states.append("%s|%s|%s|reported" % (op[0], c01.klass(op[1]), f["errno"]))
                if res["went_on"] >= 0:
                    gone_on = res["went_on"]
                    break
                c01.check_disk(c, root, ref, "reported error", had)
                continue
            if hit:
                states.append("%s|survived" % f["errno"])
            done = res
            break
        if done is not None:
            d = drive.diff(ref["res"]["state"], done["state"])
            if d:
                raise Violation("final state after disk errors differs from a fault-free run's", diff=d)
            d = drive.diff(ref["out"], common.outputs(c, root)) or resume.files(c, root, ref["root"])
            if d:
                raise Violation("the run ended without reporting the disk error, but its output differs from a fault-free run's"
                                if not reported else "output after disk errors differs from a fault-free run's", diff=d)
        return dict(faults=fired, probes={"reported": reported, "went_on": gone_on > 0}, states=states, sim_time=2 * ref["res"]["tt"],
                    steps=ref["res"]["steps"] + steps, ops=nref, nontrivial=bool(states),
                    sig=[common.feature_sig(c), states], sample=dict(outcomes=states, went_on=gone_on))


def shrink(plan):
    n = len(plan["faults"])
    for i in range(n):
        if n > 1:
            yield dict(plan, faults=plan["faults"][:i] + plan["faults"][i + 1:])
    if plan["retry"]:
        yield dict(plan, retry=False)
    for i, f in enumerate(plan["faults"]):
        for ch in (dict(span=1), dict(frac=0.), dict(errno="ENOSPC")):
            g = dict(f, **ch)
            if g != f:
                yield dict(plan, faults=plan["faults"][:i] + [g] + plan["faults"][i + 1:])
        if "u" not in f and f["at"] > 1:
            yield dict(plan, faults=plan["faults"][:i] + [dict(f, at=f["at"] // 2)] + plan["faults"][i + 1:])
    for q in c03.shrink(dict(plan, stops=[[1, 0]])):
        q.pop("stops")
        if q != plan:
            yield q
