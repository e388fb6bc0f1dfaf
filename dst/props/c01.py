"""C01: a crash at any point of the execution is survived: the restart resumes at the last durable checkpoint."""
import copy
import os
import pickle

from .. import common, drive, proc, resume
from ..proc import Violation
from . import c02, c03

LEVEL = "fault_enumeration"
TIERS = {"quick": dict(runs=260, cap=75, shrink=60), "thorough": dict(runs=12000, cap=2400, shrink=180)}
RULE = ("a run draws a set-up with checkpoints and 1-4 crashes; each crash kills a process incarnation at a seeded disk "
        "operation (before, after or in the middle of it; optionally a power cut that also damages data never flushed to "
        "stable storage), during start-up, stepping or recovery; the next incarnation must start, resume no earlier than the "
        "last checkpoint known durable, and in the end leave the same state and files as the uninterrupted run; after every "
        "crash the main output on disk is a complete snapshot; non-trivial when at least one crash fired")
STATES = "distinct (operation kind, file class, position within the operation) crash points x incarnation number"
REAL = common.REAL
STUB = common.STUB + ["process death: the incarnation is a forked process that exits immediately, losing all memory and user-space buffers"]
ASSUMPTIONS = c02.ASSUMPTIONS + ["directory operations (rename, unlink) are durable in the order issued; file data is durable after fsync"]


def gen(r, tier):
    c = resume.gen_ckpt(r, nonunif_t=0.05, small=r.random() < .3)
    c03.gen_outputs(r, c)
    kills = []
    for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
        f = dict(do="kill", at=1, frac=r.choice([0., 0.3, 0.5, 0.9, 1.0]), after=r.random() < .3, power=r.random() < .4)
        mode = r.choice(["any", "any", "ckpt", "ckpt", "out", "safe", "late", "kind"])
        if mode == "any":
            f["u"] = r.random()
        elif mode == "late":
            f["u"] = 0.5 + 0.5 * r.random()
        else:
            if mode == "kind":
                f["kinds"] = r.choice([["replace", "rename"], ["remove", "unlink"], ["fsync"], ["create", "trunc"], ["mkdir"]])
            else:
                f["path"] = {"ckpt": "ckpt", "out": "Pyecltest", "safe": "safe"}[mode]
            f["at"] = int(2 ** (r.random() * 6.5))
        kills.append(f)
    return dict(c=c, kills=kills, envs=[common.gen_env(r) for _ in range(3)], pseed=r.randrange(1 << 20))


def klass(path):
    b = os.path.basename(path)
    return "checkpoint" if "ckpt" in path else "copy" if "safe" in path else "output" if "Pyecltest" in b else \
        "state" if b.startswith("simulation_state") else "mpstate" if b.startswith("MP_state") else "other"


def check_disk(c, root, ref, who, had):
    """In a process of its own: reading a damaged file may crash the reader."""
    r = proc.incarnation(lambda emit: _check_disk(c, root, ref, who, had))
    if r[0] in ("signal", "timeout"):
        raise Violation("after the crash a result file cannot be read: the reader died", crash=who)
    had |= proc.raise_if_bad(r, "reading the results")


def _check_disk(c, root, ref, who, had):
    """What a user finds after the crash: every main output that exists is a complete, readable snapshot."""
    for f in drive.outputs(c):
        for sub in ("", "safe"):
            p = os.path.join(root, f) if not sub else os.path.join(root, "safe", os.path.basename(f))
            if not os.path.exists(p):
                if p in had:
                    raise Violation("the crash destroyed a result file that existed before", file=os.path.relpath(p, root), crash=who)
                continue
            had.add(p)
            try:
                d = drive.load_mat(p)
            except Exception as e:
                raise Violation("after the crash a result file is unreadable", file=os.path.relpath(p, root), crash=who,
                                error=repr(e)[:200])
            full = ref["out"].get(f + ":t")
            t = d["t"].ravel()
            if full is not None and (len(t) > full.size or not (full.ravel()[:len(t)] == t).all()):
                raise Violation("after the crash a result file holds a history that is not a prefix of the run's",
                                file=os.path.relpath(p, root), crash=who)
    return had


def run(plan, emit):
    c = plan["c"]
    with proc.Scratch() as top:
        ref = resume.reference(c, top)
        root = os.path.join(top, "cut")
        os.makedirs(root)
        drive.prepare(c, root)
        nref = len(ref["ops"])
        durable = -1          # step of the newest checkpoint known durable
        rng, fired, states, probes = {}, {}, [], {}
        steps, resumed, had = 0, 0, set()
        kills = list(plan["kills"]) + [None]
        for k, f in enumerate(kills):
            faults = []
            if f is not None:
                f = dict(f)
                if "u" in f:
                    f["at"] = 1 + int(f.pop("u") * nref)
                faults = [f]
            out = proc.incarnation(resume.life, (c, root, plan["envs"][k % 3], faults, rng, None, True, plan["pseed"] + k))
            kind, p, m = out
            who = "incarnation %d" % k
            wd = (m.get("world") or [{}])[-1]
            rng.update(wd.get("rng", {}))
            for a, b in wd.get("fired", {}).items():
                fired[a] = fired.get(a, 0) + b
            if "start" in m:
                first = m["start"][-1]
                if first < durable:
                    raise Violation("the restart lost progress: it resumed before the last durable checkpoint", resumed_at=first,
                                    durable=durable, incarnation=k)
                if first >= 0:
                    resumed += 1
                    if first not in [pb[0] for pb in ref["pub"]]:
                        raise Violation("the restart resumed at a step where no checkpoint is due", resumed_at=first)
                    durable = first
            resume.compare_digests(ref, m.get("d", ()), who)
            steps += len(m.get("d", ()))
            for pb in m.get("pub", ()):
                durable = max(durable, pb[0])
            if kind == "killed":
                if not p["op"]:
                    raise proc.HarnessError("kill without operation")
                states.append("%s|%s|%s|%d" % (p["op"][0], klass(p["op"][1]), p["where"], min(k, 2)))
                check_disk(c, root, ref, "%s %s" % (p["where"], klass(p["op"][1])), had)
                continue
            res = proc.raise_if_bad(out, who)
            d = drive.diff(ref["res"]["state"], res["state"])
            if d:
                raise Violation("final state after crashes differs from the uninterrupted run's", diff=d)
            break
        out = common.outputs(c, root)
        d = drive.diff(ref["out"], out)
        if d:
            raise Violation("output after crashes differs from the uninterrupted run's", diff=d)
        # auxiliary files (videos, snapshots) are not flushed to stable storage: a power cut may cost them
        d = None if any(x.startswith("power.") for x in fired) else resume.files(c, root, ref["root"])
        if d:
            raise Violation("snapshot files after crashes differ from the uninterrupted run's", diff=d)
        left = resume.ckpts(root)
        if len(left) > 1:
            raise Violation("superseded checkpoints are left behind at the end of the run", files=left)
        return dict(faults=fired, probes={"incarnations": k + 1, "resumed": resumed}, states=states, sim_time=2 * ref["res"]["tt"],
                    steps=ref["res"]["steps"] + steps, ops=nref, nontrivial=bool(states),
                    sig=[common.feature_sig(c), states], sample=dict(crashes=states, resumed=resumed))


def shrink(plan):
    n = len(plan["kills"])
    for i in range(n):
        if n > 1:
            yield dict(plan, kills=plan["kills"][:i] + plan["kills"][i + 1:])
    for i, f in enumerate(plan["kills"]):
        for ch in (dict(power=False), dict(frac=0.), dict(after=False)):
            g = dict(f, **ch)
            if g != f:
                yield dict(plan, kills=plan["kills"][:i] + [g] + plan["kills"][i + 1:])
        if "u" not in f and f["at"] > 1:
            yield dict(plan, kills=plan["kills"][:i] + [dict(f, at=f["at"] // 2)] + plan["kills"][i + 1:])
    for q in c03.shrink(dict(plan, stops=[[1, 0]])):
        q.pop("stops")
        if q != plan:
            yield q
