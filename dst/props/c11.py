"""C11: a stop file ends the simulation at the next pass, with the output of every cloud complete."""
import copy
import os
import shutil

from .. import cfg, common, drive, proc, resume, world
from ..proc import Violation
from . import c03

LEVEL = "exploration"
TIERS = {"quick": dict(runs=260, cap=60, shrink=60), "thorough": dict(runs=8000, cap=1200, shrink=180)}
RULE = ("a run draws a set-up with 1-3 clouds and output options, and a moment at which the stop file appears (before the start, before a "
        "step, or in the middle of a step at a given disk operation), is possibly removed again some steps later, with or without disk errors on the log and "
        "progress files; the run must end with the user-stop error at the first pass boundary at which the file is there, and its outputs must be those the "
        "unstopped run has on disk after that pass; non-trivial when the file appeared during the run and at least 10 steps were executed; "
        "distinct by feature signature, appearance and outcome")
STATES = "distinct (features, step of appearance modulo pass, kind of appearance, stopped or not)"
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = common.ASSUME + ["the pass boundaries are those the simulation recognises (C19 checks them)"]


def gen(r, tier):
    c = resume.gen_ckpt(r, nonunif_t=.05, clouds=r.choice([0, 0, 1, 2, 2])) if r.random() < .4 else \
        cfg.gen(r, nonunif_t=.05, clouds=r.choice([0, 0, 1, 2, 2]))
    c03.gen_outputs(r, c)
    S = c["sim"]
    S.pop("save_simulation_state_time_file", None)
    if r.random() < .4:
        S["logfile_path"] = "@/log.txt"
    if r.random() < .4:
        S["progress_path"] = "@/progress"
    n = cfg.timeline(c)[2]
    S["save_mat_every"] = r.choice([k for k in (1, 1, 1, 2, 3) if n % k == 0])
    f = []
    if r.random() < .3:
        f.append(dict(do="err", path=r.choice(["log", "progress"]), at=r.choice([1, 2, 4]), span=r.choice([1, 50]), frac=0.,
                      errno=r.choice(["ENOSPC", "EIO", "EACCES"])))
    how = r.choice(["step", "step", "step", "op", "op", "start", "never"])
    return dict(c=c, how=how, u=r.random(), keep=r.choice([None, None, None, 1, 5, 40]), text=r.choice(["", "stop\n", "x" * 5000]),
                faults=f, envs=[common.gen_env(r) for _ in range(2)])


def snap(c, root, to):
    os.makedirs(to)
    for f in drive.outputs(c):
        p = os.path.join(root, f)
        if os.path.exists(p):
            os.makedirs(os.path.dirname(os.path.join(to, f)), exist_ok=True)
            shutil.copyfile(p, os.path.join(to, f))


def whole(emit, c, root, env, keepat):
    drive.prepare(c, root)
    with common.mkworld(root, env) as w:
        sim = drive.build(c, root)
        dig, bounds, ops0 = {}, [], w.n
        opstep = []
        while drive.step(sim):
            ii = int(sim.beamtim.ii_curr)
            opstep.append((ii, w.n))
            dig[ii] = drive.digest(sim)
            if sim.beamtim.flag_new_bunch_pass:
                bounds.append(ii)
                w.active = False
                snap(c, root, os.path.join(keepat, str(ii)))
                w.active = True
        w.active = False
        common.check_escapes(w)
        return dict(dig=dig, bounds=bounds, ops0=ops0, opstep=opstep, tt=float(sim.beamtim.tt_curr))


def stopped(emit, c, root, env, at, op, keep, text, faults):
    """at: step before which the file appears (-1: before construction); op: disk operation at which it appears."""
    drive.prepare(c, root)
    stop = os.path.join(root, "stop")
    born = [None]

    def create():
        with world._real["open"](stop, "w") as fid:
            fid.write(text)
    with common.mkworld(root, env) as w:
        if at == -1:
            create()
            born[0] = -1
        sim = drive.build(c, root)
        w.faults = [dict(f) for f in faults]
        cur = [0]
        if op is not None:
            def on_op(n, kind, rel):
                if n == op and born[0] is None:
                    create()
                    born[0] = cur[0]
            w.on_op = on_op
        dig, outcome, last = {}, "end", None
        while True:
            cur[0] = int(sim.beamtim.ii_curr) + 1
            if born[0] is None and at is not None and cur[0] >= at:
                create()
                born[0] = cur[0]
            if born[0] is not None and keep is not None and cur[0] >= max(born[0], 0) + keep and os.path.exists(stop):
                world._real["remove"](stop)
            try:
                if not drive.step(sim):
                    break
            except ValueError as e:
                if "Stopped by user" not in str(e):
                    raise
                outcome, last = "stopped", int(sim.beamtim.ii_curr)
                break
            dig[cur[0]] = drive.digest(sim)
        w.active = False
        common.check_escapes(w)
        return dict(dig=dig, outcome=outcome, last=last, born=born[0], fired=dict(w.fired))


def run(plan, emit):
    c = plan["c"]
    with proc.Scratch() as top:
        r1, r2, keepat = (os.path.join(top, k) for k in ("ref", "cut", "snap"))
        os.makedirs(r1)
        os.makedirs(r2)
        ref = proc.raise_if_bad(proc.incarnation(whole, (c, r1, plan["envs"][0], keepat)), "unstopped run")
        n = len(ref["dig"])
        at = op = None
        if plan["how"] == "step":
            at = int(plan["u"] * n)
        elif plan["how"] == "op":
            last = ref["opstep"][-1][1]
            op = ref["ops0"] + 1 + int(plan["u"] * max(1, last - ref["ops0"]))
        elif plan["how"] == "start":
            at = -1
        res = proc.raise_if_bad(proc.incarnation(stopped, (c, r2, plan["envs"][1], at, op, plan["keep"], plan["text"], plan["faults"])),
                                "run with a stop file")
        for ii, h in res["dig"].items():
            if ref["dig"].get(ii) != h:
                raise Violation("a stop request changes the simulation before it ends", step=ii)
        born = res["born"]
        exp = None
        if born is not None:
            b0 = max(born, 0)
            for b in ref["bounds"]:
                if b >= b0 and (plan["keep"] is None or b < b0 + plan["keep"]):
                    exp = b
                    break
        if exp is None and res["outcome"] == "stopped":
            raise Violation("the simulation stopped though no stop file was there at a pass boundary", at=res["last"], appeared=born, boundaries=ref["bounds"])
        if exp is not None and res["outcome"] != "stopped":
            raise Violation("the stop request was not honoured", appeared=born, due=exp, boundaries=ref["bounds"])
        if exp is not None and res["last"] != exp:
            raise Violation("the stop request was honoured at another step than the next pass boundary", appeared=born, due=exp, stopped=res["last"])
        last = exp if exp is not None else ref["bounds"][-1]
        if exp is None and len(res["dig"]) != n:
            raise Violation("without a stop request the simulation ends early", steps=len(res["dig"]), expected=n)
        got, want = common.outputs(c, r2), common.outputs(c, os.path.join(keepat, str(last)))
        d = drive.diff(want, got)
        if d:
            raise Violation("after a stop request the output of the clouds is not the history up to the pass it ended with", diff=d, stopped=exp)
        fs = common.feature_sig(c)
        ph = None if born is None else min([b - born for b in ref["bounds"] if b >= born] or [-1])
        return dict(faults=dict(res["fired"], **{"stop.appears": int(born is not None), "stop.vanishes": int(plan["keep"] is not None and born is not None)}),
                    probes={"stopped": res["outcome"] == "stopped", "clouds": 1 + len(c["clouds"])},
                    states=["%s|%s|%s|%s" % (fs, ph, plan["how"], res["outcome"])], sim_time=ref["tt"] * 2, steps=n + len(res["dig"]),
                    nontrivial=born is not None and len(res["dig"]) >= 10, sig=[fs, plan["how"], born, res["outcome"]],
                    sample=dict(appeared=born, stopped=res["last"], boundaries=ref["bounds"]))


def shrink(plan):
    if plan["faults"]:
        yield dict(plan, faults=[])
    if plan["keep"] is not None:
        yield dict(plan, keep=None)
    if plan["text"]:
        yield dict(plan, text="")
    if plan["how"] == "op":
        yield dict(plan, how="step")
    for u in (0., plan["u"] / 2):
        if u != plan["u"]:
            yield dict(plan, u=u)
    yield from common.shrink_key(plan)
    for k in ("checkpoint_DT", "copy_main_outp_DT", "save_mp_state_time_file", "flag_movie", "flag_sc_movie", "logfile_path", "progress_path"):
        if plan["c"]["sim"].get(k) is not None:
            p = copy.deepcopy(plan)
            p["c"]["sim"].pop(k)
            if k == "checkpoint_DT":
                p["c"]["sim"].pop("checkpoint_folder", None)
            if k in ("logfile_path", "progress_path"):
                p["c"]["sim"][k] = None
            yield p
    for k in plan["c"]["observables"]:
        p = copy.deepcopy(plan)
        del p["c"]["observables"][k]
        yield p
