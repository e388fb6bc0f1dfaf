"""C03: the recorded history of a simulation stopped and restarted from checkpoints equals the uninterrupted one's."""
import copy
import os

from .. import common, drive, proc, resume, cfg
from ..proc import Violation
from . import c02

LEVEL = "exploration"
TIERS = {"quick": dict(runs=240, cap=60, shrink=60), "thorough": dict(runs=8000, cap=1500, shrink=180)}
RULE = ("a run draws a set-up with checkpoints, output options (decimation, own histogram periods, lifetime, probes, videos, "
        "snapshots, custom observables, safety copies, sparse saving) and 1-3 stop points; after the last restart has "
        "finished, every variable of every output file must equal the uninterrupted run's; non-trivial when at least one "
        "restart resumed from a checkpoint and recorded at least one more pass; distinct by feature signature and options")
STATES = "distinct (feature signature, output variable set, stop point) combinations"
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = c02.ASSUMPTIONS

SBS = "{'obs_x': lambda sim: float(sim.cloud_list[0].MP_e.x_mp[:sim.cloud_list[0].MP_e.N_mp].sum())}"
PBP = "{'obs_n': lambda sim: sim.cloud_list[0].MP_e.N_mp}"
ONCE = "{'obs_b': lambda sim: sim.beamtim.b_spac}"


def gen_outputs(r, c):
    S = c["sim"]
    t, bs, n = cfg.timeline(c)
    if r.random() < .4:
        S["save_mp_state_time_file"] = sorted(round(r.uniform(0, t[-1]), 13) for _ in range(r.choice([1, 2, 4])))
    if r.random() < .2:
        S["save_simulation_state_time_file"] = sorted(round(r.uniform(0, t[-1]), 13) for _ in range(r.choice([1, 2])))
    if r.random() < .15:
        S["flag_movie"] = 1
    if r.random() < .1:
        S["flag_sc_movie"] = 1
    if r.random() < .25:
        c["observables"]["step_by_step_custom_observables"] = SBS
    if r.random() < .25:
        c["observables"]["pass_by_pass_custom_observables"] = PBP
    if r.random() < .1:
        c["observables"]["save_once_custom_observables"] = ONCE


def gen(r, tier):
    c = resume.gen_ckpt(r, nonunif_t=0.1)
    gen_outputs(r, c)
    if not c["clouds"] and r.random() < .05:
        cfg.lengthen(r, c)
    return dict(c=c, stops=[[r.choice([1, 1, 2, 3]), r.choice([0, 1, 7, 30])] for _ in range(r.choice([1, 1, 2, 3]))],
                envs=[common.gen_env(r) for _ in range(3)])


def run(plan, emit):
    with proc.Scratch() as top:
        ref, root, hist, resumed, steps, last = c02.lives(plan, top)
        out = common.outputs(plan["c"], root)
        d = drive.diff(ref["out"], out)
        if d:
            raise Violation("output file after restarts differs from the uninterrupted run's", diff=d)
        d = resume.files(plan["c"], root, ref["root"])
        if d:
            raise Violation("snapshot files after restarts differ from the uninterrupted run's", diff=d)
        fs = common.feature_sig(plan["c"])
        return dict(faults={"process.stop": len(hist) - 1}, probes={"resumed": resumed, "variables": len(out)},
                    states=["%s|%s|%s" % (fs, len(out), p[0]) for _, _, ps, _ in hist for p in ps],
                    sim_time=2 * ref["res"]["tt"], steps=ref["res"]["steps"] + steps, ops=len(ref["ops"]),
                    nontrivial=resumed > 0 and steps >= 5, sig=[fs, plan["stops"], sorted(k for k in out)[:60]],
                    sample=dict(resumed=resumed, variables=len(out), steps=steps))


def shrink(plan):
    yield from c02.shrink(plan)
    for k in ("save_mp_state_time_file", "save_simulation_state_time_file", "flag_movie", "flag_sc_movie", "extract_sey"):
        if k in plan["c"]["sim"]:
            p = copy.deepcopy(plan)
            del p["c"]["sim"][k]
            yield p
    for k in plan["c"]["observables"]:
        p = copy.deepcopy(plan)
        del p["c"]["observables"][k]
        yield p
