"""C19: a run split into pieces is the run; every step and passage is executed exactly once."""
import copy
import os

import numpy as np

from .. import cfg, common, drive, proc, resume
from ..proc import Violation
from . import c03

LEVEL = "exploration"
TIERS = {"quick": dict(runs=260, cap=60, shrink=60), "thorough": dict(runs=8000, cap=1200, shrink=180)}
RULE = ("a run draws a set-up with output options and a history of calls run(t_end_sim) with cuts on time steps, next to them, between them, repeated, in the past, "
        "beyond the end and none at all; each time step is recorded as it is executed and compared with a single uncut call, with the time axis the input asks for and with "
        "a model of the call history (which steps each call executes); the outputs on disk must be equal at the end; non-trivial when at least 2 calls "
        "executed steps and 20 steps were compared; distinct by feature signature, spacing, time step and cuts")
STATES = "distinct (features, steps executed by a call, kind of cut, position of the cut in the pass) reached"
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = common.ASSUME + ["a first call with a time at or before the first time step still executes that step (a simulation has no time before it)"]

KINDS = ["grid", "grid", "between", "between", "eps-", "eps+", "past", "repeat", "passb", "tiny"]


def gen(r, tier):
    c = resume.gen_ckpt(r, nonunif_t=.25) if r.random() < .25 else cfg.gen(r, nonunif_t=.25, small=r.random() < .4)
    c03.gen_outputs(r, c)
    S, B = c["sim"], c["beam"]
    if r.random() < .3 and B["flag_bunched_beam"]:
        B["b_spac"] = r.choice([7.3e-10, 1.33e-9, 2.49e-9, 2.0000001e-9])
        for b in c["sec_beams"]:
            b["b_spac"] = B["b_spac"]
        if S.get("checkpoint_DT"):
            S["checkpoint_DT"] = B["b_spac"]
    if r.random() < .2:
        S["Dt"] = r.choice([3.3e-11, 4.9e-11, 7e-11])
    n = cfg.timeline(c)[2]
    S["save_mat_every"] = r.choice([k for k in (1, 1, 1, 2, 3) if n % k == 0])
    calls = [[r.choice(KINDS), r.random()] for _ in range(r.choice([1, 2, 3, 6, 12]))]
    return dict(c=c, calls=calls, sort=r.random() < .8, end=r.choice(["none", "none", "beyond", "inf"]), again=r.random() < .3,
                envs=[common.gen_env(r) for _ in range(2)])


def cuts(plan):
    """The arguments of the calls: deterministic in the plan."""
    t, bs, n = cfg.timeline(plan["c"])
    t = np.array(t)
    out, u = [], [x[1] for x in plan["calls"]]
    if plan["sort"]:
        u = sorted(u)
    for (k, _), v in zip(plan["calls"], u):
        i = int(v * (len(t) - 1))
        if k == "grid":
            x = t[i]
        elif k == "between":
            x = t[i] + (t[i + 1] - t[i]) * (0.5 + 0.4 * (v - .5))
        elif k == "eps-":
            x = np.nextafter(t[i], -1)
        elif k == "eps+":
            x = np.nextafter(t[i], 1)
        elif k == "past":
            x = t[i // 3]
        elif k == "repeat":
            x = out[-1] if out else t[i]
        elif k == "passb":
            x = bs * round(t[i] / bs)
        else:
            x = t[min(i, 2)]
        out.append(float(x))
    if plan["end"] == "beyond":
        out.append(float(t[-1] * 1.5))
    elif plan["end"] == "inf":
        out.append(float("inf"))
    out.append(None)
    if plan["again"]:
        out += [None, float(t[-1]), 0.]
    return out


def record(sim):
    bt = sim.beamtim
    d = dict(ii=int(bt.ii_curr), tt=float(bt.tt_curr), dt=float(bt.Dt_curr), lam=float(bt.lam_t_curr), p=int(bt.pass_numb), new=bool(bt.flag_new_bunch_pass),
             sec=[(int(b.ii_curr), float(b.tt_curr), float(b.Dt_curr), float(b.lam_t_curr) == float(b.lam_t_array[bt.ii_curr])) for b in (sim.sec_beams_list or [])],
             lamok=float(bt.lam_t_curr) == float(bt.lam_t_array[bt.ii_curr]))
    return d


def life(emit, c, root, env, calls):
    drive.prepare(c, root)
    with common.mkworld(root, env) as w:
        sim = drive.build(c, root)
        cls = type(sim)
        orig = cls.sim_time_step
        recs = []

        def wrap(self, *a, **k):
            rec = record(self)
            orig(self, *a, **k)
            rec["dig"] = drive.digest(self)
            recs.append(rec)
        cls.sim_time_step = wrap
        try:
            per = []
            for x in calls:
                n0 = len(recs)
                with np.errstate(all="ignore"):
                    sim.run() if x is None else sim.run(t_end_sim=x)
                per.append(len(recs) - n0)
        finally:
            cls.sim_time_step = orig
        w.active = False
        common.check_escapes(w)
        return dict(recs=recs, per=per, Nt=int(sim.beamtim.Nt), npass=int(sim.beamtim.N_pass_tot), t=np.array(sim.beamtim.t), lam=np.array(sim.beamtim.lam_t_array))


def model(calls, t):
    """How many steps each call executes."""
    last = len(t) - 2
    cur, per = -1, []
    for x in calls:
        n = 0
        while cur < last and not (x is not None and cur >= 0 and t[cur] >= x):
            cur += 1
            n += 1
        per.append(n)
    return per


def check_axis(c, res, who):
    t, bs, n = cfg.timeline(c)
    t = np.asarray(t)
    if len(res["t"]) != len(t) or np.any(np.abs(res["t"] - t) > 1e-9 * np.diff(t).min()):
        raise Violation("the time axis is not the one the input asks for", who=who, steps=len(res["t"]), expected=len(t))
    if res["npass"] != n:
        raise Violation("number of passages is not that of the time axis", who=who, passages=res["npass"], expected=n)
    t = res["t"]
    old = -1
    for k, r in enumerate(res["recs"]):
        if r["ii"] != k:
            raise Violation("a time step is skipped or executed more than once", who=who, executed=r["ii"], expected=k)
        if r["tt"] != t[k] or r["dt"] != t[k + 1] - t[k] or not r["lamok"]:
            raise Violation("time, step length or beam density of a step are not those of the time axis", who=who, step=k, tt=r["tt"], expected=float(t[k]), dt=r["dt"])
        q = t[k] / bs
        lo, hi = int(np.floor(q - 1e-6)), int(np.floor(q + 1e-6))
        if not lo <= r["p"] <= hi:
            raise Violation("passage number is not that of the time axis", who=who, step=k, tt=r["tt"], passage=r["p"], expected=[lo, hi])
        if r["new"] != (r["p"] != old):
            raise Violation("a passage boundary is not recognised exactly once", who=who, step=k, passage=r["p"], before=old, recognised=r["new"])
        if r["p"] < old:
            raise Violation("passage number goes back", who=who, step=k)
        old = r["p"]
        for s in r["sec"]:
            if s[0] != k or s[1] != t[k] or abs(s[2] - r["dt"]) > 1e-9 * r["dt"] or not s[3]:
                raise Violation("a secondary beam is not at the time step of the simulation", who=who, step=k, secondary=s[:3])
    if len(res["recs"]) != len(t) - 1:
        raise Violation("the simulation does not execute every time step of its time axis", who=who, steps=len(res["recs"]), expected=len(t) - 1)


def run(plan, emit):
    c = plan["c"]
    calls = cuts(plan)
    with proc.Scratch() as top:
        r1, r2 = os.path.join(top, "ref"), os.path.join(top, "cut")
        os.makedirs(r1)
        os.makedirs(r2)
        ref = proc.raise_if_bad(proc.incarnation(life, (c, r1, plan["envs"][0], [None])), "uncut run")
        check_axis(c, ref, "uncut run")
        res = proc.raise_if_bad(proc.incarnation(life, (c, r2, plan["envs"][1], calls)), "run in pieces")
        exp = model(calls, ref["t"])
        if res["per"] != exp:
            raise Violation("a call does not execute the steps up to the time it was asked for", calls=calls[:14], executed=res["per"][:14], expected=exp[:14])
        check_axis(c, res, "run in pieces")
        for a, b in zip(ref["recs"], res["recs"]):
            if a["dig"] != b["dig"]:
                raise Violation("running in pieces computes another state", step=a["ii"], calls=calls[:14])
        d = drive.diff(common.outputs(c, r1), common.outputs(c, r2))
        if d:
            raise Violation("running in pieces leaves another output", diff=d, calls=calls[:14])
        d = resume.files(c, r2, r1)
        if d:
            raise Violation("running in pieces leaves other snapshot or video files", diff=d)
        fs = common.feature_sig(c)
        bs, t = c["beam"]["b_spac"], ref["t"]
        st = set()
        for (k, _), x, n in zip(plan["calls"], calls, res["per"]):
            st.add("%s|%s|%d|%d" % (fs, k, int(np.log2(n + 1)), int(8 * np.mod(x / bs, 1))))
        return dict(faults={"cut." + k: sum(1 for q in plan["calls"] if q[0] == k) for k in set(q[0] for q in plan["calls"])},
                    probes={"calls": len(calls), "passages": ref["npass"], "nonuniform": not c["beam"]["flag_bunched_beam"]}, states=sorted(st),
                    sim_time=2 * float(t[-1]), steps=2 * len(ref["recs"]),
                    nontrivial=sum(1 for n in res["per"] if n) >= 2 and len(ref["recs"]) >= 20, sig=[fs, bs, c["sim"]["Dt"], calls],
                    sample=dict(calls=calls[:6], executed=res["per"][:6]))


def shrink(plan):
    yield from common.shrink_list(plan, "calls")
    if plan["again"]:
        yield dict(plan, again=False)
    if plan["end"] != "none":
        yield dict(plan, end="none")
    yield from common.shrink_key(plan)
    for k in ("checkpoint_DT", "copy_main_outp_DT", "save_mp_state_time_file", "save_simulation_state_time_file", "flag_movie", "flag_sc_movie"):
        if plan["c"]["sim"].get(k) is not None:
            p = copy.deepcopy(plan)
            p["c"]["sim"].pop(k)
            if k == "checkpoint_DT":
                p["c"]["sim"].pop("checkpoint_folder", None)
            yield p
    for k in plan["c"]["observables"]:
        p = copy.deepcopy(plan)
        del p["c"]["observables"][k]
        yield p
