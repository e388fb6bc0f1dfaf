"""C09: observing a simulation does not change it."""
import copy
import os

import numpy as np

from .. import cfg, common, drive, proc, resume
from ..proc import Violation
from . import c03

LEVEL = "exploration"
TIERS = {"quick": dict(runs=260, cap=60, shrink=60), "thorough": dict(runs=8000, cap=1500, shrink=180)}
RULE = ("a run draws a set-up and runs it bare (every optional output off) and with 1-2 random subsets of the observation options "
        "(log, progress, videos, snapshots, saved states, checkpoints, copies, histograms, probes, decimation, custom observables, "
        "electric energy, surface curves), some with disk errors on the log and progress files; particles, fields, surface state and random stream "
        "must be identical after every step; non-trivial when at least 3 options were on and 20 steps compared; "
        "distinct by feature signature and option set")
STATES = "distinct per-step state digests compared between the bare and an observed run"
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = common.ASSUME + ["extracting the SEY curves and energy distributions may draw random numbers while the simulation is being built: these draws are put back",
                               "custom observables are read-only functions", "Dx_hist is not an output option: it also sets the grid of the regenerations"]

OBS_SIM = ("el_density_probes", "x_min_hist_det", "x_max_hist_det", "y_min_hist_det", "y_max_hist_det", "Dx_hist_det", "Dh_electric_energy",
           "flag_cos_angle_hist", "cos_angle_width", "flag_detailed_MP_info", "flag_lifetime_hist", "Nbin_lifetime_hist", "lifetime_hist_max",
           "Dt_lifetime_hist", "flag_En_hist_seg", "save_mp_state_time_file", "save_simulation_state_time_file", "flag_movie", "flag_sc_movie",
           "checkpoint_DT", "checkpoint_folder", "copy_main_outp_folder", "copy_main_outp_DT", "save_only")


def bare(c):
    d = copy.deepcopy(c)
    S = d["sim"]
    for k in OBS_SIM:
        S.pop(k, None)
    S.update(extract_sey=False, dec_fact_out=1, save_mat_every=cfg.timeline(d)[2], logfile_path=None, flag_hist_impact_seg=0)
    S["progress_path"] = None
    d["observables"] = {}
    return d


def variant(r, c):
    """A random subset of the observation options."""
    d = bare(c)
    S, on = d["sim"], []
    t, bs, n = cfg.timeline(d)
    poly = d["mach"]["chamb_type"] == "polyg"
    full = copy.deepcopy(d)
    c03.gen_outputs(r, full)
    d["observables"] = full["observables"]
    on += sorted(d["observables"])
    for k in ("save_mp_state_time_file", "save_simulation_state_time_file", "flag_movie", "flag_sc_movie"):
        if k in full["sim"]:
            S[k] = full["sim"][k]
            on.append(k)

    def opt(p, name, **kw):
        if r.random() < p:
            S.update(kw)
            on.append(name)
    opt(.4, "ckpt", checkpoint_DT=r.choice([.5, 1., 1.7]) * bs, checkpoint_folder="@/ckpt/")
    opt(.3, "copy", copy_main_outp_folder="@/safe", copy_main_outp_DT=r.choice([1., 1.6]) * bs)
    opt(.4, "log", logfile_path="@/log.txt")
    opt(.4, "progress", progress_path="@/progress")
    opt(.3, "probes", el_density_probes=[dict(x=0., y=0., r_obs=5e-3), dict(x=5e-3, y=2e-3, r_obs=4e-3)][:r.choice([1, 2])])
    opt(.3, "det", x_min_hist_det=-1e-2, x_max_hist_det=1e-2, y_min_hist_det=-1e-2, y_max_hist_det=8e-3, Dx_hist_det=1e-3)
    opt(.3, "lifetime", flag_lifetime_hist=True, Nbin_lifetime_hist=20, lifetime_hist_max=2 * bs, Dt_lifetime_hist=r.choice([1., .6, 1.5]) * bs)
    opt(.4, "cos", flag_cos_angle_hist=True, cos_angle_width=r.choice([.05, .1]))
    opt(.4, "detailed", flag_detailed_MP_info=1)
    opt(.5, "seg", flag_hist_impact_seg=1)
    if poly and S["flag_hist_impact_seg"]:
        opt(.5, "enseg", flag_En_hist_seg=True)
    if not S.get("flag_em_tracking"):
        opt(.25, "elen", Dh_electric_energy=2e-3)
    opt(.5, "save", save_mat_every=1)
    opt(.4, "dec", dec_fact_out=r.choice([2, 5]))
    opt(.4, "enhist", Dt_En_hist=r.choice([.3, 1., 1.9]) * bs, Nbin_En_hist=r.choice([10, 60]), En_hist_max=r.choice([100., 3000.]))
    opt(.3, "rcenter", r_center=r.choice([1e-3, 5e-3]))
    opt(.3, "sey", extract_sey=True)
    if not d["clouds"]:
        opt(.15, "ene", extract_ene_dist=True, ene_dist_test_E_impact_eV=150., Nbin_extract_ene=40, factor_ene_dist_max=1.5)
    return d, on


def gen(r, tier):
    c = cfg.gen(r, nonunif_t=.05, small=r.random() < .4)
    vs = []
    for _ in range(r.choice([1, 2])):
        v, on = variant(r, c)
        f = []
        for k, p in (("log", "log"), ("progress", "progress")):
            if k in on and r.random() < .6:
                f.append(dict(do="err", path=p, at=r.choice([1, 1, 2, 3, 5]), span=r.choice([1, 2, 50]), frac=r.choice([0., .5]),
                              errno=r.choice(["ENOSPC", "EIO", "EACCES", "EMFILE", "EDQUOT"])))
        vs.append(dict(c=v, on=on, faults=f))
    return dict(c=bare(c), vs=vs, envs=[common.gen_env(r) for _ in range(2)])


def sey_state(sim):
    out = []
    for cl in sim.cloud_list:
        m = cl.impact_man.sey_mod
        for k in sorted(vars(m)):
            v = getattr(m, k)
            if isinstance(v, np.ndarray) and v.dtype.kind in "fi" and v.size < 10000:
                out += [k, v]
    return out


def digest(sim):
    parts = [int(sim.beamtim.ii_curr), repr(sim.beamtim.pass_numb), repr(sim.beamtim.tt_curr)]
    for cl in sim.cloud_list:
        d = drive.mp_state(cl.MP_e)
        d.pop("t_last_impact", None)
        parts += [d[k] for k in sorted(d)]
        if cl.rho is not None:
            parts.append(np.asarray(cl.rho))
    f = drive.field_arrays(sim)
    parts += [f[k] for k in sorted(f)] + sey_state(sim)
    s = np.random.get_state()
    return drive._h(*(parts + [s[1], s[2], s[3], s[4]]))


def quick_curves():
    """The extraction of the surface curves on a coarser grid (its full size takes a minute), with its draws taken off the stream."""
    from PyECLOUD.impact_management_class import impact_management as im
    real, rene = im.extract_sey_curves, im.extract_energy_distributions

    def curves(self, n_rep, E, ct, *a, **k):
        st = np.random.get_state()
        try:
            return real(self, 300, E[::60], ct[::3], *a, **k)
        finally:
            np.random.set_state(st)

    def ene(self, n_rep, *a, **k):
        st = np.random.get_state()
        try:
            return rene(self, 2000, *a, **k)
        finally:
            np.random.set_state(st)
    im.extract_sey_curves, im.extract_energy_distributions = curves, ene


def life(emit, c, root, env, faults):
    drive.prepare(c, root)
    with common.mkworld(root, env) as w:
        quick_curves()
        sim = drive.build(c, root)
        w.faults = [dict(f) for f in faults]
        dig = [digest(sim)]
        while drive.step(sim):
            dig.append(digest(sim))
        w.active = False
        common.check_escapes(w)
        return dig, float(sim.beamtim.tt_curr), dict(w.fired)


def run(plan, emit):
    with proc.Scratch() as top:
        fired, steps, n = {}, 0, 0
        ref = None
        for k, v in enumerate([dict(c=plan["c"], faults=[], on=[])] + plan["vs"]):
            root = os.path.join(top, "r%d" % k)
            os.makedirs(root)
            who = "bare run" if k == 0 else "observed run"
            dig, tt, fi = proc.raise_if_bad(proc.incarnation(life, (v["c"], root, plan["envs"][min(k, 1)], v["faults"])), who)
            steps += len(dig)
            for a, b in fi.items():
                fired[a] = fired.get(a, 0) + b
            if ref is None:
                ref = dig
                continue
            if len(dig) != len(ref):
                raise Violation("observing a simulation changes its number of steps", bare=len(ref), observed=len(dig), options=v["on"])
            for i, (a, b) in enumerate(zip(ref, dig)):
                if a != b:
                    raise Violation("observing a simulation changes its particles, fields, surface or random stream", step=i - 1, of=len(ref) - 1,
                                    options=v["on"])
            n += 1
        on = max(len(v["on"]) for v in plan["vs"]) if plan["vs"] else 0
        return dict(faults=fired, probes={"options": on}, states=ref[:300], sim_time=tt * (n + 1), steps=steps,
                    nontrivial=on >= 3 and len(ref) > 20, sig=[common.feature_sig(plan["c"]), [v["on"] for v in plan["vs"]]],
                    sample=dict(steps=steps, options=[v["on"] for v in plan["vs"]]))


def shrink(plan):
    if len(plan["vs"]) > 1:
        for v in plan["vs"]:
            yield dict(plan, vs=[v])
    b = plan["c"]
    for i, v in enumerate(plan["vs"]):
        def put(w):
            return dict(plan, vs=plan["vs"][:i] + [w] + plan["vs"][i + 1:])
        if v["faults"]:
            yield put(dict(v, faults=[]))
        S, B = v["c"]["sim"], b["sim"]
        for k in sorted(set(S) | set(B)):
            if S.get(k) != B.get(k):
                d = copy.deepcopy(v)
                if k in B:
                    d["c"]["sim"][k] = B[k]
                else:
                    del d["c"]["sim"][k]
                yield put(d)
        for k in v["c"]["observables"]:
            d = copy.deepcopy(v)
            del d["c"]["observables"][k]
            yield put(d)
