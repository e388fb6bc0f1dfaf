"""C05: the output files contain exactly what happened in the simulation, recomputed by an independent witness."""
import copy
import os

import numpy as np

from .. import cfg, common, drive, proc, shadow, world
from ..proc import Violation
from . import c03

LEVEL = "exploration"
TIERS = {"quick": dict(runs=320, cap=60, shrink=60), "thorough": dict(runs=10000, cap=1500, shrink=180)}
RULE = ("a run draws a set-up (chamber, surface model, species, primaries, cross-ionization, second beam, non-uniform time axis) "
        "and output options (decimation, histogram periods, segments, lifetime, angles, probes, detailed windows, videos, custom "
        "observables, sparse saving, safety copies), partly with extreme random draws; each main output file and each video file "
        "is read back right after it was written and compared with the account of an independent witness; non-trivial when at "
        "least one wall impact and two passes were recorded; distinct by feature signature and variable set")
STATES = "distinct (feature signature, set of recorded variables, pass, number of impacts on a log scale) combinations"
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = common.ASSUME + ["the geometric test, impact point and segment of a trajectory are the chamber's own (asked on a private copy)"]


def gen(r, tier):
    dying = r.random() < .1      # clouds that vanish after some passes
    c = cfg.gen(r, nonunif_t=.12, **(dict(sey="perfect_absorber", primaries="none") if dying else {}))
    if dying:
        c["mach"].update(E_init_unif=r.choice([10., 200.]), B=0., B0y=0.)
        if r.random() < .7:
            c["sim"].update(x_min_hist_det=-1e-2, x_max_hist_det=1e-2, y_min_hist_det=-1e-2, y_max_hist_det=8e-3, Dx_hist_det=1e-3)
    c03.gen_outputs(r, c)
    S = c["sim"]
    t, bs, n = cfg.timeline(c)
    if r.random() < .15:
        S["flag_movie"] = 1
    if r.random() < .1:
        S["flag_sc_movie"] = 1
    if r.random() < .25:
        divs = [d for d in range(1, n + 1) if n % d == 0]
        S["save_mat_every"] = r.choice(divs)
    if not dying and len(c["clouds"]) < 2 and r.random() < .05:
        cfg.lengthen(r, c)
    return dict(c=c, env=common.gen_env(r), adv=[r.randrange(1 << 30), r.choice([.05, .3]), r.choice([1, 3])] if r.random() < .3 else None)


def _videos(rec, c, root, sim, names):
    """Every video file must hold exactly the fields of the refreshes of its pass."""
    n = 0
    S = c["sim"]
    p = int(sim.beamtim.pass_numb) - 1

    def check(path, tkey, cols, items):
        nonlocal n
        f = os.path.join(root, path)
        if not os.path.exists(f):
            raise Violation("a video file of a completed pass is missing", file=path)
        d = drive.load_mat(f)
        t = np.array([q[0] for q in items])
        if d[tkey].size != len(t) or np.any(np.abs(d[tkey].ravel() - t) > 1e-9 * np.abs(t)):
            raise Violation("a video file holds other instants than the refreshes of its pass", file=path, recorded=d[tkey].ravel().tolist()[:5],
                            expected=t.tolist()[:5], counts=[int(d[tkey].size), len(t)])
        for k, j in cols:
            e = np.array([q[j] for q in items])
            if e.size and (d[k].size != e.size or not np.array_equal(np.asarray(d[k]).reshape(e.shape), e)):
                raise Violation("a video file holds another field than the one of the recorded instant", file=path, variable=k)
        n += 1
    for i, s in enumerate(rec.S):
        if not s["new"]:
            continue
        if S.get("flag_movie") == 1:
            if i == rec.n - 1:
                check("out/rho_video/rho_pass%d.mat" % p, "t_video", [("rho_video", 1)], s.pop("vt", []))
            if rec.n > 1:
                check("out/rho_video_%s/rho_pass%d.mat" % (names[i], p), "t_video", [("rho_video", 1)], s.pop("vct", []))
        if S.get("flag_sc_movie") == 1:
            check("out/efield_video/efield_pass%d.mat" % p, "t_efield_video", [("efx_video", 1), ("efy_video", 2)], s.pop("vet", []))
    return n


def _life(emit, plan, root):
    c = plan["c"]
    drive.prepare(c, root)
    with common.mkworld(root, plan["env"]) as w:
        if plan["adv"]:
            world.RNG_HOOK = world.adversarial_rng(*plan["adv"])
        sim = drive.build(c, root)
        br = shadow.Bracket(sim)
        rec = shadow.Recorder(br, c, root)
        br.listeners.append(rec)
        outs = drive.outputs(c)
        names = [c["sim"].get("cloud_name")] + [k["_name"] for k in c["clouds"]]
        st = dict(files=0, variables=0, videos=0, states=set(), keys=set())

        def on_file(i):
            got = drive.load_mat(os.path.join(root, outs[i]))
            st["variables"] += rec.compare(i, got, outs[i])
            static(i, got)
            st["files"] += 1
            st["keys"] |= set(got)
            st["states"].add("%s|%d|%d|%d|%d" % (common.feature_sig(c), len(got), i, sim.beamtim.pass_numb, int(np.log2(rec.observed + 1))))

        def static(i, got):
            m = rec.S[i]["man"]
            S = c["sim"]
            for k, v in (("En_g_hist", np.linspace(0., S["En_hist_max"], S["Nbin_En_hist"])),
                         ("xg_hist", m["bias"] + m["dx"] * np.arange(m["n"]))):
                g = got[k].ravel()
                if g.shape != v.shape or not np.allclose(g, v, rtol=1e-9, atol=1e-12 * np.abs(v).max()):
                    raise Violation("a recorded axis differs from the one asked for", variable=k, cloud=i)
            if m["bias"] > -sim.chamb.x_aper or m["bias"] + m["dx"] * (m["n"] - 1) < sim.chamb.x_aper or abs(m["dx"] - S["Dx_hist"]) > 1e-12:
                raise Violation("the horizontal histogram axis does not cover the chamber with the bin width asked for", cloud=i)
            p = S.get("el_density_probes", [])
            for k, q in (("x_el_dens_probes", "x"), ("y_el_dens_probes", "y"), ("r_el_dens_probes", "r_obs")):
                if p and not np.allclose(got[k].ravel(), [z[q] for z in p], rtol=1e-12):
                    raise Violation("recorded probe positions differ from those asked for", variable=k)
            if "save_once_custom_observables" in c["observables"] and abs(float(got["obs_b"].squeeze()) - c["beam"]["b_spac"]) > 1e-20:
                raise Violation("a custom observable saved once differs", variable="obs_b")
        rec.on_file = on_file
        steps = due = 0
        every = c["sim"].get("save_mat_every", 1)
        while drive.step(sim):
            steps += 1
            if sim.beamtim.flag_new_bunch_pass:
                due += (sim.beamtim.pass_numb + 1) % every == 0
            st["videos"] += _videos(rec, c, root, sim, names)
        br.close()
        passes = [len(s["P"].get("t_hist", ())) for s in rec.S]
        w.active = False
        common.check_escapes(w)
        exp = int(sim.beamtim.N_pass_tot)
        if st["files"] != rec.n * due:
            raise Violation("output files were not written at the passes they are due", files=st["files"], passes=passes, every=every)
        fired = dict(w.fired)
        if plan["adv"]:
            for k, v in world.RNG_HOOK.counts.items():
                fired[k] = fired.get(k, 0) + v
        return dict(st, states=sorted(st["states"]), keys=sorted(st["keys"]), steps=steps, passes=passes, exp=exp, impacts=rec.observed,
                    fired=fired, tt=float(sim.beamtim.tt_curr))


def run(plan, emit):
    with proc.Scratch() as top:
        r = proc.raise_if_bad(proc.incarnation(_life, (plan, top)), "recorded run")
    return dict(faults=r["fired"], probes={"files compared": r["files"], "variables compared": r["variables"], "videos compared": r["videos"],
                                           "impacts": r["impacts"]},
                states=r["states"], sim_time=r["tt"], steps=r["steps"], nontrivial=r["impacts"] > 0 and r["passes"][0] >= 2,
                sig=[common.feature_sig(plan["c"]), r["keys"]], sample=dict(steps=r["steps"], passes=r["passes"], files=r["files"],
                                                                           variables=r["variables"], impacts=r["impacts"]))


def shrink(plan):
    if plan["adv"]:
        yield dict(plan, adv=None)
    yield from common.shrink_key(plan)
    for k in ("save_mp_state_time_file", "save_simulation_state_time_file", "flag_movie", "flag_sc_movie", "save_mat_every"):
        if k in plan["c"]["sim"]:
            p = copy.deepcopy(plan)
            del p["c"]["sim"][k]
            yield p
    for k in plan["c"]["observables"]:
        p = copy.deepcopy(plan)
        del p["c"]["observables"][k]
        yield p
