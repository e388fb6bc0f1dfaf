"""C04: snapshots and saved states are taken when requested and can be continued from."""
import copy
import os
import shutil

import numpy as np

from .. import cfg, common, drive, proc, shadow
from ..proc import Violation
from . import c03

LEVEL = "exploration"
TIERS = {"quick": dict(runs=200, cap=60, shrink=60), "thorough": dict(runs=8000, cap=1500, shrink=180)}
RULE = ("a run draws a set-up with 1-3 clouds, request times for macroparticle snapshots and simulation states (before the start, on and between time steps, several within "
        "a step, after the end; given in the input or in a file) and a chain of up to 2 reloads, each in a fresh process and folder; after every step the snapshot files on disk "
        "must be those a model of the requests expects, with the macroparticles of that step; every reloaded run must compute, step by step, the states and the recorded samples of the "
        "run without any request; non-trivial when at least one snapshot was compared or a reloaded run executed 5 steps; distinct by feature signature, requests and reloads")
STATES = "distinct (features, requests pending per cloud, empty or not, new pass or not, reloaded or not) reached"
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = common.ASSUME + ["request times are sorted", "the position in the random stream is carried over by the simulated environment",
                               "a reloaded run uses a folder of its own, as it takes the requests of its own input"]

STEP = ("t lam_t_array Nel_timep Nel_imp_time Nel_emit_time En_imp_eV_time En_emit_eV_time En_kin_eV_time cen_density N_mp_time nel_mp_ref_time Nel_cross_ion "
        "N_mp_cross_ion DN_cross_ion En_electric_eV_time el_dens_at_probes obs_x").split()
PASS = ("t_hist nel_hist nel_impact_hist_tot nel_impact_hist_scrub energ_eV_impact_hist N_mp_impact_pass N_mp_corrected_pass N_mp_pass N_mp_ref_pass nel_hist_impact_seg "
        "nel_hist_emit_seg energ_eV_impact_seg nel_hist_det obs_n").split()
ENER = "t_En_hist En_hist all_Ekin_hist cos_angle_hist".split()
LIFE = "t_lifetime_hist lifetime_hist".split()
SPCH = "t_sc_video U_sc_eV".split()


def times(r, t, n):
    out = []
    while len(out) < n:
        i = r.randrange(len(t) - 1)
        k = r.choice(["grid", "grid", "between", "between", "zero", "neg", "end", "after", "same", "near"])
        x = {"grid": t[i], "between": t[i] + .6 * (t[i + 1] - t[i]), "zero": 0., "neg": -1e-9, "end": t[-2], "after": 2 * t[-1],
             "same": out[-1] if out else t[i], "near": (out[-1] if out else t[i]) + .2 * (t[1] - t[0])}[k]
        out.append(float(x))
    return sorted(out)


def gen(r, tier):
    small = r.random() < .5
    c = cfg.gen(r, nonunif_t=.1, small=small, clouds=r.choice([None, 0, 1, 2]))
    S = c["sim"]
    if r.random() < .25:
        c["observables"]["step_by_step_custom_observables"] = c03.SBS
    if r.random() < .25:
        c["observables"]["pass_by_pass_custom_observables"] = c03.PBP
    t, bs, n = cfg.timeline(c)
    if r.random() < .15:
        c["mach"]["init_unif_flag"] = 0
        c["mach"].pop("Nel_init_unif", None)
        c["mach"].update(gas_ion_flag=1, P_nTorr=3e5, sigma_ion_MBarn=2., Temp_K=300., unif_frac=.1, E_init_ion=0.1)
    chain = []
    if r.random() < .75:
        for _ in range(r.choice([1, 1, 2])):
            chain.append(dict(k=r.random(), form=r.choice(["folder", "folder", "path"]), name=r.choice(["default", "none", "own"]), force=r.random() < .5))
    return dict(c=c, mp=times(r, t, r.choice([0, 1, 1, 2, 4])), st=times(r, t, r.choice([1, 1, 2, 3])) if chain or r.random() < .3 else [],
                mpfile=r.random() < .3, stfile=r.random() < .3, chain=chain, u=r.random(), again=times(r, t, 1)[0], envs=[common.gen_env(r) for _ in range(3)])


def with_requests(c, mp, st, mpfile, stfile):
    c = copy.deepcopy(c)
    if mp:
        c["sim"]["save_mp_state_time_file"] = "@/mpt.mat" if mpfile else mp
        if mpfile:
            c["mats"]["mpt.mat"] = dict(kind="raw", data=dict(t_obs=mp))
    if st:
        c["sim"]["save_simulation_state_time_file"] = "@/stt.mat" if stfile else st
        if stfile:
            c["mats"]["stt.mat"] = dict(kind="raw", data=dict(t_obs=st))
    return c


class Requests:
    """The model of what is on disk."""

    def __init__(self, sim, root, mp, st, fs):
        self.sim, self.root, self.mp, self.st = sim, root, mp, st
        self.n = [0] * len(sim.cloud_list)
        self.ns = 0
        self.expected, self.known, self.states = {}, {}, {}
        self.cov, self.fs, self.compared = set(), fs, 0

    def name(self, i, k):
        return "MP_state_%d" % k if len(self.sim.cloud_list) == 1 else "MP_state_%s_%d" % (self.sim.cloud_list[i].name, k)

    def before_save(self, i):
        d = shadow.take(self.sim.cloud_list[i].MP_e)
        tt = float(self.sim.beamtim.tt_curr)
        if d["N"] > 0 and self.n[i] < len(self.mp) and tt >= self.mp[self.n[i]]:
            self.expected[self.name(i, self.n[i])] = dict(d, tt=tt)
            self.n[i] += 1
        if i == len(self.sim.cloud_list) - 1 and self.ns < len(self.st) and tt >= self.st[self.ns]:
            self.states["simulation_state_%d.pkl" % self.ns] = int(self.sim.beamtim.ii_curr)
            self.ns += 1
        self.cov.add("%s|%s|%d|%d|%d" % (self.fs, self.n, self.ns, d["N"] > 0, bool(self.sim.beamtim.flag_new_bunch_pass)))

    def stepped(self):
        """Compare the folder with the model (between two steps)."""
        tt = float(self.sim.beamtim.tt_curr)
        out = os.path.join(self.root, "out")
        full = {f[:-4] if f.startswith("MP_state_") and f.endswith(".mat") else f: os.path.join(out, f) for f in os.listdir(out)
                if f.startswith(("MP_state_", "simulation_state_"))}
        have = {f: os.stat(p) for f, p in full.items()}
        want = set(self.expected) | set(self.states)
        if set(have) != want:
            raise Violation("snapshots on disk are not the requested ones", missing=sorted(want - set(have))[:4], unexpected=sorted(set(have) - want)[:4],
                            t=tt, requested=self.mp[:6], states=self.st[:6])
        for f, s in have.items():
            key = (s.st_ino, s.st_size, s.st_mtime_ns)
            if f in self.known:
                if self.known[f] != key:
                    raise Violation("a snapshot is written again", file=f, t=tt)
                continue
            self.known[f] = key
            if f in self.expected:
                e, g = self.expected[f], drive.load_mat(full[f])
                self.compared += 1
                if int(g["N_mp"].ravel()[0]) != e["N"] or float(g["tt"].ravel()[0]) != e["tt"]:
                    raise Violation("a snapshot is not that of the step it was due at", file=f, N_mp=int(g["N_mp"].ravel()[0]), expected=e["N"],
                                    tt=float(g["tt"].ravel()[0]), due=e["tt"])
                for k in shadow.ARR:
                    if not np.array_equal(g[k].ravel(), e[k]):
                        raise Violation("a snapshot does not contain the macroparticles of its step", file=f, array=k, t=tt)


def life(emit, c, root, env, mp, st, rng, load, first_only=False):
    drive.prepare(c, root)
    with common.mkworld(root, env, emit=emit, rng_states=rng) as w:
        w.track_rng = True
        sim = drive.build(c, root)
        dig = {}
        if load:
            with np.errstate(all="ignore"):
                sim.load_state(load["file"], **load["kw"])
            dig[int(sim.beamtim.ii_curr)] = drive.digest(sim)
        first = int(sim.beamtim.ii_curr)
        t0 = None if sim.beamtim.tt_curr is None else float(sim.beamtim.tt_curr)
        br = shadow.Bracket(sim)
        q = Requests(sim, root, mp, st, common.feature_sig(c) + [bool(load)])
        br.listeners.append(q)
        while drive.step(sim):
            dig[int(sim.beamtim.ii_curr)] = drive.digest(sim)
            w.active = False
            q.stepped()
            w.active = True
        br.close()
        w.active = False
        common.check_escapes(w)
        w.flush()
        return dict(dig=dig, first=first, t0=t0, states=q.states, cov=sorted(q.cov), compared=q.compared, tt=float(sim.beamtim.tt_curr),
                    files=sorted(f for f in os.listdir(os.path.join(root, "out")) if f.endswith(".mat") and f.startswith("Pyecltest")))


def tail(a, b, t0, who):
    """The samples of file b are those of file a later than t0."""
    for names, axis in ((STEP, -1), (PASS, 0), (ENER, 0), (LIFE, 0), (SPCH, 0)):
        if names[0] not in a:
            continue
        ta = a[names[0]].ravel()
        m = ta > t0
        for k in names:
            if k not in a or a[k].size < ta.size:
                continue
            if k not in b:
                raise Violation("a continued simulation does not record a quantity", variable=k, file=who)
            va, vb = a[k], b[k]
            if va.shape[0] == 1 and va.shape[-1] == ta.size:
                va = va.ravel()[m]
                vb = vb.ravel()
            elif axis == -1:
                va = va[..., m]
            else:
                va = va[m] if va.shape[0] == ta.size else None
            if va is None:
                continue
            if va.size == 0 and vb.size == 0:
                continue
            if va.shape != vb.shape and va.size == vb.size:
                vb = vb.reshape(va.shape)
            d = drive.diff({k: va}, {k: vb})
            if d:
                raise Violation("a continued simulation records other samples", diff=d, file=who, from_time=t0)


def run(plan, emit):
    c0 = plan["c"]
    with proc.Scratch() as top:
        roots = [os.path.join(top, k) for k in ("ref", "save", "re0", "re1")]
        for x in roots:
            os.makedirs(x)
        ref = proc.raise_if_bad(proc.incarnation(life, (c0, roots[0], plan["envs"][0], [], [], {}, None)), "run without requests")
        c = with_requests(c0, plan["mp"], plan["st"], plan["mpfile"], plan["stfile"])
        o = proc.incarnation(life, (c, roots[1], plan["envs"][1], plan["mp"], plan["st"], {}, None))
        res = proc.raise_if_bad(o, "run with requests")
        rng = o[2]["world"][-1]["rng"]
        if res["dig"] != ref["dig"]:
            bad = [ii for ii in sorted(ref["dig"]) if res["dig"].get(ii) != ref["dig"][ii]]
            raise Violation("taking snapshots disturbs the simulation", step=bad[0])
        d = drive.diff(common.outputs(c0, roots[0]), common.outputs(c, roots[1]))
        if d:
            raise Violation("taking snapshots changes the output", diff=d)
        cov, cmpd, steps, loaded, n_state = set(res["cov"]), res["compared"], 0, 0, len(res["states"])
        src = roots[1]
        for k, L in enumerate(plan["chain"]):
            names = sorted(res["states"])
            if not names:
                break
            f = names[int(L["k"] * len(names))]
            at = res["states"][f]
            kw = dict(force_disable_save_simulation_state=L["force"])
            folder = os.path.join(roots[2 + k], "from")
            os.makedirs(folder)
            shutil.copy(os.path.join(src, "out", f), folder)
            if L["form"] == "folder":
                kw["load_from_folder"] = folder
                path = f
            else:
                path = os.path.join(folder, f)
            if L["name"] == "none":
                kw["filen_main_outp"] = None
            elif L["name"] == "own":
                kw["filen_main_outp"] = "Pyecltest_again"
            st2 = []
            if not L["force"] and k + 1 < len(plan["chain"]):
                t = ref_times(c0)
                lo = t[min(at + 1, len(t) - 2)]
                st2 = [float(lo + plan["u"] * (t[-2] - lo))]
            cc = with_requests(c0, [], st2, False, False)
            o = proc.incarnation(life, (cc, roots[2 + k], plan["envs"][2], [], st2, rng, dict(file=path, kw=kw)))
            r = proc.raise_if_bad(o, "continuing from a saved state")
            loaded += 1
            if r["first"] != at:
                raise Violation("a saved state does not resume at the step it was saved at", resumed=r["first"], saved=at, file=f)
            for ii in sorted(ref["dig"]):
                if ii >= at and r["dig"].get(ii) != ref["dig"][ii]:
                    raise Violation("continuing from a saved state computes another state", step=ii, saved=at, missing=ii not in r["dig"])
            steps += len(r["dig"]) - 1
            ext = {"none": "", "own": "_again", "default": "_restarted"}[L["name"]]
            for g in drive.outputs(c0):
                pa = os.path.join(roots[0], g)
                pb = os.path.join(roots[2 + k], g[:-4] + ext + ".mat")
                if not os.path.exists(pb):
                    ta = drive.load_mat(pa)["t_hist"].ravel()
                    if np.any(ta > r["t0"]):
                        raise Violation("a continued simulation does not save its output", expected=os.path.basename(pb), found=r["files"])
                    continue
                a, b = drive.load_mat(pa), drive.load_mat(pb)
                tail(a, b, r["t0"], os.path.basename(pb))
            cov |= set(r["cov"])
            rng, src, res = o[2]["world"][-1]["rng"], roots[2 + k], r
        return dict(faults={"process.stop": loaded}, probes={"snapshots": cmpd, "states": n_state, "reloads": loaded}, states=sorted(cov)[:400],
                    sim_time=ref["tt"] * (2 + loaded), steps=2 * len(ref["dig"]) + steps, nontrivial=cmpd > 0 or steps >= 5,
                    sig=[common.feature_sig(c0), plan["mp"], plan["st"], plan["chain"]], sample=dict(snapshots=cmpd, reloads=loaded, steps=steps))


def ref_times(c):
    return np.array(cfg.timeline(c)[0])


def shrink(plan):
    yield from common.shrink_list(plan, "mp")
    if len(plan["chain"]) > 1:
        yield dict(plan, chain=plan["chain"][:1])
    if plan["chain"]:
        yield dict(plan, chain=[])
    yield from common.shrink_list(plan, "st")
    for k in ("mpfile", "stfile"):
        if plan[k]:
            yield dict(plan, **{k: False})
    yield from common.shrink_key(plan)
    for k in plan["c"]["observables"]:
        p = copy.deepcopy(plan)
        del p["c"]["observables"][k]
        yield p
