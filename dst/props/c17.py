"""C17: the field every cloud feels is that of all clouds, refreshed on schedule."""
import copy
import os
import types

import numpy as np

from .. import cfg, common, drive, proc, shadow
from ..proc import Violation

LEVEL = "exploration"
TIERS = {"quick": dict(runs=320, cap=60, shrink=60), "thorough": dict(runs=10000, cap=1500, shrink=180)}
RULE = ("a run draws a set-up with 1-3 clouds, refresh intervals from below a time step to a pass, switch-on times, uniform and non-uniform time steps; at "
        "every step the density, the field and the motion of every cloud are recomputed by a reference model (own deposit, own schedule, a second "
        "solver, own interpolation of the beam field, a private tracker); non-trivial when at least 3 refreshes and 20 pushes with a non-zero field were compared; "
        "distinct by feature signature, refresh interval and time step")
STATES = "distinct (features, refresh due or not, field on or off, populations of the clouds) reached"
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = common.ASSUME + ["the Poisson solver, the gather of PyPIC and the trackers are taken as they are (second instances of them compute the expected values)",
                               "electromagnetic tracking: the time derivative of the vector potential is taken over the nominal refresh interval; not with the FFT solvers (PyPIC has no states for them: such a simulation ends with an exception at once)"]
EPSMU = 8.8541878128e-12 * 1.25663706212e-6


def gen(r, tier):
    c = cfg.gen(r, nonunif_t=.15, clouds=r.choice([0, 0, 1, 2, 2]), em=r.random() < .15, small=r.random() < .3)
    S, bs = c["sim"], c["beam"]["b_spac"]
    S["Dt_sc"] = r.choice([0.3 * S["Dt"], S["Dt"], 1.5 * S["Dt"], 2 * S["Dt"], 0.2e-9, 0.5e-9, 0.9 * bs])
    S["t_sc_ON"] = r.choice([0., 0., 0., 0.4 * bs, 1.1 * bs, 10 * S["Dt"]])
    pic = r.choice([None, None, "FiniteDifferences_Staircase"] + (["FFT_PEC_Boundary", "FFT_OpenBoundary"] if c["mach"]["chamb_type"] == "rect" else []))
    if pic and not (S.get("flag_em_tracking") and pic.startswith("FFT")):
        S["PyPICmode"] = pic
    x = r.choice(["none", "none", "dense", "weak"])
    if x == "dense":
        c["mach"]["Nel_init_unif"] = 2e10
        S["nel_mp_ref_0"] = 2e10 / 200
    if x == "weak":
        for cl in c["clouds"]:
            cl["Nel_init_unif"] = r.choice([1e3, 1e6])
    return dict(c=c, x=x, env=common.gen_env(r))


def bilinear(x, y, x0, y0, dx, dy, *maps):
    fx, fy = (x - x0) / dx, (y - y0) / dy
    i, j = np.floor(fx).astype(int), np.floor(fy).astype(int)
    hx, hy = fx - i, fy - j
    n, m = maps[0].shape
    ok = (i >= 0) & (j >= 0) & (i < n - 1) & (j < m - 1)
    i, j = np.where(ok, i, 0), np.where(ok, j, 0)
    out = []
    for M in maps:
        v = M[i, j] * (1 - hx) * (1 - hy) + M[i + 1, j] * hx * (1 - hy) + M[i, j + 1] * (1 - hx) * hy + M[i + 1, j + 1] * hx * hy
        out.append(np.where(ok, v, 0.))
    return out


class Field:
    """The reference model of density, field, schedule and push."""

    def __init__(self, br, c):
        from PyECLOUD.space_charge_class import space_charge
        self.br, self.c = br, c
        sim, S = br.sim, c["sim"]
        self.em = bool(S.get("flag_em_tracking"))
        real = sim.spacech_ele.PyPICobj

        def solver():
            return space_charge(copy.deepcopy(sim.chamb), S["Dh_sc"], Dt_sc=S["Dt_sc"], PyPICmode=S.get("PyPICmode", "FiniteDifferences_ShortleyWeller"),
                                sparse_solver=getattr(real, "sparse_solver", "scipy_slu")).PyPICobj
        self.twin = solver()
        self.gd = [self.twin.dx if getattr(self.twin, "dx", None) is not None else self.twin.Dh, self.twin.dy if getattr(self.twin, "dy", None) is not None else self.twin.Dh]
        if self.em:     # the vector potential in the plane, now and at the refresh before
            self.A = [solver(), solver()]
            self.Aold = None
            self.beta = np.sqrt(1 - 1 / float(sim.spacech_ele.gamma) ** 2)
        self.q = [float(cl.MP_e.charge) for cl in sim.cloud_list]
        self.dyn = [copy.deepcopy(cl.dynamics) for cl in sim.cloud_list]
        self.tl, self.due = 0., False
        self.refreshed = self.pushed = 0
        self.exp = None
        self.last = self.fields()
        self.states = set()
        self.Ex0 = None

    def fields(self):
        return {k: np.array(v) for k, v in drive.field_arrays(self.br.sim).items()}

    def deposit(self, d, q, by=1.):
        g = self.twin
        rho = np.zeros((g.Nxg, g.Nyg))
        if d["N"]:
            fx, fy = (d["x_mp"] - g.bias_x) / self.gd[0], (d["y_mp"] - g.bias_y) / self.gd[1]
            i, j = np.floor(fx).astype(int), np.floor(fy).astype(int)
            hx, hy = fx - i, fy - j
            w = d["nel_mp"] * by
            for a, b, f in ((0, 0, (1 - hx) * (1 - hy)), (1, 0, hx * (1 - hy)), (0, 1, (1 - hx) * hy), (1, 1, hx * hy)):
                np.add.at(rho, (i + a, j + b), w * f)
        return rho * q / (self.gd[0] * self.gd[1])

    def fail(self, what, **k):
        bt = self.br.sim.beamtim
        raise Violation(what, step=int(bt.ii_curr), t=float(bt.tt_curr), **k)

    # ---- around a step
    def moved(self, i, b, a):
        if b["N"] == 0:
            return
        sim, c = self.br.sim, self.c
        bt = sim.beamtim
        mp = types.SimpleNamespace(N_mp=b["N"], charge=self.q[i], mass=float(sim.cloud_list[i].MP_e.mass), nel_mp=b["nel_mp"],
                                   **{k: b[k].copy() for k in shadow.ARR[:6]})
        dyn, S, M = self.dyn[i], c["sim"], c["mach"]
        beams = [bt] + list(sim.sec_beams_list or [])
        ii = int(bt.ii_curr)
        Dt = float(bt.t[ii + 1] - bt.t[ii])

        def field():
            ex, ey = self.twin.gather(mp.x_mp, mp.y_mp)
            ex, ey = np.array(ex), np.array(ey)
            b3 = [z, z, z]
            if self.em:     # E = -grad phi - dA/dt, B = rot A, with A from the currents of the clouds
                gx, gy = ([-np.array(v) for v in A.gather(mp.x_mp, mp.y_mp)] for A in self.A)      # gradients of Ax and Ay
                dA = [np.zeros(mp.N_mp)] * 2
                if self.Aold is not None:
                    dA = []
                    for A, old in zip(self.A, self.Aold):
                        new, A.phi = A.phi, old
                        was = np.array(A.gather_phi(mp.x_mp, mp.y_mp))
                        A.phi = new
                        dA.append((np.array(A.gather_phi(mp.x_mp, mp.y_mp)) - was) / S["Dt_sc"])
                ex, ey = ex - dA[0], ey - dA[1]
                b3 = [dA[1] / (self.beta * 299792458.), -dA[0] / (self.beta * 299792458.), gy[0] - gx[1]]
            for bm in beams:
                lam = float(bm.lam_t_array[ii])
                if lam > S["lam_th"]:
                    bx, by = bilinear(mp.x_mp, mp.y_mp, bm.xmin_beam, bm.ymin_beam, bm.dx_beam, bm.dy_beam, bm.Ex_beam, bm.Ey_beam)
                    ex += bm.beam_charge * lam * bx
                    ey += bm.beam_charge * lam * by
            return ex, ey, b3
        z = np.zeros(1)
        if M["track_method"] == "StrongBdip":
            ex, ey, b3 = field()
            dyn.step(mp, ex, ey, Ez_n=0, Bx_n=b3[0], By_n=b3[1], Bz_n=b3[2])
        else:
            nsub = M["N_sub_steps"]
            n = nsub if bt.flag_unif_Dt else max(1, int(np.round(Dt / (S["Dt"] / nsub))))
            dts = Dt / n
            if S.get("flag_reinterp_fields_at_substeps"):
                for _ in range(n):
                    ex, ey, b3 = field()
                    dyn.stepcustomDt(mp, ex, ey, Ez_n=0, Bx_n=b3[0], By_n=b3[1], Bz_n=b3[2], Dt_substep=dts, N_sub_steps=1)
            else:
                ex, ey, b3 = field()
                dyn.stepcustomDt(mp, ex, ey, Ez_n=0, Bx_n=b3[0], By_n=b3[1], Bz_n=b3[2], Dt_substep=dts, N_sub_steps=n)
        sx = np.hypot(mp.x_mp - b["x_mp"], mp.y_mp - b["y_mp"]) + 1e-9
        sv = np.sqrt(mp.vx_mp ** 2 + mp.vy_mp ** 2 + mp.vz_mp ** 2) + np.sqrt(b["vx_mp"] ** 2 + b["vy_mp"] ** 2 + b["vz_mp"] ** 2) + 1.
        for k, s in (("x_mp", sx), ("y_mp", sx), ("vx_mp", sv), ("vy_mp", sv), ("vz_mp", sv)):
            d = np.abs(getattr(mp, k) - a[k])
            bad = ~(d <= 1e-5 * s)
            if bad.any():
                q = int(np.argmax(np.where(np.isnan(d), np.inf, d / s)))
                self.fail("a cloud was not moved with the field of all clouds and beams", cloud=i, array=k, macroparticle=q,
                          moved=float(a[k][q]), expected=float(getattr(mp, k)[q]), wrong=int(bad.sum()), of=b["N"])
        if np.any(ex != 0):
            self.pushed += 1

    def before_save(self, i):
        if i != 0:
            return
        sim, S = self.br.sim, self.c["sim"]
        bt = sim.beamtim
        tt = float(bt.tt_curr)
        el = tt - self.tl - S["Dt_sc"]
        now = self.fields()
        changed = drive.diff(self.last, now) is not None
        recheck = bool(sim.spacech_ele.last_recomputation_check)
        due = el >= 0 if abs(el) > 1e-6 * S["Dt_sc"] else recheck
        if recheck != due:
            self.fail("the refresh of the field is not when its interval has elapsed", since=tt - self.tl, interval=S["Dt_sc"], refreshed=recheck)
        if due:
            self.tl = tt
        on = tt > S["t_sc_ON"]
        if changed and not due:
            self.fail("the field changed at a step where no refresh is due", since=tt - self.tl, interval=S["Dt_sc"])
        if changed and not on:
            self.fail("the field changed while it is switched off", switched_on=S["t_sc_ON"])
        if due and on:
            states = [shadow.take(cl.MP_e) for cl in sim.cloud_list]
            rhos = [self.deposit(d, q) for d, q in zip(states, self.q)]
            rho = sum(rhos)
            scale = max(np.max(np.abs(x)) for x in rhos)
            if np.any(np.abs(rho - now["rho"]) > 1e-9 * scale):
                self.fail("the charge density is not the sum of the densities of all clouds at the refresh",
                          total=float(now["rho"].sum() * self.gd[0] * self.gd[1]), expected=float(rho.sum() * self.gd[0] * self.gd[1]),
                          clouds=[float((x * self.gd[0] * self.gd[1]).sum()) for x in rhos])
            for k, (cl, x) in enumerate(zip(sim.cloud_list, rhos)):
                if cl.rho is not None and np.any(np.abs(np.asarray(cl.rho) - x) > 1e-9 * scale):
                    self.fail("the density attributed to a cloud is not its own", cloud=k)
            self.twin.rho = rho
            self.twin.solve()
            if self.em:
                self.Aold = [np.array(A.phi) for A in self.A]
                for A, v in zip(self.A, ("vx_mp", "vy_mp")):
                    A.rho = sum(self.deposit(d, q, EPSMU * d[v]) for d, q in zip(states, self.q))
                    A.solve()
            for k in ("phi", "efx", "efy"):
                e = getattr(self.twin, k)
                if np.any(np.abs(e - now[k]) > 1e-6 * max(np.max(np.abs(e)), 1e-30)):
                    self.fail("the field is not that of the density of all clouds", array=k)
            self.refreshed += 1
        self.last = now
        self.states.add("%s|%d|%d|%s" % (self.fs, due, on, [int(np.log2(cl.MP_e.N_mp + 1)) for cl in sim.cloud_list]))


def _life(emit, plan, root):
    c = plan["c"]
    drive.prepare(c, root)
    with common.mkworld(root, plan["env"]) as w:
        sim = drive.build(c, root)
        br = shadow.Bracket(sim)
        f = Field(br, c)
        f.fs = common.feature_sig(c)
        br.listeners.append(f)
        n = 0
        while drive.step(sim):
            n += 1
            if drive.diff(f.last, f.fields()) is not None:
                f.fail("the field changed after the refresh of the time step")
        br.close()
        w.active = False
        return dict(steps=n, states=sorted(f.states), refreshed=f.refreshed, pushed=f.pushed, tt=float(sim.beamtim.tt_curr))


def run(plan, emit):
    with proc.Scratch() as top:
        r = proc.raise_if_bad(proc.incarnation(_life, (plan, top)), "run")
    c = plan["c"]
    return dict(faults={}, probes={"refreshes": r["refreshed"], "pushes": r["pushed"]}, states=r["states"], sim_time=r["tt"], steps=r["steps"],
                nontrivial=r["refreshed"] >= 3 and r["pushed"] >= 20, sig=[common.feature_sig(c), c["sim"]["Dt_sc"], c["sim"]["Dt"], c["sim"]["t_sc_ON"]],
                sample=dict(steps=r["steps"], refreshes=r["refreshed"], pushes=r["pushed"]))


def shrink(plan):
    yield from common.shrink_key(plan)
    for k, v in (("t_sc_ON", 0.), ("Dt_sc", 2e-10)):
        if plan["c"]["sim"][k] != v:
            p = copy.deepcopy(plan)
            p["c"]["sim"][k] = v
            yield p
