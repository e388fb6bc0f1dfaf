"""C26: between two wall interactions the electrons and ions move under the forces that act on them."""
import math

import numpy as np

from .. import cfg, common, drive, proc, shadow, world
from ..proc import Violation

LEVEL = "exploration"
TIERS = {"quick": dict(runs=300, cap=50, shrink=60), "thorough": dict(runs=10000, cap=1500, shrink=180)}
RULE = ("a run draws a set-up with one of the trackers (dipole, generalized strong field, Boris with none / quadrupole / tabulated map, Boris with multipoles and skew multipoles, "
        "constant fields added), species of different mass and charge with their own sub-steps, beams of different charge, sign and threshold, uniform time steps from the input or from "
        "a file, non-uniform ones with abort gaps, fields re-interpolated at the sub-steps or not, four field solvers, electromagnetic tracking; at every step every macroparticle of every cloud is "
        "advanced independently from its state before the step, in the field of the last solution and of the beams at that time, and compared with where it arrived at the wall "
        "interaction; non-trivial when at least 200 moves were compared and a field acted; distinct by feature signature, magnet, beams and sub-steps")
STATES = "distinct (tracker, magnet, number of sub-steps, space charge on/off, beams acting, cloud, speed) reached"
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = ["the space-charge field at the nodes and the field maps of the beams are those the simulation holds (C17 decides the density they come from, C27 the beam)",
               "with telescopic grids, in electromagnetic runs, and in the grid cells cut by the wall, fields at a position are asked from the field solver"]
QE, ME = cfg.QE, cfg.ME


def gen(r, tier):
    track = r.choice(["StrongBdip", "StrongBgen", "Boris", "Boris", "BorisMultipole", "BorisMultipole"])
    multi = track in ("Boris", "BorisMultipole")
    c = cfg.gen(r, small=True, track=track if track != "StrongBgen" else "StrongBdip", nonunif_t=.25 if multi else 0., clouds=r.choice([0, 0, 1, 2]) if multi else 0,
                cross=False, em=r.random() < .12 if track == "BorisMultipole" else False, sec=r.random() < .35,
                sey=r.choice([0, "ECLOUD", "ACC_LOW"]))
    S, M, B = c["sim"], c["mach"], c["beam"]
    S.pop("Dh_electric_energy", None)
    em = S.get("flag_em_tracking")
    if track == "StrongBdip":
        M["B"] = r.choice([0., 1e-7, 1e-3, .1, .5355, 8.33, -.3, -1])
        if M["B"] == -1:
            M["bm_totlen"] = r.choice([17660.4, 2500.])

    def bmap():
        n = r.choice([9, 14])
        u = np.random.RandomState(r.randrange(1 << 30))
        d = dict(xx=list(np.linspace(-.03, .03, n)), yy=list(np.linspace(-.025, .025, n + 3)), Bx=(.2 * u.randn(n, n + 3)).tolist(), By=(.2 * u.randn(n, n + 3)).tolist())
        if r.random() < .5:
            d["Bz"] = (.1 * u.randn(n, n + 3)).tolist()
        c["mats"]["bmap.mat"] = dict(kind="raw", data=d)
    if track in ("StrongBgen", "Boris"):
        M.pop("B", None)
        k = r.choice(["none", "quad", "map"])
        if k == "quad":
            M.update(B_map_file="analytic_qaudrupole_unit_grad", fact_Bmap=r.choice([12.1, .5, -3.]))
        elif k == "map":
            bmap()
            M.update(B_map_file="@/bmap.mat", fact_Bmap=r.choice([1., -2., .1]))
        M.update(B0x=r.choice([0., 0., .02, -.2]), B0y=r.choice([0., .01, .5]))
        if track == "Boris":
            M["B0z"] = r.choice([0., .01, -.2])
        else:
            M.update(track_method="StrongBgen", B_zero_thrhld=r.choice([1e-6, 1e-3, .05]))
            if k == "map":
                c["mats"]["bmap.mat"]["data"].pop("Bz", None)
    if track == "BorisMultipole":
        n = r.choice([0, 1, 2, 3, 4])
        M["B_multip"] = [r.choice([0., .01, -.5]), r.choice([5., -12.]), r.choice([0., 400.]), r.choice([5e4, -1e4])][:n]
        M.pop("B_skew", None)
        if n and r.random() < .5:
            M["B_skew"] = [r.choice([0., .02]), r.choice([0., 3.]), r.choice([100., 0.]), 1e4][:n]
        if r.random() < .4:
            for k in ("B0x", "B0y", "B0z"):
                if r.random() < .6:
                    M[k] = r.choice([0., .03, -.2])
    if multi:
        M["N_sub_steps"] = r.choice([1, 1, 2, 3, 5, 7])
        if track == "BorisMultipole":
            M.pop("B_map_file", None)
        for cl in c["clouds"]:
            if r.random() < .6:
                cl["N_sub_steps"] = r.choice([1, 2, 4])
            if r.random() < .5:
                cl["cloud_charge"] = r.choice([QE, -QE, 2 * QE])
                cl["cloud_mass"] = r.choice([ME, 1.66053906660e-27, 50 * ME])
                if cl["cloud_mass"] != ME:
                    cl["switch_model"] = "perfect_absorber"
        S.pop("flag_reinterp_fields_at_substeps", None)
        if r.random() < .3:
            S["flag_reinterp_fields_at_substeps"] = True
    S["lam_th"] = r.choice([1e2, 1e2, 1e10, 3e11])
    for b in [B] + c["sec_beams"]:
        if r.random() < .4:
            b["q_part"] = r.choice([-QE, 2 * QE, -3 * QE])
        b["fact_beam"] = b["fact_beam"] * r.choice([1., 1., 3., .01])
        if r.random() < .2:
            b["coast_dens"] = 1e10
    if B["flag_bunched_beam"] and r.random() < .2:      # the profile of the beam, and with it the time step, from a file
        dt = r.choice([S["Dt"], 2 * S["Dt"], S["Dt"] / 2])
        c["mats"]["prof.mat"] = dict(kind="profile", steps=[[r.choice([30, 60]), dt]], lam=1.5e12 * r.choice([1., .01]), period=B["b_spac"])
        B.update(flag_bunched_beam=0, beam_long_prof_file="@/prof.mat", fact_beam=1., filling_pattern_file=-1, sigmaz=-1)
        for b in c["sec_beams"]:
            if b["flag_bunched_beam"] and r.random() < .5:
                b.update(flag_bunched_beam=0, beam_long_prof_file="@/prof.mat", fact_beam=.4, filling_pattern_file=-1, sigmaz=-1)
    if not em and r.random() < .3:
        S["PyPICmode"] = r.choice(["FiniteDifferences_Staircase"] + (["FFT_PEC_Boundary", "FFT_PEC_Boundary"] if M["chamb_type"] == "rect" else []))
    return dict(c=c, env=common.gen_env(r))


def gather(x, y, x0, y0, dx, dy, A):
    """Bilinear interpolation, zero outside the grid."""
    fx, fy = (x - x0) / dx, (y - y0) / dy
    i, j = np.floor(fx).astype(int), np.floor(fy).astype(int)
    ok = (i >= 0) & (j >= 0) & (i < A.shape[0] - 1) & (j < A.shape[1] - 1)
    i, j = np.where(ok, i, 0), np.where(ok, j, 0)
    u, v = fx - i, fy - j
    w = A[i, j] * (1 - u) * (1 - v) + A[i + 1, j] * u * (1 - v) + A[i, j + 1] * (1 - u) * v + A[i + 1, j + 1] * u * v
    return np.where(ok, w, 0.)


class At:
    """A place where the fields are asked for."""

    def __init__(self, x, y):
        self.x_mp, self.y_mp, self.N_mp = np.ascontiguousarray(x), np.ascontiguousarray(y), len(x)


class Magnet:
    def __init__(self, c):
        M = c["mach"]
        self.M, self.kind = M, M["track_method"]
        self.map = c["mats"]["bmap.mat"]["data"] if "bmap.mat" in c["mats"] else None
        self.B0 = [M.get(k) or 0. for k in ("B0x", "B0y", "B0z")]
        self.th = M.get("B_zero_thrhld")
        if self.kind == "StrongBdip":
            B = M["B"]
            if B == -1:
                b = c["beam"]
                E = b["energy_eV"]
                m = 938.27208816e6
                B = 2 * np.pi * np.sqrt(1 - (m / E) ** 2) * E / (299792458. * M["bm_totlen"])
            self.B0 = [0., B, 0.]

    def at(self, x, y):
        M = self.M
        o = np.zeros_like(x)
        if self.kind == "BorisMultipole":
            k, s = M.get("B_multip") or [0.], M.get("B_skew")
            z = o + 0j
            for n, a in enumerate(k):
                z = z + (a + 1j * (s[n] if s else 0.)) * (x + 1j * y) ** n / math.factorial(n)
            b = [z.imag, z.real, o]         # B_y + i B_x = sum (k + i k') (x + i y)^n / n!
        elif M.get("B_map_file") == "analytic_qaudrupole_unit_grad":
            g = M["fact_Bmap"]
            b = [g * y, g * x, o]
        elif self.map is not None:
            d, g = self.map, M["fact_Bmap"]
            xx, yy = d["xx"], d["yy"]
            b = [g * gather(x, y, xx[0], yy[0], xx[1] - xx[0], yy[1] - yy[0], np.array(d[q])) if q in d else o for q in ("Bx", "By", "Bz")]
        else:
            b = [o, o, o]
        return [u + v for u, v in zip(b, self.B0)]


def boris(s, E, Bf, qm, dt, n):
    """n steps; E are given, the magnetic field is that at the position of every step."""
    X, V = [s["x_mp"].copy(), s["y_mp"].copy(), s["z_mp"].copy()], np.array([s["vx_mp"], s["vy_mp"], s["vz_mp"]])
    h = .5 * qm * dt
    kick = h * np.array([E[0], E[1], np.zeros_like(E[0])])
    for _ in range(n):
        t = h * np.array(Bf(X[0], X[1]))
        V = V + kick
        w = V + np.cross(V, t, axis=0)
        V = V + np.cross(w, 2 * t / (1 + (t * t).sum(0)), axis=0) + kick
        X = [a + dt * b for a, b in zip(X, V)]
    return X, V


def exact(s, E, B, qm, dt, th):
    """Constant fields: the exact solution, in the frame along the (transverse) magnetic field."""
    X, V = np.array([s["x_mp"], s["y_mp"], s["z_mp"]]), np.array([s["vx_mp"], s["vy_mp"], s["vz_mp"]])
    a = qm * np.array([E[0], E[1], np.zeros_like(E[0])])
    m = np.hypot(B[0], B[1])
    free = (m < th) | (m == 0)
    b = np.array([B[0], B[1], 0 * m]) / np.where(m > 0, m, 1.)
    w = qm * np.where(free, 0., m)
    # dV/dt = a + w V x b : parallel motion is free, perpendicular motion in the complex plane (e1, e2) with e1 x e2 = b
    vp, ap = (V * b).sum(0), (a * b).sum(0)
    Vt, at = V - vp * b, a - ap * b
    e1 = np.array([-b[1], b[0], 0 * m])
    e2 = np.cross(b, e1, axis=0)
    u, g = (Vt * e1).sum(0) + 1j * (Vt * e2).sum(0), (at * e1).sum(0) + 1j * (at * e2).sum(0)
    # V x b : e1 x b = -e2, e2 x b = e1  =>  du/dt = g - i w u
    th_ = w * dt
    small = np.abs(th_) < 1e-3
    q = np.where(small, 1., th_)
    f0 = np.exp(-1j * th_)
    f1 = np.where(small, 1 - .5j * th_ - th_ ** 2 / 6 + 1j * th_ ** 3 / 24, (1 - np.exp(-1j * q)) / (1j * q))          # integral of f0
    f2 = np.where(small, .5 - 1j * th_ / 6 - th_ ** 2 / 24 + 1j * th_ ** 3 / 120, (1 - (1 - np.exp(-1j * q)) / (1j * q)) / (1j * q))
    u1 = u * f0 + g * dt * f1
    d = u * dt * f1 + g * dt ** 2 * f2
    V1 = (vp + ap * dt) * b + u1.real * e1 + u1.imag * e2
    X1 = X + (vp * dt + .5 * ap * dt ** 2) * b + d.real * e1 + d.imag * e2
    if free.any():
        V1[:, free] = (V + a * dt)[:, free]
        X1[:, free] = (X + V * dt + .5 * a * dt ** 2)[:, free]
    return X1, V1


class Judge:
    def __init__(self, br, c):
        self.br, self.c, self.mag = br, c, Magnet(c)
        S, M = c["sim"], c["mach"]
        sim = br.sim
        self.em = bool(S.get("flag_em_tracking"))
        self.reinterp = bool(S.get("flag_reinterp_fields_at_substeps"))
        self.species = [(ME, -QE, M.get("N_sub_steps", 1))] + [(cl["cloud_mass"], cl["cloud_charge"], cl.get("N_sub_steps", M.get("N_sub_steps", 1))) for cl in c["clouds"]]
        t = np.array(cfg.timeline(c)[0])
        self.t = t
        d = np.diff(t)
        self.unif = c["beam"]["flag_bunched_beam"] or (d.max() - d.mean()) <= 1e-4 * d.mean()
        self.n, self.acted, self.lost, self.states = 0, 0, 0, set()
        self.beams = [sim.beamtim] + list(sim.sec_beams_list)
        self.q = [b.get("q_part", QE) for b in [c["beam"]] + c["sec_beams"]]
        self.freeze()

    def freeze(self):
        """The state of everything that acts during the next step."""
        sim = self.br.sim
        self.before = [shadow.take(cl.MP_e) for cl in sim.cloud_list]
        sc = sim.spacech_ele
        self.sc = None if self.em else (np.array(sc.efx), np.array(sc.efy))
        self.done = set()

    def fields(self, x, y):
        sim = self.br.sim
        sc = sim.spacech_ele
        B = None
        if self.em:
            Ex, Ey, *B = sc.get_sc_em_field(At(x, y))
            Ex, Ey = np.array(Ex), np.array(Ey)
        else:
            g = (sc.bias_x, sc.bias_y, sc.xg[1] - sc.xg[0], sc.yg[1] - sc.yg[0])
            Ex, Ey = (gather(x, y, *g, a) for a in self.sc)
            m = getattr(sc.PyPICobj, "flag_inside_n_mat", None)
            if self.c["sim"].get("PyPICmode") in (None, "FiniteDifferences_ShortleyWeller"):
                edge = gather(x, y, *g, np.where(m, 0., 1.)) > 0        # cells cut by the wall: the solver's own rule
                if edge.any():
                    Px, Py = sc.PyPICobj.gather(np.ascontiguousarray(x[edge]), np.ascontiguousarray(y[edge]))
                    Ex[edge], Ey[edge] = Px, Py
        on = [bool(np.any(Ex))]
        for b, q in zip(self.beams, self.q):
            lam = float(b.lam_t_array[self.br.sim.beamtim.ii_curr])
            on.append(lam > self.c["sim"]["lam_th"])
            if on[-1]:
                for A, F in ((Ex, b.Ex_beam), (Ey, b.Ey_beam)):
                    A += q * lam * gather(x, y, b.xx_beam[0], b.yy_beam[0], b.xx_beam[1] - b.xx_beam[0], b.yy_beam[1] - b.yy_beam[0], np.asarray(F))
        self.on = on
        return Ex, Ey, B

    def impact(self, e):
        self.done.add(e.i)
        s, got = self.before[e.i], e.before
        if s["N"] != got["N"]:
            raise Violation("motion changed the number of macroparticles", cloud=e.i)
        if not s["N"]:
            return
        k = int(self.br.sim.beamtim.ii_curr)
        Dt = float(self.t[k + 1] - self.t[k])
        mass, charge, nsub = self.species[e.i]
        qm = charge / mass
        kind = self.mag.kind
        n, spread = 1, (0., 0.)
        E0 = self.fields(s["x_mp"], s["y_mp"])
        if kind.startswith("Strong"):
            B = self.mag.at(s["x_mp"], s["y_mp"])
            X, V = exact(s, E0, B, qm, Dt, self.mag.th or 0.)
        else:
            n = nsub if self.unif else max(1, int(np.round(Dt / (self.c["sim"]["Dt"] / nsub))))
            X, V = self.many(s, qm, Dt / n, n)
            if n > 2:
                # how much a rounding error grows on the way (close passages of the beam amplify it)
                u = np.random.RandomState(1).uniform(-1, 1, (6, s["N"]))
                z = {k: s[k] * (1 + 1e-11 * u[j]) for j, k in enumerate(("x_mp", "y_mp", "z_mp", "vx_mp", "vy_mp", "vz_mp"))}
                X2, V2 = self.many(z, qm, Dt / n, n)
                spread = np.sqrt(((np.asarray(V2) - V) ** 2).sum(0)), np.sqrt(((np.asarray(X2) - np.asarray(X)) ** 2).sum(0))
        a = np.abs(qm) * np.hypot(E0[0], E0[1])
        v = np.sqrt(s["vx_mp"] ** 2 + s["vy_mp"] ** 2 + s["vz_mp"] ** 2) + a * Dt + np.sqrt((np.asarray(V) ** 2).sum(0))
        # rounding, and the phase of the rotation, which accumulates the difference of the tabulated constants
        wm = 0.
        if kind.startswith("Strong"):
            wm = np.abs(qm) * np.hypot(B[0], B[1]) * Dt
        tol = 2e-7 * (1 + wm)
        lost = spread[0] > 1e-5 * v      # chaotic: rounding decides where it arrives
        self.lost += int(np.sum(lost))
        tol = np.where(lost, np.inf, tol)
        for q, (name, g) in enumerate((("vx", got["vx_mp"]), ("vy", got["vy_mp"]), ("vz", got["vz_mp"]))):
            self.cmp(name, g, V[q], tol * v + 1e-9 + .03 * spread[0], e, s, Dt, n, X, V)
        for q, (name, g) in enumerate((("x", got["x_mp"]), ("y", got["y_mp"]), ("z", got["z_mp"]))):
            self.cmp(name, g, X[q], tol * v * Dt + 1e-13 * (np.abs(X[q]) + .01) + .03 * spread[1], e, s, Dt, n, X, V)
        self.n += s["N"]
        if any(self.on):
            self.acted += s["N"]
        self.states.add("%s|%s|%d|%s|%s|%d|%d" % (kind, self.c["mach"].get("B_map_file", len(self.c["mach"].get("B_multip", []))), n, self.on, self.reinterp, e.i, int(np.log10(v.max() + 1))))

    def many(self, s, qm, dt, n):
        """n sub-steps of the macroparticles s; the electric field is that at the start, or asked again at every sub-step."""
        z = dict(s)
        for i in range(1 if not self.reinterp else n):
            E = self.fields(z["x_mp"], z["y_mp"])
            Bs = E[2] or (0., 0., 0.)
            X, V = boris(z, E, lambda x, y: [a + b for a, b in zip(self.mag.at(x, y), Bs)], qm, dt, 1 if self.reinterp else n)
            z.update(x_mp=X[0], y_mp=X[1], z_mp=X[2], vx_mp=V[0], vy_mp=V[1], vz_mp=V[2])
        return X, V

    def cmp(self, name, g, x, tol, e, s, Dt, n, X, V):
        bad = ~((np.abs(g - x) <= tol) | np.isinf(tol))
        if bad.any():
            q = int(np.argmax(np.where(bad, 1., 0.)))
            raise Violation("a macroparticle did not move as the forces on it demand", coordinate=name, cloud=e.i, step=int(self.br.sim.beamtim.ii_curr), got=float(g[q]),
                            expected=float(x[q]), from_x=[float(s[k][q]) for k in ("x_mp", "y_mp", "z_mp")], from_v=[float(s[k][q]) for k in ("vx_mp", "vy_mp", "vz_mp")],
                            Dt=Dt, sub_steps=n, fields_on=self.on, wrong=int(bad.sum()), of=int(g.size))


def _life(emit, plan, root):
    c = plan["c"]
    drive.prepare(c, root)
    with common.mkworld(root, plan["env"]) as w:
        sim = drive.build(c, root)
        br = shadow.Bracket(sim)
        J = Judge(br, c)
        br.listeners.append(J)
        steps = 0
        while not sim.beamtim.end_simulation():
            J.freeze()
            try:
                if not drive.step(sim):
                    break
            except ValueError as e:
                if "no room for" in str(e):      # the arrays are full (C08 decides whether they are): nothing more to see
                    break
                raise
            if len(J.done) != len(sim.cloud_list):
                raise Violation("a cloud was not taken through a time step", step=steps, clouds=sorted(J.done))
            steps += 1
        br.close()
        w.active = False
        common.check_escapes(w)
        return dict(steps=steps, states=sorted(J.states), n=J.n, acted=J.acted, lost=J.lost, fired=dict(w.fired), tt=float(sim.beamtim.tt_curr))


def run(plan, emit):
    with proc.Scratch() as top:
        r = proc.raise_if_bad(proc.incarnation(_life, (plan, top)), "run")
    M = plan["c"]["mach"]
    return dict(faults=r["fired"], probes={"moves compared": r["n"], "in a field": r["acted"], "chaotic, not compared": r["lost"]}, states=r["states"], sim_time=r["tt"],
                steps=r["steps"], nontrivial=r["n"] >= 200 and r["acted"] > 0,
                sig=[common.feature_sig(plan["c"]), M.get("B_map_file"), M.get("N_sub_steps"), len(M.get("B_multip", [])), plan["c"]["sim"].get("PyPICmode")],
                sample=dict(steps=r["steps"], moves=r["n"], in_field=r["acted"]))


def shrink(plan):
    yield from common.shrink_key(plan)
