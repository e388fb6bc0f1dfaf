"""C25: every impact on the wall releases what the surface model prescribes."""
import copy

import numpy as np
import scipy.special as sp
import scipy.stats as st

from .. import cfg, common, drive, geom, proc, shadow, world
from ..proc import Violation

LEVEL = "exploration"
TIERS = {"quick": dict(runs=240, cap=90, shrink=60), "thorough": dict(runs=8000, cap=1500, shrink=180)}
RULE = ("a run draws a surface model with its parameters (eight models, the Furman-Pivi model with its own variants, per-segment and charging surfaces, curves from file, other parameters for further clouds) "
        "and a set-up; in every step some macroparticles are given seeded energies, angles, charges and places on the wall; each impact is compared with an independent "
        "computation of the charge, the number of macroparticles, the limits of energy and the direction of what is released, and over the run the fluctuations (elastic or not, numbers, energies, "
        "directions) must follow the prescribed distributions (bounds exceeded with probability below 1e-12); part of the runs inject extreme uniform draws instead; at the end the curves and energy "
        "distributions the code extracts from its surface are compared as well; non-trivial when at least 200 impacts were compared; distinct by model, parameters and draws")
STATES = "distinct (model, cloud, energy decade, angle, kind of event, number released) reached"
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = ["the place of the impact and the normal of the wall there are taken from the chamber (they are judged by C24)",
               "the Furman-Pivi model with the ECLOUD energy distribution and energy conservation at once is not drawn: energies of the former need not be below the impact energy",
               "distributions are not judged in runs with extreme draws"]
QE = cfg.QE
trapz = getattr(np, "trapezoid", None) or np.trapz
LN = 30.
MODELS = ["ECLOUD", "ECLOUD", "ACC_LOW", "cos_low_ene", "flat_low_ene", "from_file", "ECLOUD_nunif", "ECLOUD_nunif_charging", "furman_pivi", "furman_pivi", "furman_pivi", "perfect_absorber"]


# ---- drawing
def fp_surface(r):
    f = dict(use_modified_sigmaE=r.random() < .3, use_ECLOUD_theta0_dependence=r.random() < .25, use_ECLOUD_energy=r.random() < .25, conserve_energy=False,
             exclude_rediffused=r.random() < .25, choice=r.choice(["poisson", "poisson", "binomial"]), M_cut=r.choice([10, 10, 3, 4, 6]),
             p1EInf=r.choice([.02, .07]), p1Ehat=r.choice([.496, .3]), eEHat=r.choice([0., 5.]), w=r.choice([60.86, 20.]), p=r.choice([1., .9, 1.5]), e1=.26, e2=r.choice([2., 1.]),
             sigmaE=r.choice([2., 1.9, 4.]), theta_e_max=r.choice([1.57, 1., .5]), p1RInf=r.choice([.2, .05]), eR=r.choice([.041, 10.]), r=r.choice([.104, .8]), q=r.choice([.5, .4, 1.]),
             r1=.26, r2=r.choice([2., .5]), theta_r_max=r.choice([1.57, .8]), deltaTSHat=r.choice([1.6, 1.2, 2.4, 3.2]), eHat0=r.choice([276.8, 200.]), s=r.choice([1.54, 1.8]),
             t1=r.choice([.66, .4]), t2=r.choice([.8, 1.2]), t3=r.choice([.7, .3]), t4=r.choice([1., 1.5]))
    if not f["use_ECLOUD_energy"]:
        f["conserve_energy"] = r.random() < .5
    for k in ("theta_e_max", "theta_r_max"):
        if r.random() < .2:
            del f[k]
    n = f["M_cut"]
    f["p_n"] = [r.choice([2.5, 3.3, 1.3, 1.5, 1.]) for _ in range(n)]
    f["eps_n"] = [r.choice([1.5, 1.75, 1., 3.75, 8.5, 11.5]) for _ in range(n)]
    return f


def text(f):
    return "dict(" + ", ".join("%s=%s" % (k, "__import__('numpy').array(%r)" % v if isinstance(v, list) else repr(v)) for k, v in f.items()) + ")"


def untext(s):
    d = eval(str(s))
    return {k: v for k, v in d.items()}


def surface(r, c, Y, model, k):
    """Draw the parameters of a surface model into the input Y."""
    Y["switch_model"] = r.choice([0, "ECLOUD"]) if model == "ECLOUD" else r.choice([1, "ACC_LOW"]) if model == "ACC_LOW" else model
    Y.update(Emax=r.choice([332., 200., 250.]), del_max=r.choice([1., 1.3, 1.7, 2.4]), R0=r.choice([0., .3, .7, .95]), E_th=r.choice([35., 20., 300.]))
    Y["mufit"], Y["sigmafit"] = r.choice([(1.6636, 1.0828), (1.6636, 1.0828), (1., .7), (2.2, 1.4)])
    Y["secondary_angle_distribution"] = r.choice(["cosine_3D", "cosine_3D", "cosine_2D", "normal_emission"])
    if r.random() < .35:
        Y.update(switch_no_increase_energy=2, thresh_low_energy=r.choice([1., 5., .5]))
    else:
        Y.update(switch_no_increase_energy=0, thresh_low_energy=-1)
    Y["E0"] = r.choice([None, None, 100., 30., 250.]) if model in ("ECLOUD", "ACC_LOW", "cos_low_ene", "ECLOUD_nunif", "ECLOUD_nunif_charging") else None
    Y["s_param"] = r.choice([None, None, 1.2, 1.6]) if model == "ECLOUD" else None
    for q in ("flag_costheta_delta_scale", "flag_costheta_Emax_shift"):
        Y.pop(q, None)
        if r.random() < .3 or k:
            Y[q] = r.random() < .5
    if model == "from_file":
        n = r.choice([50, 300])
        e = [float(q) for q in np.arange(n) * r.choice([5., 2.])]
        x = np.maximum(np.array(e), 1e-9) / Y["Emax"]
        t = Y["del_max"] * 1.35 * x / (.35 + x ** 1.35)
        f = "sey%d.mat" % k
        c["mats"][f] = dict(kind="raw", data=dict(energy_eV=e, sey_true=[float(q) for q in t], sey_elast=[float(q) for q in Y["R0"] * np.exp(-np.array(e) / 60.)],
                                                  extrapolate_grad_true=r.choice([0., -1e-3, 1e-4]), extrapolate_const_true=r.choice([.3, 1.]),
                                                  extrapolate_grad_elast=r.choice([0., -1e-5]), extrapolate_const_elast=r.choice([0., .05])))
        Y["sey_file"] = r.choice(["@/" + f, f])
    if model == "furman_pivi":
        while True:
            f = fp_surface(r)
            E, ct = np.meshgrid(np.concatenate(([0.], np.logspace(-2, 5, 200))), np.linspace(0., 1., 41))
            de, dr, dt = fp_yields(dict(dict(flag_costheta_delta_scale=True, flag_costheta_Emax_shift=True), **Y), f, E, ct)
            if np.max(de + dr) < .93 and np.max(dt / (1 - de - dr)) < .8 * f["M_cut"]:
                break
        Y["furman_pivi_surface"] = text(f)


def gen(r, tier):
    model = r.choice(MODELS)
    c = cfg.gen(r, sey=model, small=True, primaries="none", cross=False, em=False, sec=False, clouds=r.choice([0, 0, 0, 1]) if model[:12] != "ECLOUD_nunif" else r.choice([0, 1]), regen="async")
    S, Y = c["sim"], c["sey"]
    S.update(N_mp_async_regen=4000, N_mp_after_async_regen=1500, N_mp_regen=20000, nel_mp_ref_0=2e8 / r.choice([300, 600]), fact_clean=1e-6, fact_split=r.choice([1.5, 1.5, .4, 4.]))
    S["Dh_sc"] = 2e-3
    for k in ("Dh_electric_energy", "el_density_probes", "flag_reinterp_fields_at_substeps"):
        S.pop(k, None)
    if "N_sub_steps" in c["mach"]:
        c["mach"]["N_sub_steps"] = 1
    surface(r, c, Y, model, 0)
    if model == "ECLOUD_nunif_charging":
        m = c["mats"]["chm.mat"]
        m.update(qscale=10 ** r.uniform(-2.5, 1.), eq=r.choice([15., 1., 100.]), tau=r.choice([3e-9, 1e-7, 3e-10]))
    for k, cl in enumerate(c["clouds"]):
        if r.random() < .8:
            surface(r, c, cl, "ECLOUD_nunif" if "nunif" in model and r.random() < .7 else r.choice([q for q in MODELS if "nunif" not in q]), k + 1)
    return dict(c=c, env=common.gen_env(r), seed=r.randrange(1 << 30), place=r.choice([30, 100, 200]), heavy=r.choice([1., 1., 5., 20.]),
                curves=[r.choice([0, 1, 1]), r.choice([500, 2000, 10000])], burst=r.choice([0, 20000, 30000]), adv=[r.randrange(1 << 30), r.choice([.05, .3]), r.choice([1, 4, 20])] if r.random() < .25 else None)


# ---- the reference model
def angular(P, E, ct, Emax, dmax):
    d = dmax * np.exp(.5 * (1. - ct)) if P["flag_costheta_delta_scale"] else dmax
    m = Emax * (1. + .7 * (1. - ct)) if P["flag_costheta_Emax_shift"] else Emax
    return d, m


def bell(x, s):
    return s * x / (s - 1. + x ** s)


def fp_yields(P, f, E, ct):
    sc = P["flag_costheta_delta_scale"]
    lo_e = np.cos(f["theta_e_max"]) if f.get("theta_e_max") is not None else 0.
    lo_r = np.cos(f["theta_r_max"]) if f.get("theta_r_max") is not None else 0.
    de = f["p1EInf"] + (f["p1Ehat"] - f["p1EInf"]) * np.exp(-(np.abs(E - f["eEHat"]) / f["w"]) ** f["p"] / f["p"])
    dr = f["p1RInf"] * (1. - np.exp(-(E / f["eR"]) ** f["r"]))
    t3, t4 = (.7, 1.) if f["use_ECLOUD_theta0_dependence"] else (f["t3"], f["t4"])
    eh = f["eHat0"] * (1. + t3 * (1. - ct ** t4)) if P["flag_costheta_Emax_shift"] else f["eHat0"]
    dt = f["deltaTSHat"] * bell(E / eh, f["s"])
    if sc:
        dr = dr * (1. + f["r1"] * (1. - np.clip(ct, lo_r, 1.) ** f["r2"]))
        if f["use_ECLOUD_theta0_dependence"]:
            dt = dt * np.exp(.5 * (1. - ct))
        else:
            de = de * (1. + f["e1"] * (1. - np.clip(ct, lo_e, 1.) ** f["e2"]))
            dt = dt * (1. + f["t1"] * (1. - ct ** f["t2"]))
    return de, dr, dt


class Surf:
    """What the input says about the surface one cloud sees."""

    def __init__(self, c, i):
        P = dict(flag_costheta_delta_scale=True, flag_costheta_Emax_shift=True, E0=None, s_param=None)
        P.update(c["sey"])
        if i:
            P.update({k: v for k, v in c["clouds"][i - 1].items() if not k.startswith("_")})
        self.P, self.c = P, c
        m = P["switch_model"]
        self.model = {0: "ECLOUD", 1: "ACC_LOW"}.get(m, m)
        if self.model == "furman_pivi":
            self.f = untext(P["furman_pivi_surface"])
        if self.model == "from_file":
            n = P["sey_file"].replace("@/", "")
            m = c["mats"][n]
            self.tab = m["data"] if m["kind"] == "raw" else None
            if self.tab is None:
                e = np.arange(0., 1500., 5.)
                xx = np.maximum(e, 1e-9) / 332.
                self.tab = dict(energy_eV=e, sey_true=m["dmax"] * 1.35 * xx / (0.35 + xx ** 1.35), sey_elast=0.7 * np.exp(-e / 60.),
                                extrapolate_grad_true=0., extrapolate_const_true=0.3, extrapolate_grad_elast=0., extrapolate_const_elast=0.)
        self.d = cfg.chamber_mat(c["mats"]["chm.mat"]) if "nunif" in str(self.model) else None

    def split(self, E, ct, seg=None, Q=None):
        """(probability of an elastic event, charge emitted in an elastic one, in a true one), per impacting charge."""
        P, m = self.P, self.model
        if m == "perfect_absorber":
            z = np.zeros(len(E))
            return z, z, z
        R0, E0, s = P["R0"], P["E0"], 1.35
        with np.errstate(all="ignore"):
            if m == "from_file":
                T = {k: np.array(v, float) for k, v in self.tab.items()}
                sc = E / (1. + .7 * (1. - ct)) if P["flag_costheta_Emax_shift"] else E
                top = T["energy_eV"].max()
                t = np.where(sc > top, T["extrapolate_const_true"] + T["extrapolate_grad_true"] * sc, np.interp(sc, T["energy_eV"], T["sey_true"]))
                e = np.where(E > top, T["extrapolate_const_elast"] + T["extrapolate_grad_elast"] * E, np.interp(E, T["energy_eV"], T["sey_elast"]))
                if P["flag_costheta_delta_scale"]:
                    t = t * np.exp(.5 * (1. - ct))
                t, e = np.where(t < 1e-10, 0., t), np.where(e < 1e-10, 0., e)
            else:
                Em, dm = P["Emax"], P["del_max"]
                if self.d is not None:
                    g = self.d
                    dm, R0, Em = [np.where(g[k + "_segments"] < 0, v, g[k + "_segments"])[seg] for k, v in (("del_max", dm), ("R0", R0), ("Emax", Em))]
                if m == "ECLOUD":
                    s = P["s_param"] or 1.35
                    D, M = angular(P, E, ct, Em, dm)
                else:
                    D, M = dm * np.exp(.5 * (1. - ct)), Em * (1. + .7 * (1. - ct))
                t = D * bell(E / M, s)
                if m == "cos_low_ene":
                    E0 = 30. if E0 is None else E0
                    e = np.where(E < E0, R0 * np.cos(.5 * np.pi * E / E0) ** 2, 0.)
                elif m == "flat_low_ene":
                    e = np.where((t < R0) & (E < Em), R0 - t, 0.)
                else:
                    E0 = 150. if E0 is None else E0
                    e = R0 * ((np.sqrt(E) - np.sqrt(E + E0)) / (np.sqrt(E) + np.sqrt(E + E0))) ** 2
            if m == "ACC_LOW":
                return e, np.ones(len(E)), t / (1. - e)
            y = t + e
            p = np.where(y > 0, e / np.where(y > 0, y, 1.), 0.)
            if m == "ECLOUD_nunif_charging":
                g = self.d
                on = (np.asarray(g["flag_charging"]) > 0)[seg]
                q = np.clip(Q[seg] / g["Q_max_segments"][seg], 0., 1.)
                y = np.where(on, y * (1. - q) + (1. - np.exp(-E / g["EQ_segments"][seg])) * q, y)
            return p, y, y

    def hil(self, x, E):
        """Distribution function of the energy of a true secondary (ECLOUD), for impact energy E."""
        P = self.P
        F = lambda v: st.norm.cdf((np.log(np.maximum(v, 1e-300)) - P["mufit"]) / P["sigmafit"])
        if P["switch_no_increase_energy"] == 0:
            return np.minimum(F(x) / F(P["E_th"]), 1.)
        cut = np.minimum(E, P["E_th"])
        return np.where(E < P["thresh_low_energy"], np.minimum(x / E, 1.) ** 2, np.minimum(F(x) / F(cut), 1.))

    def hil_max(self, E):
        P = self.P
        if P["switch_no_increase_energy"] == 0:
            return np.full(len(E), P["E_th"])
        return np.where(E < P["thresh_low_energy"], E, np.minimum(E, P["E_th"]))

    def numbers(self, E, ct):
        """Probabilities of the numbers of true secondaries in a true event: array (impact, n)."""
        f = self.f
        de, dr, dt = fp_yields(self.P, f, E, ct)
        if f["exclude_rediffused"]:
            dr = np.zeros(len(E))
        lam = dt / (1. - de - dr)
        n = np.arange(f["M_cut"] + 1)
        pn = st.poisson.pmf(n[None, :], lam[:, None]) if f["choice"] == "poisson" else st.binom.pmf(n[None, :], f["M_cut"], lam[:, None] / f["M_cut"])
        return de, dr, pn / pn.sum(axis=1)[:, None]

    def sigma(self, E):
        f = self.f
        return (f["sigmaE"] - 1.88) + 2.5 * (1. + np.tanh(.01 * (E - 150.))) if f["use_modified_sigmaE"] else np.full(len(E), f["sigmaE"])


class Sample:
    """Numbers that must be uniform: bounded distance of the empirical distribution (DKW)."""

    def __init__(self, name):
        self.name, self.x = name, []

    def add(self, u):
        u = np.asarray(u, float).ravel()
        self.x.append(u[np.isfinite(u)])

    def test(self, fail, **k):
        x = np.sort(np.concatenate(self.x)) if self.x else np.zeros(0)
        n = len(x)
        if n < 40:
            return 0
        d = max(np.max(np.abs(x - np.arange(n) / n)), np.max(np.abs(x - np.arange(1, n + 1) / n)))
        lim = np.sqrt((LN + np.log(2)) / (2 * n)) + 1e-4
        if d > lim:
            fail("what is released does not follow the distribution of the surface model", what_is=self.name, distance=float(d), allowed=float(lim), of=n, **k)
        return n


class Judge:
    def __init__(self, br, c, plan):
        self.br, self.c, self.plan = br, c, plan
        sim = br.sim
        self.S = [Surf(c, i) for i in range(len(sim.cloud_list))]
        self.Q = {}
        self.samples = {}
        self.bern = {}
        self.rng = np.random.RandomState(plan["seed"] ^ 0x5a5a5)
        self.n = self.tested = 0
        self.states = set()

    def fail(self, what, **k):
        bt = self.br.sim.beamtim
        raise Violation(what, step=int(bt.ii_curr), **{a: (float(b) if isinstance(b, np.floating) else b) for a, b in k.items()})

    def sample(self, i, name, u):
        self.samples.setdefault((i, name), Sample(name)).add(u)

    def charges(self, i, mp):
        q = getattr(getattr(self.br.sim.cloud_list[i].impact_man, "sey_mod", None), "Q_segments", None)
        self.Q[i] = None if q is None else np.array(q, float)

    # ---- one wall interaction
    def impact(self, e):
        if not e.n:
            return
        s = self.S[e.i]
        a = e.after
        ix = np.flatnonzero(e.mask)
        k = np.bincount(e.parent, minlength=e.n) if len(e.parent) else np.zeros(e.n, int)
        nnew = a["nel_mp"][e.new]
        vb = np.array([e.before[q][ix] for q in ("vx_mp", "vy_mp", "vz_mp")])
        va = np.array([a[q][ix] for q in ("vx_mp", "vy_mp", "vz_mp")])
        vn = np.array([a[q][e.new] for q in ("vx_mp", "vy_mp", "vz_mp")])
        with np.errstate(all="ignore"):
            ok = np.isfinite(e.cos) & (np.hypot(e.nx, e.ny) > .999) & (e.E > 0)
        # (which of several impacts at one point released what cannot be told)
        close = np.zeros(e.n, bool)
        for sh in (0., .5):
            _, inv, cnt = np.unique(np.round(np.array([e.xi, e.yi, e.zi]).T * 1e9 + sh), axis=0, return_inverse=True, return_counts=True)
            close |= cnt[np.ravel(inv)] > 1
        ok &= ~close
        seg = np.asarray(e.seg) if e.seg is not None else np.full(e.n, -1)
        if s.d is not None:
            ok &= (seg >= 0) & (seg < len(s.d["Vx"]))
            if s.model == "ECLOUD_nunif_charging" and self.Q.get(e.i) is None:
                return
        if not (np.all(np.isfinite(va)) and np.all(np.isfinite(vn))):
            self.fail("an emitted macroparticle has no velocity", cloud=e.i, model=s.model)
        speed = np.sqrt((vb ** 2).sum(axis=0))
        Vn = vb[0] * e.nx + vb[1] * e.ny
        spec = np.array([vb[0] - 2 * Vn * e.nx, vb[1] - 2 * Vn * e.ny, vb[2]])
        mirror = np.sqrt(((va - spec) ** 2).sum(axis=0)) <= 1e-9 * speed
        self.n += int(ok.sum())
        if s.model == "perfect_absorber":
            if np.any(e.nrep[ok] != 0) or len(nnew):
                self.fail("a perfect absorber released electrons", cloud=e.i)
            return
        with np.errstate(all="ignore"):
            if s.model == "furman_pivi":
                self.furman(e, s, ok, k, nnew, va, vn, mirror)
            else:
                self.weighted(e, s, ok, k, nnew, va, vn, mirror, seg)
        for q in np.flatnonzero(ok)[:60]:
            self.states.add("%s|%d|%d|%d|%d|%d" % (s.model, e.i, int(np.floor(np.log10(e.E[q] + 1e-9))), int(4 * e.cos[q]), mirror[q], min(int(k[q]), 6)))

    def one(self, q, e, **kw):
        return dict(cloud=e.i, model=self.S[e.i].model, energy=float(e.E[q]), cosine=float(e.cos[q]), charge=float(e.nel[q]), **kw)

    def weighted(self, e, s, ok, k, nnew, va, vn, mirror, seg):
        p, ye, yt = s.split(e.E, np.minimum(e.cos, 1.), seg, self.Q.get(e.i))
        # elastic events: one macroparticle, mirrored
        el = mirror & (k == 0) & (np.abs(e.nrep - ye * e.nel) <= 1e-9 * ye * e.nel)
        want = yt * e.nel
        r = want / e.man_split
        n = np.maximum(np.ceil(r), 1.)
        lo, hi = np.maximum(np.ceil(r * (1 - 1e-9)), 1.), np.maximum(np.ceil(r * (1 + 1e-9)), 1.)
        num = k + 1
        tr = (num >= lo) & (num <= hi) & (np.abs(e.nrep * num - want) <= 1e-9 * want)
        bad = ok & ~el & ~tr
        if bad.any():
            q = int(np.argmax(bad))
            if mirror[q]:
                self.fail("the charge of an elastic event is not the yield at its energy and angle", **self.one(q, e, released=float(e.nrep[q]), macroparticles=int(num[q]), expected=float(ye[q] * e.nel[q])))
            self.fail("the charge, or the number of macroparticles, of a true event is not that of the yield at its energy and angle",
                      **self.one(q, e, released=float(e.nrep[q] * num[q]), macroparticles=int(num[q]), expected=float(want[q]), expected_macroparticles=int(n[q]), segment=int(seg[q])))
        if len(nnew):
            bad = ok[e.parent] & ~(np.abs(nnew - e.nrep[e.parent]) <= 1e-9 * nnew)
            if bad.any():
                q = int(np.argmax(bad))
                self.fail("the macroparticles of a true event do not have equal charge", **self.one(int(e.parent[q]), e, first=float(e.nrep[e.parent[q]]), other=float(nnew[q])))
        # a mirrored single macroparticle is elastic (a true one has a random energy and direction, except with extreme draws)
        mir = mirror & ok
        both = mir & tr & (k == 0)
        if not self.plan["adv"] and np.any(mir & ~el):
            q = int(np.argmax(mir & ~el))
            self.fail("a mirrored electron was released with further ones", **self.one(q, e, macroparticles=int(num[q])))
        els = mir & el
        bad = els & (p <= 0)
        if bad.any() and not self.plan["adv"]:
            self.fail("an elastic event where the surface reflects nothing", **self.one(int(np.argmax(bad)), e))
        bad = ok & ~els & (p >= 1)
        if bad.any():
            self.fail("a true event where the surface reflects everything", **self.one(int(np.argmax(bad)), e))
        t = ok & ~els
        self.directions(e, s, t, t[e.parent] if len(nnew) else np.zeros(0, bool), va, vn)
        lim = s.hil_max(e.E)
        for E, sel, par in ((e.Erep, t & (e.nrep > 0), np.arange(e.n)), (e.Enew, t[e.parent] if len(nnew) else np.zeros(0, bool), e.parent)):
            bad = sel & (E > lim[par] * (1 + 1e-6))
            if bad.any():
                q = int(np.argmax(bad))
                self.fail("a true secondary has more energy than its distribution allows", **self.one(int(par[q]), e, released_with=float(E[q]), limit=float(lim[par[q]])))
            if not self.plan["adv"]:
                u = s.hil(E[sel], e.E[par[sel]])
                self.sample(e.i, "energy of true secondaries", u)
        if not self.plan["adv"]:
            self.choice(e, ok, els.astype(float), p)

    def choice(self, e, ok, b, p):
        z = self.rng.rand(e.n)
        self.sample(e.i, "elastic or true", np.where(b > 0, z * p, p + z * (1 - p))[ok])
        for q, v in (("all", ok), ("E<1", ok & (e.E < 1)), ("1<E<10", ok & (e.E >= 1) & (e.E < 10)), ("10<E<60", ok & (e.E >= 10) & (e.E < 60)), ("60<E", ok & (e.E >= 60)), ("cos<.3", ok & (e.cos < .3)),
                     ("cos>.8", ok & (e.cos > .8))):
            d = self.bern.setdefault((e.i, q), [0., 0., 0])
            d[0] += float(np.sum(b[v] - p[v]))
            d[1] += float(np.sum(p[v] * (1 - p[v])))
            d[2] += int(v.sum())

    def directions(self, e, s, t, tn, va, vn):
        how = s.P["secondary_angle_distribution"]
        U = []
        for V, par, sel in ((va, np.arange(e.n), t & (e.nrep > 0)), (vn, e.parent, tn)):
            nx, ny = e.nx[par], e.ny[par]
            v = np.sqrt((V ** 2).sum(axis=0))
            c = (V[0] * nx + V[1] * ny) / v
            sel = sel & (v > 0)
            bad = sel & ~(c >= -1e-7)
            if bad.any():
                q = int(np.argmax(bad))
                self.fail("a secondary is emitted out of the chamber", **self.one(int(par[q]), e, cosine_of_emission=float(c[q])))
            if how == "normal_emission":
                bad = sel & ~(np.abs(c - 1) < 1e-9)
                if bad.any():
                    q = int(np.argmax(bad))
                    self.fail("a secondary is not emitted along the normal of the wall", **self.one(int(par[q]), e, cosine_of_emission=float(c[q])))
                continue
            tx = (V[0] * ny - V[1] * nx) / v
            sn = np.hypot(tx, V[2] / v)
            u1 = (sn ** 2 if how == "cosine_3D" else sn)[sel]
            u2 = ((np.arctan2(tx, V[2] / v) / (2 * np.pi)) % 1.)[sel]
            U.append((u1, u2))
        if how != "normal_emission" and not self.plan["adv"]:
            u1, u2 = [np.concatenate([q[j] for q in U]) for j in (0, 1)]
            self.sample(e.i, "polar angle", u1)
            self.sample(e.i, "azimuth", u2)
            self.sample(e.i, "polar angle and azimuth", (u1 + u2) % 1.)
            if len(u1) > 1:
                self.sample(e.i, "polar angles of successive secondaries", (u1[1:] + u1[:-1]) % 1.)
                self.sample(e.i, "azimuths of successive secondaries", (u2[1:] + u2[:-1]) % 1.)

    def furman(self, e, s, ok, k, nnew, va, vn, mirror):
        f, adv = s.f, self.plan["adv"]
        par = e.parent
        bad = ok & ~((e.nrep == e.nel) | (e.nrep == 0)) | (ok & (e.nrep == 0) & (e.nel > 0) & (k > 0))
        if bad.any():
            q = int(np.argmax(bad))
            self.fail("an emitted macroparticle does not have the charge of the impacting one", **self.one(q, e, released=float(e.nrep[q]), further=int(k[q])))
        if len(nnew) and np.any(ok[par] & (nnew != e.nel[par])):
            q = int(np.argmax(ok[par] & (nnew != e.nel[par])))
            self.fail("an emitted macroparticle does not have the charge of the impacting one", **self.one(int(par[q]), e, released=float(nnew[q])))
        n = k + (e.nrep > 0)
        ok = ok & (e.nel > 0)
        if np.any(ok & (n > f["M_cut"])):
            q = int(np.argmax(ok & (n > f["M_cut"])))
            self.fail("more electrons are emitted in an event than the limit", **self.one(q, e, emitted=int(n[q]), limit=f["M_cut"]))
        de, dr, pn = s.numbers(e.E, np.minimum(e.cos, 1.))
        ts = 1. - de - dr
        ece = f["use_ECLOUD_energy"]
        sp_ = mirror & (n == 1) & ece
        # number of electrons of each event
        W = pn * ts[:, None]
        if ece:
            W[:, 1] += dr
            W = np.concatenate([de[:, None], W], axis=1)
            j = np.where(sp_, 0, n + 1)
        else:
            W[:, 1] += de + dr
            j = n
        cum = np.concatenate([np.zeros((e.n, 1)), np.cumsum(W, axis=1)], axis=1)
        j = np.minimum(j, W.shape[1] - 1)
        z = self.rng.rand(e.n)
        I = np.arange(e.n)
        if not adv:
            u = cum[I, j] + z * W[I, j]
            self.sample(e.i, "number of electrons per event", u[ok])
            for h in range(W.shape[1]):
                b = self.bern.setdefault((e.i, "number of events of kind %d" % h), [0., 0., 0])
                b[0] += float(np.sum((j[ok] == h) - W[ok, h]))
                b[1] += float(np.sum(W[ok, h] * (1 - W[ok, h])))
                b[2] += int(np.sum(ok))
            for q, v in (("E<5", ok & (e.E < 5)), ("5<E<60", ok & (e.E >= 5) & (e.E < 60)), ("E>60", ok & (e.E >= 60)), ("cos<.4", ok & (e.cos < .4)), ("cos>.8", ok & (e.cos > .8))):
                self.sample(e.i, "number of electrons per event, " + q, u[v])
        em = ok & (n > 0) & ~sp_
        emn = em[par] if len(nnew) else np.zeros(0, bool)
        self.directions(e, s, em, emn, va, vn)
        p_n, eps = np.asarray(f["p_n"], float), np.asarray(f["eps_n"], float)
        nn = np.clip(n, 1, f["M_cut"])
        area = sp.gammainc(p_n[nn - 1], e.E / eps[nn - 1])
        if ece:
            lim = s.hil_max(e.E)
            lim = np.where(n == 1, np.maximum(lim, e.E), lim)
        else:
            lim = e.E
        firm = (area < 1 - 1e-12) | (not adv)
        Es = [e.Erep, e.Enew]
        for E, sel, pp in ((e.Erep, em, I), (e.Enew, emn, par)):
            bad = sel & firm[pp] & (E > lim[pp] * (1 + 1e-6))
            if bad.any():
                q = int(np.argmax(bad))
                self.fail("an electron is emitted with more energy than the model allows", **self.one(int(pp[q]), e, released_with=float(E[q]), limit=float(lim[pp[q]])))
        tot = np.where(e.nrep > 0, e.Erep, 0.) + (np.bincount(par, weights=e.Enew, minlength=e.n) if len(nnew) else 0.)
        if f["conserve_energy"]:
            bad = em & firm & (tot > e.E * (1 + 1e-6))
            if bad.any():
                q = int(np.argmax(bad))
                self.fail("the electrons of an event have together more energy than the impacting one", **self.one(q, e, emitted=int(n[q]), together=float(tot[q])))
        if adv:
            return
        # single electrons: a mixture of the three processes
        m1 = em & (n == 1) & (area > 1e-8)
        x, E0 = e.Erep[m1], e.E[m1]
        Fr = np.minimum(x / E0, 1.) ** (f["q"] + 1.)
        w1, w2, w3 = de[m1], dr[m1], (ts * pn[:, 1])[m1]
        if ece:
            self.sample(e.i, "energy of single electrons", (w2 * Fr + w3 * s.hil(x, E0)) / (w2 + w3))
        else:
            sg = s.sigma(E0) * np.sqrt(2.)
            Fb = 1. - sp.erf((E0 - x) / sg) / sp.erf(E0 / sg)
            Ft = sp.gammainc(p_n[0], x / eps[0]) / area[m1]
            self.sample(e.i, "energy of single electrons", (w1 * Fb + w2 * Fr + w3 * np.minimum(Ft, 1.)) / (w1 + w2 + w3))
            for q, v in (("E<5", E0 < 5), ("5<E<60", (E0 >= 5) & (E0 < 60)), ("E>60", E0 >= 60)):
                self.sample(e.i, "energy of single electrons, " + q, ((w1 * Fb + w2 * Fr + w3 * np.minimum(Ft, 1.)) / (w1 + w2 + w3))[v])
        # several electrons
        m2 = em & (n >= 2) & (area > 1e-8)
        if ece:
            self.sample(e.i, "energy of several electrons", s.hil(e.Erep[m2], e.E[m2]))
            if len(nnew):
                g = m2[par]
                self.sample(e.i, "energy of several electrons", s.hil(e.Enew[g], e.E[par][g]))
        elif f["conserve_energy"]:
            pt = nn * p_n[nn - 1]
            at = sp.gammainc(pt, e.E / eps[nn - 1])
            g = m2 & (at > 1e-8)
            self.sample(e.i, "energy of the electrons of an event together", np.minimum(sp.gammainc(pt, tot / eps[nn - 1]) / at, 1.)[g])
            pp, qq = p_n[nn - 1], (nn - 1) * p_n[nn - 1]
            g = m2 & (at > 1e-8) & (tot > 0)
            self.sample(e.i, "share of an electron of an event", sp.betainc(pp[g], qq[g], np.minimum(e.Erep[g] / tot[g], 1.)))
            if len(nnew):
                h = g[par]
                self.sample(e.i, "share of an electron of an event", sp.betainc(pp[par][h], qq[par][h], np.minimum(e.Enew[h] / tot[par][h], 1.)))
        else:
            self.sample(e.i, "energy of several electrons", np.minimum(sp.gammainc(p_n[nn - 1], e.Erep / eps[nn - 1]) / area, 1.)[m2])
            if len(nnew):
                g = m2[par]
                self.sample(e.i, "energy of several electrons", np.minimum(sp.gammainc(p_n[nn[par] - 1], e.Enew / eps[nn[par] - 1]) / area[par], 1.)[g])

    # ---- the end of the run
    def finish(self):
        for (i, name), s in self.samples.items():
            self.tested += s.test(self.fail, cloud=i, model=self.S[i].model)
        for (i, q), (d, v, n) in self.bern.items():
            lim = np.sqrt(2 * v * LN) + LN * 2 / 3 + 1e-6
            if abs(d) > lim:
                self.fail("the number of events of a kind is not what the surface model prescribes", cloud=i, model=self.S[i].model, impacts=q, of=n, excess=d, allowed=float(lim))

    def burst(self, i, plan):
        """Many impacts at once on a copy of the surface."""
        cl, s = self.br.sim.cloud_list[i], self.S[i]
        rs = np.random.RandomState(plan["seed"] ^ 0x77)
        N, m = plan["burst"], float(cl.MP_e.mass)
        E = np.where(rs.rand(N) < .5, np.exp(rs.uniform(np.log(.05), np.log(3000.), N)), rs.choice([.7, 4., 30., 250.], N) * (1 + .2 * rs.randn(N)).clip(.3, 2.))
        e = shadow.Event()
        e.i, e.n, e.mass, e.mask, e.man_split, e.tt = i, N, m, np.ones(N, bool), 1.5, 0.
        a, b = 2 * np.pi * rs.rand(N), 2 * np.pi * rs.rand(N)
        e.nx, e.ny, ct = np.cos(a), np.sin(a), np.sqrt(rs.rand(N))
        v, sn = np.sqrt(2 * E * QE / m), np.sqrt(1 - ct * ct)
        V = [v * (-ct * e.nx - sn * np.cos(b) * e.ny), v * (-ct * e.ny + sn * np.cos(b) * e.nx), v * sn * np.sin(b)]
        e.nel = np.exp(rs.uniform(-2, 2, N))
        e.seg = rs.randint(len(s.d["Vx"]), size=N) if s.d is not None else np.zeros(N, int)
        e.xi, e.yi, e.zi = np.arange(N) * 1e-3, np.zeros(N), np.zeros(N)
        e.E = .5 * m / QE * (V[0] ** 2 + V[1] ** 2 + V[2] ** 2)
        vn = V[0] * e.nx + V[1] * e.ny
        e.cos = np.abs(vn) / np.sqrt(V[0] ** 2 + V[1] ** 2 + V[2] ** 2)
        e.before = dict(N=N, x_mp=e.xi, y_mp=e.yi, z_mp=e.zi, vx_mp=V[0], vy_mp=V[1], vz_mp=V[2], nel_mp=e.nel)
        self.charges(i, None)
        mod = copy.deepcopy(getattr(cl.impact_man, "sey_mod", None))
        if not hasattr(mod, "impacts_on_surface"):
            return 0
        try:
            with np.errstate(all="ignore"):
                o = mod.impacts_on_surface(m, e.nel.copy(), e.xi.copy(), e.yi.copy(), e.zi.copy(), *[q.copy() for q in V], e.nx.copy(), e.ny.copy(), e.seg.copy(), vn, e.E.copy(), e.cos.copy(),
                                           e.man_split, True)
            rep, new = np.array(o[3:10], float), np.array(o[11:18], float)
        except (TypeError, IndexError):     # another interface: the impacts of the run have to do
            return 0
        if rep.shape != (7, N) or new.ndim != 2 or len(new) != 7:
            return 0
        K = new.shape[1]
        names = ("nel_mp", "x_mp", "y_mp", "z_mp", "vx_mp", "vy_mp", "vz_mp")
        e.after = {q: np.concatenate([rep[j], new[j]]) for j, q in enumerate(names)}
        e.after["N"], e.new = N + K, slice(N, N + K)
        e.nrep = rep[0]
        en = shadow.energy(e.after, m)
        e.Erep, e.Enew = en[:N], en[N:]
        e.parent = np.clip(np.round(new[1] / 1e-3).astype(int), 0, N - 1)
        if K and np.any(np.abs(new[1] - e.xi[e.parent]) > 1e-9):
            self.fail("a secondary is not emitted where the electron hit the wall", cloud=i, model=s.model)
        self.impact(e)
        return N

    def exact(self, i):
        """The probabilities of the Furman-Pivi model, where the code can be asked for them."""
        s, mod = self.S[i], getattr(self.br.sim.cloud_list[i].impact_man, "sey_mod", None)
        fn = getattr(mod, "yield_fun_furman_pivi", None)
        if s.model != "furman_pivi" or fn is None:
            return
        E, ct = [q.ravel() for q in np.meshgrid(np.exp(np.linspace(np.log(.01), np.log(5000.), 60)), np.linspace(.001, 1., 21))]
        try:
            got = fn(E.copy(), ct.copy())
        except TypeError:
            return
        for a, b, name in zip(got, fp_yields(s.P, s.f, E, ct), ("elastic", "rediffused", "true")):
            bad = ~(np.abs(a - b) <= 1e-9 * np.abs(b) + 1e-12)
            if bad.any():
                q = int(np.argmax(bad))
                self.fail("a probability of the Furman-Pivi model is not that of its parameters", cloud=i, of=name, energy=float(E[q]), cosine=float(ct[q]), got=float(np.broadcast_to(a, E.shape)[q]), expected=float(b[q]))

    def curves(self, i, plan):
        """The curves and distributions which the code extracts from the surface."""
        cl = self.br.sim.cloud_list[i]
        man, s, N = cl.impact_man, self.S[i], plan["curves"][1]
        m, qc = float(cl.MP_e.mass), float(cl.MP_e.charge)
        rs = np.random.RandomState(plan["seed"] ^ 77)
        E = np.concatenate([[0.] if rs.rand() < .5 else [], np.exp(rs.uniform(np.log(.05), np.log(3000.), 4)), [s.P["Emax"], 1.]])
        ct = np.array([1., .75, .2, .05])[rs.permutation(4)[:2]]
        self.charges(i, None)
        with np.errstate(all="ignore"):
            D = man.extract_sey_curves(N, E, ct, qc, m)
        segs = np.ones(len(E), int)

        def near(a, b, v, top, name, scale=1., **k):
            # mean of N draws in [0, top] of variance v
            lim = np.sqrt(2 * v * LN / N) + 2 * top * LN / (3 * N) + 1e-6
            if not abs(a - b) <= lim * scale:
                self.fail("an extracted emission curve is not that of the surface model", cloud=i, model=s.model, of=name, got=float(a), expected=float(b), allowed=float(lim * scale), **k)
        for a, c0 in enumerate(ct):
            cc = np.full(len(E), c0)
            if s.model == "perfect_absorber":
                if set(D) != {"absorb"} or np.any(np.asarray(D["absorb"])[a] != 0):
                    self.fail("an extracted emission curve is not that of the surface model", cloud=i, model=s.model, of="absorb")
                continue
            with np.errstate(all="ignore"):
                if s.model == "furman_pivi":
                    de, dr, pn = s.numbers(E, cc)
                    ks = np.arange(pn.shape[1])
                    mu = (pn * ks).sum(axis=1) * (1 - de - dr)
                    mu2 = (pn * ks ** 2).sum(axis=1) * (1 - de - dr)
                    for b in range(len(E)):
                        k = dict(energy=float(E[b]), cosine=float(c0))
                        near(D["elast"][a, b], de[b], de[b] * (1 - de[b]), 1., "elast", **k)
                        near(D["rediff"][a, b], dr[b], dr[b] * (1 - dr[b]), 1., "rediff", **k)
                        near(D["true"][a, b], mu[b], mu2[b] - mu[b] ** 2, s.f["M_cut"], "true", **k)
                        near(D["absorb"][a, b], 0., 0., 0., "absorb", **k)
                    continue
                p, ye, yt = s.split(E, cc, segs, self.Q.get(i))
            for b in range(len(E)):
                k = dict(energy=float(E[b]), cosine=float(c0))
                el, tr = float(D["elast"][a, b]), float(D["true"][a, b])
                near(el, p[b] * ye[b], p[b] * (1 - p[b]), 1., "elast", scale=ye[b], **k)
                fr = el / ye[b] if ye[b] > 0 else 0.
                if abs(tr - (1 - fr) * yt[b]) > 1e-9 * (yt[b] + ye[b]):
                    self.fail("an extracted emission curve is not that of the surface model", cloud=i, model=s.model, of="true", got=tr, expected=float((1 - fr) * yt[b]), **k)
        E1 = float(rs.choice([s.P["Emax"], 20., 3.]))
        top = max(E1, s.P["E_th"], 40.)
        nb = int(rs.choice([50, 120]))
        fac = 1.05 * top / E1
        with np.errstate(all="ignore"):
            H = man.extract_energy_distributions(N, E1, ct, m, nb, fac)
        g = np.linspace(0., E1 * fac, nb)

        def wrong(of, **k):
            self.fail("an extracted energy distribution is not that of the surface model", cloud=i, model=s.model, of=of, energy=E1, **k)
        if not np.allclose(np.asarray(H["emit_ene_g_hist"]).ravel(), g, rtol=1e-12):
            wrong("grid")
        Ea = np.array([E1])
        for a, c0 in enumerate(ct):
            h = {k: np.asarray(v)[:, a] for k, v in H.items() if k != "emit_ene_g_hist"}
            if any(v.shape != (nb,) or np.any(v < 0) for v in h.values()):
                wrong("shape")
            if s.model == "perfect_absorber":
                if abs(h["absorb"].sum() - N) > 1e-6 * N:
                    wrong("number of absorbed", got=float(h["absorb"].sum()), expected=N)
                continue
            with np.errstate(all="ignore"):
                if s.model == "furman_pivi":
                    de, dr, pn = s.numbers(Ea, np.array([c0]))
                    for q, p in (("elast", de[0]), ("rediff", dr[0])):
                        if abs(h[q].sum() - N * p) > np.sqrt(2 * N * p * (1 - p) * LN) + LN:
                            wrong("number of " + q, got=float(h[q].sum()), expected=float(N * p))
                    if h["rediff"].sum() > 40:
                        n, qq = h["rediff"].sum(), s.f["q"]
                        mean, var = E1 * (qq + 1) / (qq + 2), E1 ** 2 * ((qq + 1) / (qq + 3) - ((qq + 1) / (qq + 2)) ** 2)
                        if abs((h["rediff"] * g).sum() / n - mean) > np.sqrt(2 * var * LN / n) + E1 * LN / n:
                            wrong("mean energy of rediff", got=float((h["rediff"] * g).sum() / n), expected=float(mean))
                    if s.f["use_ECLOUD_energy"] and h["elast"].sum() > 0 and abs((h["elast"] * g).sum() / h["elast"].sum() - E1) > 1e-6 * E1:
                        wrong("energy of elast")
                    continue
                p, ye, yt = s.split(Ea, np.array([c0]), segs[:1], self.Q.get(i))
            ne = h["elast"].sum()
            if abs(ne - N * p[0]) > np.sqrt(2 * N * p[0] * (1 - p[0]) * LN) + LN:
                wrong("number of elast", got=float(ne), expected=float(N * p[0]))
            if ne > 0 and abs((h["elast"] * g).sum() / ne - E1) > 1e-6 * E1:
                wrong("energy of elast", got=float((h["elast"] * g).sum() / ne))
            per = max(np.ceil(yt[0]), 1.)
            if abs(yt[0] - np.round(yt[0])) > 1e-9 and abs(h["true"].sum() - per * (N - ne)) > 1e-6 * N:
                wrong("number of true", got=float(h["true"].sum()), expected=float(per * (N - ne)))
            nt = h["true"].sum()
            if nt > 40:
                lim = float(s.hil_max(Ea)[0])
                if g[1] < .2 * lim and h["true"][g > lim + g[1] * 1.01].sum() > 1e-9:
                    wrong("energies of true beyond the limit")
                xs = np.linspace(0., lim, 20001)[1:]
                F = s.hil(xs, np.full(len(xs), E1))
                mean = lim - trapz(np.concatenate([[0.], F]), np.concatenate([[0.], xs]))
                m2 = lim ** 2 - 2 * trapz(np.concatenate([[0.], F * xs]), np.concatenate([[0.], xs]))
                w = np.sqrt(2 * max(m2 - mean ** 2, 0.) * LN / nt) + 2 * lim * LN / (3 * nt) + 1e-3 * lim
                if abs((h["true"] * g).sum() / nt - mean) > w:
                    wrong("mean energy of true", got=float((h["true"] * g).sum() / nt), expected=float(mean), allowed=float(w))


def _life(emit, plan, root):
    c = plan["c"]
    drive.prepare(c, root)
    rng = np.random.RandomState(plan["seed"])
    fired = {}
    with common.mkworld(root, plan["env"]) as w:
        sim = drive.build(c, root)
        br = shadow.Bracket(sim)
        J = Judge(br, c, plan)
        br.listeners.append(J)
        M = c["mach"]
        R = max(np.abs(geom.vertices(c)[0]).max(), np.abs(geom.vertices(c)[1]).max()) if M["chamb_type"] != "ellip" else max(M["x_aper"], M["y_aper"])

        def perturb(i, old, mp):
            J.charges(i, mp)
            N = int(mp.N_mp)
            if not N:
                return
            k = rng.permutation(N)[:plan["place"]]
            x0, y0 = np.array(old.x_mp[k], float), np.array(old.y_mp[k], float)
            n = len(k)
            ph = 2 * np.pi * rng.rand(n)
            th = np.where(rng.rand(n) < .3, np.exp(rng.uniform(-7, 0, n)), np.sqrt(rng.rand(n)))      # sine of the angle to the axis
            E = np.where(rng.rand(n) < .7, np.exp(rng.uniform(np.log(.01), np.log(5000.), n)), rng.choice([.7, 3., 20., 45., 332., 1200.], n) * (1 + .3 * rng.randn(n)).clip(.2, 3.))
            q = float(mp.nel_mp_ref) * np.where(rng.rand(n) < .8, np.exp(rng.uniform(-2, 1, n)), plan["heavy"])
            good = geom.inside_by(c, x0, y0) > 1e-6
            x1, y1 = x0 + 4 * R * np.cos(ph), y0 + 4 * R * np.sin(ph)
            t, _, corner, sine = geom.crossing(c, x0, y0, x1, y1)
            good &= np.isfinite(t) & (t > 1e-6) & (corner > 1e-8) & (sine > 1e-4)
            k, t, th, ph, E, q, x0, y0 = [v[good] for v in (k, t, th, ph, E, q, x0, y0)]
            L = 4 * R * t * (1. + rng.choice([.02, .3, 1.5], len(k)))
            v = np.sqrt(2 * E * QE / float(mp.mass))
            mp.x_mp[k], mp.y_mp[k] = x0 + L * np.cos(ph), y0 + L * np.sin(ph)
            back = geom.inside_by(c, np.array(mp.x_mp[k]), np.array(mp.y_mp[k])) > -1e-9     # (concave chambers)
            mp.vx_mp[k], mp.vy_mp[k] = v * th * np.cos(ph), v * th * np.sin(ph)
            mp.vz_mp[k] = v * np.sqrt(1 - th ** 2) * rng.choice([-1., 1.], len(k))
            mp.nel_mp[k] = q
            mp.x_mp[k[back]], mp.y_mp[k[back]] = x0[back], y0[back]
            fired["impact placed"] = fired.get("impact placed", 0) + len(k)
        br.perturb = perturb
        hook = world.adversarial_rng(*plan["adv"]) if plan["adv"] else None
        steps = 0
        world.RNG_HOOK = hook
        while True:
            try:
                if not drive.step(sim):
                    break
            except ValueError as x:
                if "no room for" not in str(x):
                    raise
                fired["stopped: no room for more macroparticles"] = 1
                break
            steps += 1
            if steps >= 120 or not all(cl.MP_e.N_mp < 20000 for cl in sim.cloud_list):
                break
        world.RNG_HOOK = None
        for i in range(len(sim.cloud_list)):
            J.exact(i)
            if plan["burst"] and J.burst(i, plan):
                fired["burst of impacts"] = fired.get("burst of impacts", 0) + 1
        J.finish()
        if plan["curves"][0]:
            for i in range(len(sim.cloud_list)):
                J.curves(i, plan)
                fired["curves extracted"] = fired.get("curves extracted", 0) + 1
        br.close()
        if hook:
            fired.update(hook.counts)
        w.active = False
        common.check_escapes(w)
        return dict(steps=steps, states=sorted(J.states), n=J.n, tested=J.tested, fired=fired, tt=float(sim.beamtim.tt_curr))


def run(plan, emit):
    with proc.Scratch() as top:
        r = proc.raise_if_bad(proc.incarnation(_life, (plan, top)), "run")
    Y = plan["c"]["sey"]
    return dict(faults=r["fired"], probes={"impacts compared": r["n"], "draws compared with their distribution": r["tested"]}, states=r["states"], sim_time=r["tt"], steps=r["steps"],
                nontrivial=r["n"] >= 200, sig=[common.feature_sig(plan["c"]), [str(Y.get(k))[:40] for k in ("switch_no_increase_energy", "secondary_angle_distribution", "E_th", "E0")], bool(plan["adv"])],
                sample=dict(steps=r["steps"], impacts=r["n"], draws=r["tested"]))


def shrink(plan):
    if plan["curves"][0]:
        yield dict(plan, curves=[0, 500])
    if plan["adv"]:
        yield dict(plan, adv=None)
    if plan["burst"]:
        yield dict(plan, burst=0)
    if plan["place"] > 30:
        yield dict(plan, place=30)
    for p in common.shrink_key(plan):
        if p["c"]["sey"]["switch_model"] == plan["c"]["sey"]["switch_model"]:
            yield p
