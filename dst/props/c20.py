"""C20: primary electrons are generated in the charge and place the input asks for."""
import copy

import numpy as np
import scipy.stats as st

from .. import cfg, common, drive, geom, proc, shadow, world
from ..proc import Violation

LEVEL = "exploration"
TIERS = {"quick": dict(runs=300, cap=60, shrink=60), "thorough": dict(runs=10000, cap=1500, shrink=180)}
RULE = ("a run draws a set-up whose clouds have their own residual-gas ionization and photoemission parameters (uniform, reflected, from file, per segment; five energy "
        "distributions; continuous emission; a second beam; a switch-off time) and, in part of the runs, injects extreme uniform draws; each call and each time step is compared with "
        "the charge, places and energies computed from the input; in part of the runs every call is repeated with a higher beam density on a scratch copy of the cloud; the fluctuations accumulated over the run "
        "(rounding to macroparticles, places, energies) must stay within bounds exceeded with probability below 1e-12; non-trivial when at least 50 primaries were compared; "
        "distinct by feature signature, mechanisms, energy distribution and draws")
STATES = "distinct (features, mechanism, order of magnitude of the expected number, number generated above or below it) reached"
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = common.ASSUME + ["extreme uniform draws are not combined with the Lorentz energy distribution, which has infinite energy there", "the macroparticle size of new primaries is the cloud's reference size at that moment", "wall impact points of the chamber classes are taken as they are, up to the "
                               "requested distance from the wall"]
KB, CL, QE = 1.380649e-23, 299792458., cfg.QE
LN = 30.        # -ln of the probability allowed to a statistical excess


def gen(r, tier):
    c = cfg.gen(r, nonunif_t=.15, clouds=r.choice([0, 0, 1, 2]), primaries="none", small=r.random() < .5, sec=r.random() < .25)
    S, M, B = c["sim"], c["mach"], c["beam"]
    _, bs, _ = cfg.timeline(c)

    def gas(d):
        d.update(gas_ion_flag=1, P_nTorr=r.choice([50., 3e5, 1e6]), sigma_ion_MBarn=r.choice([2., 1.5, .8]), Temp_K=r.choice([300., 10., 77.]), unif_frac=r.choice([0., 0., .1, .5, 1.]),
                 E_init_ion=r.choice([.1, 0., 3.]))

    def photo(d, main):
        kind = r.choice([1, 1, 1, 2, 2, "from_file"] + ([3, "per_segment"] if M["chamb_type"] == "polyg" else []))
        d.update(photoem_flag=kind, k_pe_st=r.choice([1e-4, 2e-3, 1e-2]), e_pe_sigma=r.choice([5., 2.]), e_pe_max=r.choice([7., 3.]), out_radius=0.0305, phem_resc_fac=r.choice([.99, .9999]),
                 photoelectron_angle_distribution=r.choice(["cosine_3D", "cosine_3D", "cosine_2D", "normal_emission"]),
                 energy_distribution=r.choice(["gaussian", "gaussian", "lognormal", "rect", "mono", "lorentz"]))
        if d["energy_distribution"] == "lognormal":
            d.update(e_pe_max=1.6636, e_pe_sigma=1.0828)
        if kind == 1:
            d.update(refl_frac=r.choice([0., .2, .5, 1.]), alimit=r.choice([.2, .05]), x0_refl=r.choice([.01, 0., -3e-3, "left", "right"]), y0_refl=0.,
                     inv_CDF_refl_photoem_file=r.choice(["unif_no_file", "@/refl.mat"]))
            if d["inv_CDF_refl_photoem_file"] != "unif_no_file":
                c["mats"]["refl.mat"] = dict(kind="raw", data=dict(inv_CDF=[0., .5, 1.2, 2.], u_sam=[0., .3, .8, 1.]))
        elif kind in (2, "from_file"):
            d.update(inv_CDF_all_photoem_file=r.choice(["unif_no_file", "@/all.mat"]))
            if d["inv_CDF_all_photoem_file"] != "unif_no_file":
                c["mats"]["all.mat"] = dict(kind="raw", data=dict(angles=[-.4, .1, 1.5, 3.], u_sam=[0., .5, .9, 1.]))
        else:
            m = cfg.chamber_mat(c["mats"]["chm.mat"])
            n = len(m["Vx"])
            p = [r.choice([0., 1., 2.]) for _ in range(n)]
            p[r.randrange(n)] += 1.
            cdf = [float(x) for x in np.cumsum(p) / sum(p)]
            cdf = [1. if i >= max(j for j in range(n) if p[j] > 0) else x for i, x in enumerate(cdf)]
            c["mats"]["phem.mat"] = dict(kind="raw", data=dict(Vx=[float(x) for x in m["Vx"]], Vy=[float(x) for x in m["Vy"]], x_sem_ellip_insc=float(m["x_sem_ellip_insc"]),
                                                               y_sem_ellip_insc=float(m["y_sem_ellip_insc"]), phem_cdf=cdf))
            d.update(filename_chm_photoem="@/phem.mat")
        if r.random() < .25:
            d["flag_continuous_emission"] = True
    which = r.choice(["gas", "photo", "both", "both"])
    if which != "photo":
        gas(M)
    if which != "gas":
        photo(M, True)
    for cl in c["clouds"]:
        if r.random() < .5:
            gas(cl)
        if r.random() < .3:
            photo(cl, False)
        cl["nel_mp_ref_0"] = r.choice([2e8, 5e7]) / r.choice([100, 700])
    if r.random() < .3:
        S["t_ion"] = r.choice([.3, 1.2]) * bs
    if r.random() < .3:
        B["x_beam_pos"], B["y_beam_pos"] = r.choice([2e-3, -4e-3]), r.choice([0., 3e-3])
    for b in c["sec_beams"]:
        b["x_beam_pos"], b["y_beam_pos"] = r.choice([4e-3, -5e-3, 8e-3]), r.choice([0., -3e-3])
        if r.random() < .7:     # beams that can be told apart by the place of the ionization
            for d in (B, b):
                d["nemittx"] = d["nemitty"] = 3e-7
    S["nel_mp_ref_0"] = r.choice([2e8 / 150, 2e8 / 300, 2e6, 1e5])
    c["mach"]["init_unif_flag"] = 1
    if S["nel_mp_ref_0"] < 3e5:
        M["Nel_init_unif"] = 2e7
    if r.random() < .2:
        M["photoem_flag"], M["gas_ion_flag"] = M.get("photoem_flag", 0), M.get("gas_ion_flag", 0)
        B["coast_dens"] = r.choice([1e9, 1e10])
    # the initial cloud: a number of electrons, a density, a saved state, or several of them
    for k, d in enumerate([M] + c["clouds"]):
        how = r.choice(["unif", "unif", "edens", "file", "all", "none"]) if k else r.choice(["unif", "unif", "unif", "edens", "file", "all"])
        if how in ("edens", "file", "none"):
            d["init_unif_flag"] = 0
        elif r.random() < .3:
            for q in ("x_max", "x_min", "y_max", "y_min"):
                d[q + "_init_unif"] = r.choice([None, {"x_max": 1e-2, "x_min": -2e-3, "y_max": 9e-3, "y_min": 1e-3}[q]])
        d["E_init_unif"] = r.choice([.01, 0., 2.])
        if how in ("edens", "all"):
            d.update(init_unif_edens_flag=1, E_init_unif_edens=r.choice([0., 1.5]), x_max_init_unif_edens=r.choice([None, 5e-3]), x_min_init_unif_edens=r.choice([None, -3e-3]),
                     y_max_init_unif_edens=r.choice([None, 6e-3]), y_min_init_unif_edens=r.choice([None, -1e-3]))
            d["init_unif_edens"] = r.choice([2.3, 40., 300.]) * (d if "nel_mp_ref_0" in d else S)["nel_mp_ref_0"] / 1e-3
        if how in ("file", "all"):
            n = r.choice([1, 2, 60])
            f = "init%d.mat" % k
            u = np.random.RandomState(r.randrange(1 << 30))
            v = dict(x_mp=4e-3 * u.randn(n).clip(-2, 2), y_mp=3e-3 * u.randn(n).clip(-2, 2), z_mp=u.randn(n), vx_mp=1e6 * u.randn(n), vy_mp=1e6 * u.randn(n), vz_mp=1e6 * u.randn(n),
                     nel_mp=1e4 * u.rand(n) + 1e3)
            c["mats"][f] = dict(kind="raw", data=dict({q: [float(z) for z in w] for q, w in v.items()}, N_mp=n))
            d["filename_init_MP_state"] = "@/" + f
        elif k and "filename_init_MP_state" in M:
            d["filename_init_MP_state"] = None
        if k and how not in ("edens", "all"):
            d["init_unif_edens_flag"] = 0
    heavy = any(d.get("photoem_flag") and d.get("energy_distribution") == "lorentz" for d in [M] + c["clouds"])
    return dict(c=c, env=common.gen_env(r), bench=r.choice([0, 0, 3, 10]), adv=[r.randrange(1 << 30), r.choice([.02, .2]), r.choice([1, 4])] if r.random() < .35 and not heavy else None)


def bernstein(S, V):
    return abs(S) <= np.sqrt(2 * V * LN) + LN * 2 / 3 + 1e-6


class Sample:
    """Draws with a known distribution function: bounded distance of the empirical one (DKW)."""

    def __init__(self, cdf, name, lo=None, hi=None):
        self.cdf, self.name, self.x = cdf, name, []
        self.lo, self.hi = lo, hi

    def add(self, x):
        self.x.append(np.asarray(x, float).ravel())

    def test(self, cloud):
        x = np.sort(np.concatenate(self.x)) if self.x else np.zeros(0)
        n = len(x)
        if n < 30:
            return n
        F = self.cdf(x)
        lo, hi = np.arange(n) / n, np.arange(1, n + 1) / n
        # atoms of the distribution: compare at the right limit only where values repeat
        last = np.append(x[1:] != x[:-1], True)
        first = np.append(True, x[1:] != x[:-1])
        d = max(np.max(np.abs(F[last] - hi[last])), np.max((self.cdf(np.nextafter(x[first], -np.inf)) - lo[first]).__abs__()))
        if d > np.sqrt((LN + np.log(2)) / (2 * n)) + 1e-6:
            raise Violation("primaries are not distributed as requested", what_is=self.name, cloud=cloud, distance=float(d), of=n, allowed=float(np.sqrt((LN + np.log(2)) / (2 * n))))
        return n


def energy_cdf(d):
    k, mx, sg = d.get("energy_distribution", "gaussian"), d["e_pe_max"], d["e_pe_sigma"]
    if k == "gaussian":
        a = st.norm.cdf(0, mx, sg)
        return lambda x: np.clip((st.norm.cdf(x, mx, sg) - a) / (1 - a), 0, 1)
    if k == "lognormal":
        return lambda x: np.where(x > 0, st.norm.cdf(np.log(np.maximum(x, 1e-300)), mx, sg), 0.)
    if k == "rect":
        return lambda x: np.clip((x - mx) / sg + .5, 0, 1)
    if k == "mono":
        return None
    a = st.cauchy.cdf(0, mx, sg)
    return lambda x: np.clip((st.cauchy.cdf(x, mx, sg) - a) / (1 - a), 0, 1)


def hit(c, x0, y0, ang):
    """Where rays from (x0, y0) cross the wall (independent geometry, by bisection)."""
    lo, hi = np.zeros(len(ang)), np.full(len(ang), .2)
    cx, sy = np.cos(ang), np.sin(ang)
    for _ in range(50):
        m = .5 * (lo + hi)
        o = geom.outside_by(c, x0 + m * cx, y0 + m * sy) > 0
        hi, lo = np.where(o, m, hi), np.where(o, lo, m)
    return x0 + lo * cx, y0 + lo * sy


class Prim:
    def __init__(self, br, c, adv):
        self.br, self.c, self.adv = br, c, adv
        sim = br.sim
        self.n = len(sim.cloud_list)
        self.par = [dict(c["mach"])] + [dict(c["mach"], **{k: v for k, v in cl.items() if not k.startswith("_")}) for cl in c["clouds"]]
        for p, cl in zip(self.par[1:], c["clouds"]):
            p["gas_ion_flag"], p["photoem_flag"] = cl["gas_ion_flag"], cl["photoem_flag"]
        self.beams = [sim.beamtim] + list(sim.sec_beams_list or [])
        self.bp = [c["beam"]] + list(c["sec_beams"])
        self.S = {}
        self.V = {}
        self.made = 0
        self.step = None
        self.states = set()
        self.fs = common.feature_sig(c)
        self.samples = {}
        self.bench = 0
        self.place = {}

    # ---- expectations from the input
    def gas_charge(self, p, lam, dt):
        return p["P_nTorr"] * 133.32e-9 / (KB * p["Temp_K"]) * p["sigma_ion_MBarn"] * 1e-22 * CL * lam * dt

    def photo_charge(self, p, lam, dt):
        if p.get("flag_continuous_emission"):
            lam = float(np.mean(self.beams[0].lam_t_array))
        return p["k_pe_st"] * CL * lam * dt

    def fail(self, what, **k):
        bt = self.br.sim.beamtim
        raise Violation(what, step=int(bt.ii_curr), t=float(bt.tt_curr or 0.), **k)

    # ---- the cloud before the first step
    def initial(self):
        c = self.c
        for i, cl in enumerate(self.br.sim.cloud_list):
            p, a = self.par[i], shadow.take(cl.MP_e)
            size = float((c["clouds"][i - 1].get("nel_mp_ref_0") if i else None) or c["sim"]["nel_mp_ref_0"])
            ch = self.br.sim.chamb
            m = float(cl.MP_e.mass)
            f = c["mats"].get(str(p.get("filename_init_MP_state"))[2:])
            nf = f["data"]["N_mp"] if f else 0
            E = .5 * m / abs(float(cl.MP_e.charge)) * (a["vx_mp"] ** 2 + a["vy_mp"] ** 2 + a["vz_mp"] ** 2)
            n0 = 0

            def box(suf):
                return [p.get(q + suf) if p.get(q + suf) is not None else d for q, d in (("x_max", ch.x_aper), ("x_min", -ch.x_aper), ("y_max", ch.y_aper), ("y_min", -ch.y_aper))]

            def part(s, suf, en, name):
                x1, x0, y1, y0 = box(suf)
                x, y = a["x_mp"][s], a["y_mp"][s]
                if np.any(a["nel_mp"][s] != size):
                    self.fail("a macroparticle of the initial cloud does not have the reference size", cloud=i, part=name)
                if np.any((x > x1) | (x < x0) | (y > y1) | (y < y0)) or np.any(geom.outside_by(c, x, y) > 1e-12):
                    self.fail("a macroparticle of the initial cloud is outside the requested region", cloud=i, part=name)
                if np.any(E[s] > en / 4 * (1 + 1e-9)) or np.any(a["z_mp"][s] != 0):
                    self.fail("a macroparticle of the initial cloud is faster than requested", cloud=i, part=name, energy=float(E[s].max()), requested=en)
                vm = .5 * np.sqrt(2 * en / 3 * abs(float(cl.MP_e.charge)) / m)
                for k in ("vx_mp", "vy_mp", "vz_mp"):
                    if np.any(np.abs(a[k][s]) > vm * (1 + 1e-9)) or en > 0 and np.any(a[k][s] == 0):
                        self.fail("the requested energy of the initial cloud is not shared by the three directions", cloud=i, part=name, array=k, value=float(a[k][s][0]), bound=float(vm))
                if geom.outside_by(c, np.array([x0, x1, x1, x0]), np.array([y0, y0, y1, y1])).max() <= 0 and c["mach"]["chamb_type"] != "polyg":
                    for k, v, lo, hi in (("x", x, x0, x1), ("y", y, y0, y1)):
                        S = Sample(lambda z, lo=lo, hi=hi: np.clip((z - lo) / (hi - lo), 0, 1), "initial cloud, %s" % k)
                        S.add(v)
                        S.test(i)
                    return True
                return False
            left = a["N"] - nf
            if p.get("init_unif_edens_flag") == 1 and p.get("init_unif_flag") == 1:
                n0 = None
            f0 = p["Nel_init_unif"] / size if p.get("init_unif_flag") == 1 else 0.
            lo, hi = np.floor(f0 - 1e-9 * (1 + f0)), np.floor(f0 + 1e-9 * (1 + f0)) + (1 if f0 else 0)
            if p.get("init_unif_edens_flag") == 1:
                x1, x0, y1, y0 = box("_init_unif_edens")
                g = p["init_unif_edens"] * (x1 - x0) * (y1 - y0) / size
                z = np.random.RandomState(5)
                fr = np.mean(geom.outside_by(c, x0 + (x1 - x0) * z.rand(20000), y0 + (y1 - y0) * z.rand(20000)) <= 0)
                w = np.sqrt(2 * LN * (g * fr * (1 - fr) + g * g / 20000 * fr * (1 - fr))) + (LN if 0 < fr < 1 else 0) + 1
                glo, ghi = np.floor(g - 1e-9 * (1 + g)) if fr == 1 else g * fr - w, np.floor(g + 1e-9 * (1 + g)) + 1 if fr == 1 else g * fr + w
            else:
                glo = ghi = 0
            if not lo + glo <= left <= hi + ghi:
                self.fail("the initial cloud does not have the requested charge", cloud=i, macroparticles=left, expected=[float(lo + glo), float(hi + ghi)], file=nf)
            if f:
                for k in shadow.ARR:
                    if not np.array_equal(a[k][left:], np.array(f["data"][k])):
                        self.fail("the initial cloud is not that of the file", cloud=i, array=k)
            if f0 and n0 is not None:
                part(slice(0, left), "_init_unif", p["E_init_unif"], "number of electrons")
            elif f0:
                part(slice(0, int(lo)), "_init_unif", p["E_init_unif"], "number of electrons")
                part(slice(int(hi), left), "_init_unif_edens", p["E_init_unif_edens"], "density")
            elif left:
                part(slice(0, left), "_init_unif_edens", p["E_init_unif_edens"], "density")
            if "tl" in a and np.any(a["tl"][:left] > 0):
                self.fail("a macroparticle of the initial cloud has hit the wall already", cloud=i)
            self.states.add("initial|%s|%d|%d|%d" % (c["mach"]["chamb_type"], f0 > 0, ghi > 0, nf > 0))

    # ---- one call
    def primary(self, i, kind, g, b, a, args, kw, scratch=None):
        new = slice(b["N"], a["N"])
        k = a["N"] - b["N"]
        if k < 0 or shadow.same(b, {q: (v[:b["N"]] if isinstance(v, np.ndarray) else v) for q, v in a.items()}, b["N"]) or a["ref"] != b["ref"]:
            self.fail("generating primaries changes other macroparticles", cloud=i, mechanism=kind)
        if not scratch:
            key = (i, kind)
            self.step = self.step or {}
            self.step[key] = self.step.get(key, []) + [(k, b["ref"])]
        if not k:
            return
        p, c = self.par[i], self.c
        self.made += k
        x, y = a["x_mp"][new], a["y_mp"][new]
        if np.any(a["nel_mp"][new] != b["ref"]):
            self.fail("a primary does not have the reference size", cloud=i, mechanism=kind)
        if np.any(a["z_mp"][new] != 0):
            self.fail("a primary starts at another longitudinal position", cloud=i, mechanism=kind)
        if "tl" in a and np.any(a["tl"][new] > 0):
            self.fail("a primary has hit the wall before it was created", cloud=i, mechanism=kind)
        E = .5 * float(self.br.sim.cloud_list[i].MP_e.mass) / QE * (a["vx_mp"][new] ** 2 + a["vy_mp"][new] ** 2 + a["vz_mp"][new] ** 2)
        if not np.all(np.isfinite(E)) or not np.all(np.isfinite(x + y)):
            self.fail("a primary is not finite", cloud=i, mechanism=kind)
        o = geom.outside_by(c, x, y)
        if np.any(o > 1e-12):
            self.fail("a primary is created outside the chamber", cloud=i, mechanism=kind, by=float(o.max()))
        (self.gas_place if kind == "gas" else self.photo_place)(i, p, x, y, E, a, new, scratch)

    def gas_place(self, i, p, x, y, E, a, new, scratch):
        if np.any(E > p["E_init_ion"] / 4 * (1 + 1e-9)):
            self.fail("a primary of the residual gas is faster than requested", cloud=i, energy=float(E.max()), requested=p["E_init_ion"])
        if self.adv is None and p["E_init_ion"] > 0 and not np.all(E > 0):
            self.fail("a primary of the residual gas has no energy", cloud=i)
        u = p["unif_frac"]
        at = [(np.abs(x - bp.get("x_beam_pos", 0.)) <= 9 * bm.sigmax) & (np.abs(y - bp.get("y_beam_pos", 0.)) <= 9 * bm.sigmay) for bm, bp in zip(self.beams, self.bp)]
        near = np.any(at, axis=0)
        if u == 0 and not scratch:
            n = self.place.setdefault(i, np.zeros(len(at), int))
            n += np.sum(at, axis=1)
        if u == 0 and not near.all():
            self.fail("residual gas is ionized away from the beam", cloud=i, x=float(x[~near][0]), y=float(y[~near][0]))
        if u > 0 and u < 1:
            q = self.samples.setdefault((i, "far"), [0, 0])
            q[0] += int((~near).sum())
            q[1] += len(x)
        if self.adv is None and u in (0., 1.) and len(self.beams) == 1:
            bm, bp = self.beams[0], self.bp[0]
            if u == 0:
                for k, v, m, s in (("x", x, bp.get("x_beam_pos", 0.), bm.sigmax), ("y", y, bp.get("y_beam_pos", 0.), bm.sigmay)):
                    self.samples.setdefault((i, "gas " + k), Sample(lambda z, m=m, s=s: st.norm.cdf(z, m, s), "place of ionization, %s" % k)).add(v)
            elif self.c["mach"]["chamb_type"] == "rect":
                for k, v, w in (("x", x, self.c["mach"]["x_aper"]), ("y", y, self.c["mach"]["y_aper"])):
                    self.samples.setdefault((i, "unif " + k), Sample(lambda z, w=w: np.clip(.5 + z / 2 / w, 0, 1), "place of uniform ionization, %s" % k)).add(v)

    def photo_place(self, i, p, x, y, E, a, new, scratch):
        c = self.c
        kind = p["photoem_flag"]
        F = energy_cdf(p)
        if F is None:
            if np.any(np.abs(E - p["e_pe_max"]) > 1e-6 * p["e_pe_max"]):
                self.fail("a photoelectron does not have the requested energy", cloud=i)
        elif self.adv is None:
            self.samples.setdefault((i, "E"), Sample(F, "energy of photoelectrons")).add(E)
        # the place: on the wall, and no other than the requested distance from it
        r = np.hypot(x, y)
        ox, oy = x * (1 + 2e-9 / r), y * (1 + 2e-9 / r)
        if kind in (3, "per_segment"):
            vx, vy = geom.polygon(c)
            d = np.array(c["mats"]["phem.mat"]["data"]["phem_cdf"])
            pr = np.diff(np.append(0., d))
            x2, y2 = np.roll(vx, -1), np.roll(vy, -1)
            D = np.empty((len(vx), len(x)))
            for s in range(len(vx)):
                L2 = (x2[s] - vx[s]) ** 2 + (y2[s] - vy[s]) ** 2
                t = np.clip(((x - vx[s]) * (x2[s] - vx[s]) + (y - vy[s]) * (y2[s] - vy[s])) / L2, 0, 1)
                D[s] = np.hypot(x - vx[s] - t * (x2[s] - vx[s]), y - vy[s] - t * (y2[s] - vy[s]))
            seg, on = np.argmin(D, axis=0), D < 1e-11     # at a corner it may have been emitted by either segment
            if not np.all(on.any(axis=0)):
                self.fail("a photoelectron does not start at the wall", cloud=i, distance=float(D.min(axis=0).max()))
            if self.adv is None:
                self.samples.setdefault((i, "seg"), Sample(lambda z, d=d: np.where(z < 0, 0., d[np.clip(np.floor(z).astype(int), 0, len(d) - 1)]), "segment of emission")).add(seg)
            on &= (pr > 0)[:, None]
            if not np.all(on.any(axis=0)):
                self.fail("a photoelectron is emitted from a segment that emits none", cloud=i, segment=int(seg[~on.any(axis=0)][0]))
            nx, ny = -(y2 - vy) / np.hypot(x2 - vx, y2 - vy), (x2 - vx) / np.hypot(x2 - vx, y2 - vy)
            vn = nx[:, None] * a["vx_mp"][new] + ny[:, None] * a["vy_mp"][new]
            sp = np.hypot(a["vx_mp"][new], a["vy_mp"][new])
            if not np.all(np.any(on & (vn >= -1e-9 * sp), axis=0)):
                self.fail("a photoelectron moves into the wall", cloud=i)
            return
        ang = np.arctan2(y, x)
        hx, hy = hit(c, 0., 0., ang)
        w = np.hypot(hx, hy)
        on = r >= p["phem_resc_fac"] * w * (1 - 1e-6) - 1e-9
        if kind == 1 and p["inv_CDF_refl_photoem_file"] != "unif_no_file" and p["refl_frac"] > 0:
            # reflected photons come from (x0, 0), rescaled along their own direction
            x0 = p["x0_refl"]
            if x0 in ("left", "right"):
                x0 = float(self.br.sim.cloud_list[i].phemiss.x0_refl)
                e = hit(c, 0., 0., np.array([0. if p["x0_refl"] == "right" else np.pi]))[0][0]
                if abs(x0 - e) > 1e-4 * abs(e):
                    self.fail("the source of reflected photons is not at the requested wall", cloud=i, source=x0, wall=float(e))
            a2 = np.arctan2(y, x - x0)
            gx, gy = hit(c, x0, 0., a2)
            l = np.hypot(gx - x0, gy)
            on2 = np.hypot(x - x0, y) >= p["phem_resc_fac"] * l * (1 - 1e-6) - 1e-9
            if not np.all(on | on2):
                self.fail("a photoelectron does not start at the wall", cloud=i)
            psi = np.pi - np.arctan2(y, x - x0)          # emission angle of the source
            psi = np.mod(psi + np.pi, 2 * np.pi) - np.pi
            ok = (np.abs(ang) <= 7.5 * p["alimit"]) & (p["refl_frac"] < 1) | (psi >= -1e-6) & (psi <= 2 + 1e-6)
            ok |= (x == x0) & (y == 0)               # the wall is closer to the source than the geometry resolves
            if not np.all(ok):
                self.fail("a photoelectron starts where no photon arrives", cloud=i, angle=float(ang[~ok][0]), dx=float((x-x0)[~ok][0]), y=float(y[~ok][0]), psi=float(psi[~ok][0]))
            if self.adv is None and p["refl_frac"] == 1:
                psi = psi[(x != x0) | (y != 0)] if not isinstance(p["x0_refl"], str) else psi[:0]
                self.samples.setdefault((i, "psi"), Sample(lambda z: np.interp(z, [0., .5, 1.2, 2.], [0., .3, .8, 1.], left=0., right=1.), "angle of reflected photons")).add(psi)
            return
        if not np.all(on):
            self.fail("a photoelectron does not start at the wall", cloud=i, radius=float(r[~on][0]), wall=float(w[~on][0]))
        if self.adv is None:
            wr = lambda z: np.clip((z + np.pi) / (2 * np.pi), 0, 1)
            if kind == 1:
                f, s = p["refl_frac"], p["alimit"]
                self.samples.setdefault((i, "ang"), Sample(lambda z: f * wr(z) + (1 - f) * st.norm.cdf(z, 0, s), "angle of photoelectrons")).add(ang)
            elif p["inv_CDF_all_photoem_file"] == "unif_no_file":
                self.samples.setdefault((i, "ang"), Sample(wr, "angle of photoelectrons")).add(ang)
            else:
                self.samples.setdefault((i, "ang"), Sample(lambda z: np.interp(z, [-.4, .1, 1.5, 3.], [0., .5, .9, 1.], left=0., right=1.), "angle of photoelectrons")).add(ang)

    # ---- one step
    def before_save(self, i):
        got = (self.step or {})
        bt = self.br.sim.beamtim
        ii = int(bt.ii_curr)
        dt = float(bt.t[ii + 1] - bt.t[ii])
        p = self.par[i]
        tt = float(bt.t[ii])
        for kind in ("gas", "photo"):
            ref = got.get((i, kind), [(0, None)])
            n = sum(x[0] for x in ref)
            on = (p.get("gas_ion_flag") == 1 and tt < self.c["sim"].get("t_ion", 100.)) if kind == "gas" else p.get("photoem_flag", 0) != 0
            if not on:
                if n:
                    self.fail("primaries are generated by a mechanism that is off", cloud=i, mechanism=kind, number=n)
                continue
            size = float(self.br.sim.cloud_list[i].MP_e.nel_mp_ref) if ref[0][1] is None else ref[0][1]
            lam = [float(b.lam_t_array[ii]) for b in self.beams]
            if kind == "gas":
                f = np.array([self.gas_charge(p, l, dt) for l in lam]) / size
            else:
                f = np.array([self.photo_charge(p, sum(lam), dt)]) / size
            tol = 1e-9 * (1 + f.sum())
            if n < np.sum(np.floor(f - tol)) or n > np.sum(np.floor(f + tol) + 1):
                self.fail("the charge of the primaries generated in a step is not the requested one", cloud=i, mechanism=kind, generated=n, expected=[float(x) for x in f])
            if kind == "gas" and i in self.place and len(lam) > 1 and self.apart():
                m = self.place[i]
                if np.any(m < np.floor(f - tol)) or np.any(m > np.floor(f + tol) + 1):
                    self.fail("the charge of the primaries generated at a beam is not the one this beam ionizes", cloud=i, generated=m.tolist(), expected=[float(x) for x in f])
            fr = f - np.floor(f)
            self.S[i, kind] = self.S.get((i, kind), 0.) + n - f.sum()
            self.V[i, kind] = self.V.get((i, kind), 0.) + float(np.sum(fr * (1 - fr)))
            if self.adv is None and not bernstein(self.S[i, kind], self.V[i, kind]):
                self.fail("the charge of the primaries generated up to a step is not the requested one", cloud=i, mechanism=kind, excess=float(self.S[i, kind]), variance=self.V[i, kind])
            self.states.add("%s|%s|%d|%d" % (self.fs, kind, int(np.log2(f.sum() + 1e-6)), n > f.sum()))
        if i == self.n - 1:
            self.step = None
            self.place = {}

    def apart(self):
        b = list(zip(self.beams, self.bp))
        return all(abs(q.get("x_beam_pos", 0.) - w.get("x_beam_pos", 0.)) > 9 * (p.sigmax + v.sigmax) or
                   abs(q.get("y_beam_pos", 0.) - w.get("y_beam_pos", 0.)) > 9 * (p.sigmay + v.sigmay) for k, (p, q) in enumerate(b) for v, w in b[:k])

    # ---- the same mechanisms with a higher beam density, on a scratch copy of the cloud
    def repeat(self, k):
        sim = self.br.sim
        for i, cl in enumerate(sim.cloud_list):
            p = self.par[i]
            for kind, g in (("gas", cl.resgasion), ("photo", cl.phemiss)):
                if g is None:
                    continue
                mp = copy.copy(cl.MP_e)
                for q in drive.MP_ARR:
                    setattr(mp, q, getattr(cl.MP_e, q).copy())
                if hasattr(cl.MP_e, "t_last_impact"):
                    mp.t_last_impact = cl.MP_e.t_last_impact.copy()
                mp.N_mp = min(mp.N_mp, 5)
                dt = 5e-11
                one = self.gas_charge(p, 1., dt) if kind == "gas" else self.photo_charge(p, 1., dt)
                if kind == "photo" and p.get("flag_continuous_emission"):
                    f = one / mp.nel_mp_ref
                    lam = 1.
                else:
                    f = k * 40.3
                    lam = f * mp.nel_mp_ref / one
                b = shadow.take(mp)
                bt = sim.beamtim
                real = [r for _, n, r in self.br.undo if n == "generate" and isinstance(g, _)][0]
                if kind == "gas":
                    real(g, mp, lam, dt, bt.sigmax, bt.sigmay, x_beam_pos=bt.x_beam_pos, y_beam_pos=bt.y_beam_pos)
                else:
                    real(g, mp, lam, dt)
                a = shadow.take(mp)
                n = a["N"] - b["N"]
                if not np.floor(f - 1e-9 * (1 + f)) <= n <= np.floor(f + 1e-9 * (1 + f)) + 1:
                    self.fail("the charge of the primaries of a call is not the requested one", cloud=i, mechanism=kind, generated=n, expected=f)
                self.primary(i, kind, g, b, a, (), {}, scratch=True)
                self.bench += 1

    def end(self):
        tot = 0
        for (i, k), s in self.samples.items():
            if isinstance(s, Sample):
                tot += s.test(i)
            elif self.adv is None and self.c["mach"]["chamb_type"] == "rect":
                # uniform ionization far from the beams
                M = self.c["mach"]
                bm = self.beams
                area = sum(18 * b.sigmax * 18 * b.sigmay for b in bm) / (4 * M["x_aper"] * M["y_aper"])
                u = self.par[i]["unif_frac"]
                lo, hi = u * (1 - area), u
                f, n = s
                if n and not (lo * n - np.sqrt(LN * n / 2) <= f <= hi * n + np.sqrt(LN * n / 2)):
                    self.fail("the fraction of uniform ionization is not the requested one", cloud=i, far=f, of=n, requested=u)
        return tot


def _life(emit, plan, root):
    c = plan["c"]
    drive.prepare(c, root)
    with common.mkworld(root, plan["env"]) as w:
        sim = drive.build(c, root)
        world.RNG_HOOK = world.adversarial_rng(*plan["adv"]) if plan["adv"] else None
        br = shadow.Bracket(sim)
        p = Prim(br, c, plan["adv"])
        br.listeners.append(p)
        p.initial()
        n = 0
        while True:
            try:
                if not drive.step(sim):
                    break
            except ValueError as e:
                if "no room for" not in str(e):
                    raise
                break       # refused, as it should be: the run ends here
            n += 1
            if plan["bench"] and n % 5 == 0:
                with np.errstate(all="ignore"):
                    p.repeat(plan["bench"])
            if max(cl.MP_e.N_mp for cl in sim.cloud_list) > 30000:
                break
        samples = p.end()
        br.close()
        w.active = False
        return dict(steps=n, made=p.made, states=sorted(p.states), fired=dict(world.RNG_HOOK.counts) if plan["adv"] else {}, bench=p.bench, samples=samples,
                    tt=float(sim.beamtim.tt_curr))


def run(plan, emit):
    with proc.Scratch() as top:
        r = proc.raise_if_bad(proc.incarnation(_life, (plan, top)), "run")
    c = plan["c"]
    return dict(faults=r["fired"], probes={"primaries": r["made"], "repeated calls": r["bench"], "samples tested": r["samples"]}, states=r["states"], sim_time=r["tt"], steps=r["steps"],
                nontrivial=r["made"] >= 50, sig=[common.feature_sig(c), c["mach"].get("photoem_flag"), c["mach"].get("energy_distribution"), plan["bench"], bool(plan["adv"])],
                sample=dict(steps=r["steps"], primaries=r["made"], samples=r["samples"]))


def shrink(plan):
    if plan["adv"]:
        yield dict(plan, adv=None)
    if plan["bench"]:
        yield dict(plan, bench=0)
    yield from common.shrink_key(plan)
    for k in ("x_beam_pos", "y_beam_pos", "coast_dens"):
        if plan["c"]["beam"].get(k):
            p = copy.deepcopy(plan)
            p["c"]["beam"][k] = 0.
            yield p
