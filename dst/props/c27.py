"""C27: the beams that drive the simulation are those of the input: time axis, line density, transverse size, electric field in the chamber."""
import os

import numpy as np

from .. import cfg, common, drive, field, geom, proc
from ..proc import Violation

LEVEL = "exploration"
TIERS = {"quick": dict(runs=420, cap=50, shrink=60), "thorough": dict(runs=8000, cap=1500, shrink=180)}
RULE = ("a run draws a beam and up to two further ones (filling pattern from a list or a file with its own bunch lengths, or a line density from a file on uniform and non-uniform steps; scale, "
        "coasting part, offset, spacing; size given directly, or by emittance, optics and dispersion of the beam or of the machine; position; field from finite differences, from the closed formula in "
        "elliptical chambers, or from a map stored by an earlier run), builds the simulation from its input files, and compares the time axis, the line densities and the field at "
        "random places of the chamber with independent computations (bunch by bunch sums, boundary elements), also while time steps are taken; one run in eight is of a beam that must be "
        "refused; non-trivial when a field was compared at 40 places at least, or an impossible beam was refused; distinct by profile, size, field and chamber kinds")
STATES = "distinct (chamber, field mode, profile kind, beam index, size ratio, offset) compared, and kinds of refusal"
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = ["finite differences are held to the accuracy their cells allow (a fraction of the field of the beam's charge at that distance, fixed from grid and beam size)",
               "telescopic grids for the beam need a sparse solver which is not installed: not covered"]
CL = 299792458.


def gen_beam(r, c, B, main):
    M, S = c["mach"], c["sim"]
    ell = M["chamb_type"] == "ellip"
    if r.random() < .5:
        B.update(sigmax=r.choice([.5e-3, 1e-3, 2.3e-3, 3e-3]), sigmay=r.choice([.5e-3, 1e-3, 1.7e-3, 2.5e-3]))
    else:
        B["nemittx"], B["nemitty"] = r.choice([2.5e-6, 2e-5, 1e-5]), r.choice([2.5e-6, 1.5e-5, 4e-6])
        B["energy_eV"] = r.choice([450e9, 26e9, 2e9, 7e12])
        if B["energy_eV"] > 1e12:
            B["nemittx"], B["nemitty"] = 4e-4, 2e-4
        if r.random() < .5:
            B["betafx"] = r.choice([30., 120.])
        if r.random() < .5:
            B["betafy"] = r.choice([20., 60.])
        if r.random() < .4:
            B["Dp_p"] = r.choice([1e-3, 3e-4])
            if r.random() < .5:
                B["Dx"] = r.choice([2., -1.])
            if r.random() < .3:
                B["Dy"] = r.choice([.5, -1.])
        if r.random() < .2:
            B["m0_part"] = r.choice([cfg.ME, 1.67262192369e-27 * 2])
            if B["m0_part"] == cfg.ME:
                B["nemittx"], B["nemitty"] = 1e-2, 7e-3
    if r.random() < .35 or (not main and r.random() < .5):
        B.update(x_beam_pos=r.choice([0., 3e-3, -5e-3]), y_beam_pos=r.choice([0., 2e-3, -4e-3]))
    if ell and not B.get("x_beam_pos") and not B.get("y_beam_pos") and r.random() < .6:
        B.update(beam_field_file="computeBE", Nx=r.choice([41, 30]), Ny=r.choice([41, 36]), nimag=r.choice([10, 20]), x_beam_pos=0., y_beam_pos=0.)
        if r.random() < .2 and "sigmax" in B:
            B["sigmay"] = B["sigmax"]
    else:
        B.update(beam_field_file=r.choice(["computeFD", "computeFD", -1]), Dh_beam_field=r.choice([1e-3, 7e-4, 5e-4]))
        if r.random() < .25:
            B["save"] = 1
    # the beam must fit: the comparison is with a beam of which nothing is outside
    d = float(geom.inside_by(c, np.array([B.get("x_beam_pos", 0.)]), np.array([B.get("y_beam_pos", 0.)]))[0])
    if d < 1.5e-3:
        B.update(x_beam_pos=0., y_beam_pos=0.)
        d = float(geom.inside_by(c, np.array([0.]), np.array([0.]))[0])
    s = sizes(c, B)
    if max(s) > d / 6 or min(s) < .4e-3:
        B.update(sigmax=d / r.choice([6.5, 9.]), sigmay=d / r.choice([6.5, 12.]))
    B["fact_beam"] = r.choice([1e11, 2.5e11, 1.15e11])
    B["coast_dens"] = r.choice([0., 0., 1e9, 3e10])
    k = r.choice(["list", "list", "mat", "matz", "file"] if main or not c["beam"]["flag_bunched_beam"] else ["list", "list", "mat", "matz"])
    n = r.randrange(1, 5)
    pat = [r.choice([1., 1., 0., .7]) for _ in range(n)]
    if k == "file":
        if main:
            st = [[r.choice([20, 50]), S["Dt"] * r.choice([1, 1, 2])]]
            if M["track_method"].startswith("Boris") and r.random() < .6:
                st += [[10, S["Dt"] / 2], [1, r.choice([1., 2.4]) * B["b_spac"]], [15, S["Dt"]]]
            c["mats"]["prof.mat"] = dict(kind="profile", steps=st, lam=r.choice([1.5e12, 2.]), period=B["b_spac"])
        B.update(flag_bunched_beam=0, beam_long_prof_file=r.choice(["@/prof.mat", "prof_in.mat", "prof_in"]), filling_pattern_file=-1, sigmaz=-1, fact_beam=r.choice([1., .3, 2.]))
    else:
        B.update(flag_bunched_beam=1, beam_long_prof_file=-1, sigmaz=r.choice([.02, .11, .3]), filling_pattern_file=pat)
        if k != "list":
            nm = "fill%d.mat" % r.randrange(1 << 20)
            d = dict(ppb_vect=pat)
            if k == "matz":
                d["sigmaz_vect"] = [B["sigmaz"] * r.choice([1., 1.4, .5]) for _ in pat]
                if r.random() < .5:
                    B["sigmaz"] = -1
            c["mats"][nm] = dict(kind="raw", data=d)
            B["filling_pattern_file"] = "@/" + nm
        B["t_offs"] = r.choice([0., .4e-9, 1e-9, 2.2e-9])
        if not main:
            B["b_spac"] = r.choice([c["beam"]["b_spac"], 1.7e-9])
    B["q_part"] = r.choice([cfg.QE, -cfg.QE])


def gen(r, tier):
    c = cfg.gen(r, small=True, track=r.choice(["StrongBdip", "Boris", "BorisMultipole"]), clouds=0, cross=False, em=False, sec=False, sey="ECLOUD")
    S, M = c["sim"], c["mach"]
    for k in ("Dh_electric_energy", "flag_movie", "flag_sc_movie", "flag_em_tracking"):
        S.pop(k, None)
    M.update(gas_ion_flag=0, photoem_flag=0, Nel_init_unif=1e6, betafx=r.choice([85., 200.]), betafy=r.choice([90., 40.]), Dx=r.choice([0., 1.5]), Dy=r.choice([0., 0., .7]))
    if M["chamb_type"] == "ellip":
        M["x_aper"], M["y_aper"] = r.choice([(.022, .018), (.022, .018), (.018, .022), (.02, .02), (.02, .0199), (.03, .019)])
    B = c["beam"]
    gen_beam(r, c, B, True)
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        b = dict(cfg.base()["beam"], b_spac=B["b_spac"])
        c["sec_beams"].append(b)
        gen_beam(r, c, b, False)
    plan = dict(c=c, env=common.gen_env(r), bad=None, pts=r.randrange(1 << 30), steps=r.choice([5, 40]))
    if r.random() < .125:
        plan["bad"] = r.choice(["outside", "no sigmaz", "axes", "passes", "optics", "BE rect", "BE offset", "outside sec"])
        spoil(r, c, plan["bad"])
    elif r.random() < .3:
        plan["again"] = r.random() < .8 and any(b.get("save") for b in [B] + c["sec_beams"])
    return plan


def spoil(r, c, bad):
    B, M = c["beam"], c["mach"]
    b0 = cfg.base()["beam"]
    if bad == "outside":
        B.update(x_beam_pos=r.choice([.05, -.031]), beam_field_file="computeFD", Dh_beam_field=1e-3)
    elif bad == "outside sec":
        c["sec_beams"] = c["sec_beams"] + [dict(b0, y_beam_pos=r.choice([.04, -.0305]), b_spac=1e-9)]
    elif bad == "no sigmaz":
        B.update(flag_bunched_beam=1, filling_pattern_file=[1., 0.], sigmaz=-1, beam_long_prof_file=-1)
    elif bad == "axes":
        k = r.choice(["len", "step"])
        B.update(flag_bunched_beam=1, filling_pattern_file=[1., 1.], sigmaz=.1, beam_long_prof_file=-1, fact_beam=1e11)
        t = cfg.timeline(c)[0]
        dt = c["sim"]["Dt"]
        n = len(t) - 1
        c["mats"]["prof2.mat"] = dict(kind="profile", steps=[[n - 5, dt]] if k == "len" else [[n, dt * (1 + r.choice([.1, 1e-2, -.3]))]], lam=1., period=2.5e-9)
        c["sec_beams"] = [dict(b0, flag_bunched_beam=0, beam_long_prof_file="@/prof2.mat", filling_pattern_file=-1, sigmaz=-1, b_spac=2.5e-9)]
    elif bad == "passes":
        B.update(flag_bunched_beam=1, filling_pattern_file=[1., 1.], sigmaz=.1, beam_long_prof_file=-1)
        n = cfg.timeline(c)[2]
        c["sim"]["save_mat_every"] = [q for q in (2, 3, 5, 7) if n % q][0]
        c["sim"]["save_mat_folder"] = "@/matf"
    elif bad == "optics":
        for k in ("sigmax", "sigmay"):
            B.pop(k, None)
        B.update(nemittx=None) if r.random() < .5 else B.update(nemitty=None)
    elif bad == "BE rect":
        c["mach"].update(chamb_type="rect", x_aper=.023, y_aper=.018)
        B.update(beam_field_file="computeBE", Nx=11, Ny=11, nimag=5)
    elif bad == "BE offset":
        c["mach"].update(chamb_type="ellip", x_aper=.022, y_aper=.018, x_max_init_unif=.01, x_min_init_unif=-.01, y_max_init_unif=.01, y_min_init_unif=-.01)
        B.update(beam_field_file="computeBE", Nx=11, Ny=11, nimag=5, **{r.choice(["x_beam_pos", "y_beam_pos"]): 1e-3})


def sizes(c, b):
    M = c["mach"]

    def opt(k, d):
        return b[k] if b.get(k) is not None else M.get(k, d)
    g = b["energy_eV"] * cfg.QE / (b.get("m0_part", 1.67262192369e-27) * CL ** 2)
    bg = np.sqrt(g * g - 1)
    out = []
    for u in "xy":
        s = b.get("sigma" + u, -1)
        if s == -1:
            s = np.sqrt(opt("betaf" + u, None) * b["nemitt" + u] / bg + (opt("D" + u, 0.) * b["Dp_p"]) ** 2)
        out.append(float(s))
    return out


def axis(c):
    b, S = c["beam"], c["sim"]
    if not b["flag_bunched_beam"]:
        return np.array(cfg.profile_axis(c["mats"]["prof.mat"]))
    f = b["filling_pattern_file"]
    n = len(f) if not isinstance(f, str) else len(c["mats"][f[2:]]["data"]["ppb_vect"])
    T = n * b["b_spac"] + S["t_end"] + 2 * S["Dt"]
    return S["Dt"] * np.arange(int(np.ceil(T / S["Dt"] - 1e-6)))


def line(c, b, t):
    """The line density, one bunch at a time, and how much of it the cut of the tails may miss."""
    if not b["flag_bunched_beam"]:
        m = c["mats"]["prof.mat"]
        ph = np.mod(t, m["period"]) - 0.4 * m["period"]
        return b["fact_beam"] * m["lam"] * np.exp(-ph ** 2 / (2 * (0.1 * m["period"]) ** 2)) + b["coast_dens"]
    f = b["filling_pattern_file"]
    if isinstance(f, str):
        d = c["mats"][f[2:]]["data"]
        ppb, sz = d["ppb_vect"], d.get("sigmaz_vect")
    else:
        ppb, sz = f, None
    out = np.full(len(t), float(b["coast_dens"]))
    for i, p in enumerate(ppb):
        if not p:
            continue
        s = (sz[i] if sz is not None else b["sigmaz"]) / CL
        u = (t - b["t_offs"] - i * b["b_spac"]) / s
        out += b["fact_beam"] * p * np.where(np.abs(u) < 10.5, np.exp(-u * u / 2), 0.) / (s * CL * np.sqrt(2 * np.pi))
    return out


def judge(sim, c, plan, w, stored=False):
    rs = np.random.RandomState(plan["pts"])
    bt = [sim.beamtim] + list(sim.sec_beams_list or [])
    bs = [c["beam"]] + c["sec_beams"]
    if len(bt) != len(bs):
        raise Violation("the number of beams is not that of the input", got=len(bt), expected=len(bs))
    t = axis(c)
    states, n, worst = set(), 0, 0.
    ch = None
    for k, (B, b) in enumerate(zip(bt, bs)):
        T = np.asarray(B.t, float)
        if len(T) not in ((len(t),) if not c["beam"]["flag_bunched_beam"] else (len(t) - 1, len(t), len(t) + 1)):
            raise Violation("the time axis has the wrong length", beam=k, got=len(T), expected=len(t))
        m = min(len(T), len(t))
        if not np.allclose(T[:m], t[:m], rtol=1e-10, atol=1e-17):
            raise Violation("the time axis is not that of the input", beam=k)
        want = line(c, b, T)
        tol = 1e-10 * (np.abs(want).max() + (b["fact_beam"] if b["flag_bunched_beam"] else 0.)) + 1e-6 * np.abs(want)
        lam = np.asarray(B.lam_t_array, float)
        if lam.shape != want.shape or not (np.abs(lam - want) <= tol).all():
            j = int(np.argmax(np.abs(lam - want) - tol)) if lam.shape == want.shape else -1
            raise Violation("the line density of a beam is not that of the input", beam=k, time=float(T[j]), got=float(lam[j]), expected=float(want[j]))
        sx, sy = sizes(c, b)
        for nm, got, exp in (("sigmax", B.sigmax, sx), ("sigmay", B.sigmay, sy), ("x_beam_pos", B.x_beam_pos, b.get("x_beam_pos", 0.)), ("y_beam_pos", B.y_beam_pos, b.get("y_beam_pos", 0.)),
                             ("b_spac", B.b_spac, b["b_spac"]), ("beam_charge", B.beam_charge, b["q_part"]), ("N_pass_tot", B.N_pass_tot, np.ceil(T[-1] / b["b_spac"]))):
            if not abs(float(got) - exp) <= 1e-6 * abs(exp):
                raise Violation("a beam does not have the properties of the input", beam=k, which=nm, got=float(got), expected=float(exp))
        x0, y0 = b.get("x_beam_pos", 0.), b.get("y_beam_pos", 0.)
        if ch is None:
            ch = field.Chamber(c)
        be = b["beam_field_file"] == "computeBE"
        h = b["Dh_beam_field"] if not be else None
        # places: all over the chamber, and close to the beam
        M = c["mach"]
        ax, ay = np.abs(ch.c[:, 0]).max(), np.abs(ch.c[:, 1]).max()
        x = np.r_[rs.uniform(-ax, ax, 300), x0 + rs.normal(0, 2 * sx, 60)]
        y = np.r_[rs.uniform(-ay, ay, 300), y0 + rs.normal(0, 2 * sy, 60)]
        xx, yy = np.asarray(B.xx_beam, float), np.asarray(B.yy_beam, float)
        dx, dy = xx[1] - xx[0], yy[1] - yy[0]
        i, j = np.round((x - xx[0]) / dx).astype(int), np.round((y - yy[0]) / dy).astype(int)
        ok = (i >= 0) & (j >= 0) & (i < len(xx)) & (j < len(yy))
        i, j = i[ok], j[ok]
        x, y = xx[i], yy[j]
        ok = geom.inside_by(c, x, y) > (2.5 * h if not be else 3e-4)
        i, j, x, y = i[ok], j[ok], x[ok], y[ok]
        Rx, Ry = ch.field(x, y, x0, y0, sx, sy)
        Gx, Gy = np.asarray(B.Ex_beam)[i, j], np.asarray(B.Ey_beam)[i, j]
        r = np.hypot(x - x0, y - y0)
        s = np.minimum(sx, sy)
        line_ = 1. / (2 * np.pi * field.EPS0 * np.maximum(r, s))
        e = np.hypot(Gx - Rx, Gy - Ry) / line_
        if be:      # the charge on the wall is that of a line charge
            lim = .006 + 1.3 * abs(sx * sx - sy * sy) / min(ax, ay) ** 2 + 0 * r
        else:       # accuracy of the finite differences: smearing of the charge over a cell
            A, q = [p[1:] for p in ((.75, .6, 1.5), (1.15, .4, 2.5), (2.1, .1, 3.), (99, .03, 6.)) if s / h <= p[0]][0]
            lim = .01 + A * np.minimum(1., q * h / np.maximum(r, 1e-9))
        bad = ~(e <= lim)
        if bad.any():
            q = int(np.argmax(np.where(np.isfinite(e), e / lim, 1e9)))
            raise Violation("the electric field of a beam is not that of its charge in the chamber", beam=k, x=float(x[q]), y=float(y[q]), got=[float(Gx[q]), float(Gy[q])],
                            expected=[float(Rx[q]), float(Ry[q])], sigma=[sx, sy], wrong=int(bad.sum()), of=int(bad.size), mode=str(b["beam_field_file"]), stored=stored)
        worst = max(worst, float((e / lim).max()))
        n += len(x)
        states.add("%s|%s|%s|%d|%d|%s|%s" % (M["chamb_type"], "stored" if stored else "BE" if be else "FD", "file" if not b["flag_bunched_beam"] else type(b["filling_pattern_file"]).__name__,
                                             k, int(np.round(2 * np.log2(sx / sy))), x0 != 0 or y0 != 0, b["coast_dens"] > 0))
    return states, n, worst


def walk(sim, c, plan):
    """The densities that act while time steps are taken."""
    bt = [sim.beamtim] + list(sim.sec_beams_list or [])
    bs = [c["beam"]] + c["sec_beams"]
    want = [line(c, b, np.asarray(B.t, float)) for B, b in zip(bt, bs)]
    steps = 0
    while steps < plan["steps"] and drive.step(sim):
        for k, B in enumerate(bt):
            if not abs(B.lam_t_curr - want[k][steps]) <= 1e-6 * abs(want[k][steps]) + 1e-10 * (np.abs(want[k]).max() + bs[k]["fact_beam"]) or abs(B.tt_curr - B.t[steps]) > 1e-9 * B.t[-1]:
                raise Violation("the line density acting during a time step is not that of the beam at that time", beam=k, step=steps, got=float(B.lam_t_curr),
                                expected=float(want[k][steps]), t=float(B.tt_curr))
        steps += 1
    return steps


def _life(emit, plan, root, again):
    c = plan["c"]
    if not again:
        drive.prepare(c, root)
        if "prof.mat" in c["mats"]:
            cfg.write_mat(os.path.join(root, "in", "prof_in.mat"), c["mats"]["prof.mat"])
    with common.mkworld(root, plan["env"]) as w:
        try:
            sim = drive.build(c, root)
        except Exception as e:
            if plan["bad"] and not fell_over(e):
                w.active = False
                return dict(steps=0, states=["refused|" + plan["bad"]], n=0, refused=1, fired=dict(w.fired), tt=0., worst=0.)
            raise
        if plan["bad"]:
            raise Violation("an impossible beam was accepted", kind=plan["bad"])
        st, n, worst = judge(sim, c, plan, w, again)
        steps = walk(sim, c, plan)
        w.active = False
        common.check_escapes(w)
        return dict(steps=steps, states=sorted(st), n=n, refused=0, fired=dict(w.fired), tt=float(sim.beamtim.tt_curr), worst=worst)


def fell_over(e):
    """Did it fall over rather than refuse?"""
    return isinstance(e, (AttributeError, IndexError, KeyError, NameError, TypeError, ZeroDivisionError, UnboundLocalError))


def run(plan, emit):
    import copy
    with proc.Scratch() as top:
        p = copy.deepcopy(plan)
        bs = [p["c"]["beam"]] + p["c"]["sec_beams"]
        sv = [b.pop("save", None) for b in bs]
        q = copy.deepcopy(p)
        for k, b in enumerate(bs):
            if sv[k]:
                b["save_beam_field_file_as"] = "@/map%d.mat" % k
        r = proc.raise_if_bad(proc.incarnation(_life, (p, top, False)), "run")
        if plan.get("again"):
            for k, b in enumerate([q["c"]["beam"]] + q["c"]["sec_beams"]):
                if sv[k]:
                    b["beam_field_file"] = "@/map%d.mat" % k
            cfg.write(q["c"], top)
            r2 = proc.raise_if_bad(proc.incarnation(_life, (q, top, True)), "run with the stored maps")
            for k in ("steps", "n"):
                r[k] += r2[k]
            r["states"] = sorted(set(r["states"]) | set(r2["states"]))
    c = plan["c"]
    return dict(faults=dict(r["fired"], **({"impossible beam": 1} if plan["bad"] else {})), probes={"places compared": r["n"], "refused": r["refused"]}, states=r["states"], sim_time=r["tt"],
                steps=r["steps"], nontrivial=r["n"] >= 40 or r["refused"] > 0,
                sig=[c["mach"]["chamb_type"], plan["bad"], [(b["beam_field_file"], b["flag_bunched_beam"], str(b["filling_pattern_file"])[:2], b.get("sigmax"), b.get("betafx"), b.get("Dx"), b["coast_dens"]) for b in [c["beam"]] + c["sec_beams"]]],
                sample=dict(places=r["n"], refused=plan["bad"], worst=r["worst"]))


def shrink(plan):
    import copy
    if plan["c"]["sec_beams"] and plan["bad"] is None:
        for k in range(len(plan["c"]["sec_beams"])):
            p = copy.deepcopy(plan)
            p["c"]["sec_beams"].pop(k)
            yield p
    if plan.get("again"):
        yield dict(plan, again=False)
