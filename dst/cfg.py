"""Seeded generator of small but complete simulation set-ups, and their rendering to input files.

A configuration is a JSON-able dict.  Strings starting with '@/' are paths in the scratch folder; they are rendered
absolute or relative to the current folder, as the configuration says."""
import os

import numpy as np

QE = 1.602176634e-19
ME = 9.1093837015e-31
FP_SURFACE = """dict(use_modified_sigmaE=False, use_ECLOUD_theta0_dependence=False, use_ECLOUD_energy=False, conserve_energy=%s,
exclude_rediffused=False, choice=%r, M_cut=10, p_n=__import__('numpy').array([2.5, 3.3, 2.5, 2.5, 2.8, 1.3, 1.5, 1.5, 1.5, 1.5]),
eps_n=__import__('numpy').array([1.5, 1.75, 1., 3.75, 8.5, 11.5, 2.5, 3., 2.5, 3.]), p1EInf=0.02, p1Ehat=0.496, eEHat=0., w=60.86, p=1.,
e1=0.26, e2=2., sigmaE=2., theta_e_max=1.57, p1RInf=0.2, eR=0.041, r=0.104, q=0.5, r1=0.26, r2=2., theta_r_max=1.57,
deltaTSHat=1.6, eHat0=276.8, s=1.54, t1=0.66, t2=0.8, t3=0.7, t4=1.)"""


class Raw(str):
    """Rendered without quotes."""


def base():
    sim = dict(machine_param_file="machine_parameters.input",
               secondary_emission_parameters_file="secondary_emission_parameters.input",
               beam_parameters_file="beam.beam", logfile_path=None, progress_path=None, stopfile="@/stop",
               Dt=5e-11, t_end=0.3e-9, lam_th=1e2, Dx_hist=1e-3, r_center=2e-3, Dt_En_hist=2.5e-9, Nbin_En_hist=25,
               En_hist_max=2000., t_ion=100., N_mp_max=50000, N_mp_regen=2500, N_mp_regen_low=20, N_mp_after_regen=500,
               t_ON_regen_low=10., fact_split=1.5, fact_clean=1e-6, regen_hist_cut=1e-4, N_mp_soft_regen=1200,
               N_mp_after_soft_regen=400, nel_mp_ref_0=2e8 / 300, Nx_regen=21, Ny_regen=21, Nvx_regen=21, Nvy_regen=21,
               Nvz_regen=21, Dt_sc=0.2e-9, Dh_sc=2e-3, t_sc_ON=0., extract_sey=False, filen_main_outp="@/out/Pyecltest.mat")
    mach = dict(chamb_type="rect", x_aper=2.3e-2, y_aper=1.8e-2, track_method="StrongBdip", B=0.5355, betafx=85., betafy=90.,
                init_unif_flag=1, Nel_init_unif=2e8, E_init_unif=.01, x_max_init_unif=2.2e-2, x_min_init_unif=-2.2e-2,
                y_max_init_unif=1.7e-2, y_min_init_unif=-1.7e-2)
    beam = dict(energy_eV=450e9, nemittx=2.5e-6, nemitty=2.5e-6, Dp_p=0., beam_field_file="computeFD", Dh_beam_field=1e-3,
                Nx=None, Ny=None, nimag=None, b_spac=2.5e-9, fact_beam=2.5e11, coast_dens=0., flag_bunched_beam=1,
                sigmaz=0.3e-9 / 4 * 299792458., t_offs=0.6e-9, filling_pattern_file=[1., 1., 1., 0.], beam_long_prof_file=-1)
    sey = dict(Emax=332., del_max=1.9, R0=.7, switch_model=0, E_th=35., sigmafit=1.0828, mufit=1.6636,
               switch_no_increase_energy=0, thresh_low_energy=-1, scrub_en_th=20., secondary_angle_distribution="cosine_3D")
    return dict(sim=sim, mach=mach, beam=beam, sey=sey, sec_beams=[], clouds=[], mats={}, seed=1, paths="abs", observables={})


def timeline(c):
    """(time axis, bunch spacing, number of passes) the configuration asks for."""
    b, s = c["beam"], c["sim"]
    if b["flag_bunched_beam"]:
        n = len(b["filling_pattern_file"])
        t = np.arange(0., n * b["b_spac"] + s["t_end"] + 2 * s["Dt"], s["Dt"])
    else:
        t = np.array(profile_axis(c["mats"][b["beam_long_prof_file"][2:]]))
    return t, b["b_spac"], int(np.ceil(t[-1] / b["b_spac"]))


def profile_axis(m):
    """Longitudinal profile given as a file: piecewise time steps."""
    t = [0.]
    for n, dt in m["steps"]:
        for _ in range(n):
            t.append(t[-1] + dt)
    return t


def _pick(r, *a):
    return a[r.randrange(len(a))]


def gen(r, chamb=None, track=None, sey=None, clouds=None, sec=None, steps=None, primaries=None, cross=None, em=None,
        regen=None, lifetime=None, nonunif_t=0.0, dec=None, seg_hist=None, small=False):
    """A random set-up.  Every argument left None is drawn; feature mixes are swarm style (each run enables a subset)."""
    c = base()
    c["seed"] = r.randrange(1 << 30)
    c["paths"] = _pick(r, "abs", "abs", "rel")
    S, M, B, Y = c["sim"], c["mach"], c["beam"], c["sey"]
    chamb = chamb or _pick(r, "rect", "rect", "polyg", "ellip")
    em = (r.random() < 0.06) if em is None else em
    clouds = (_pick(r, 0, 0, 0, 0, 1, 2)) if clouds is None else clouds
    cross = (r.random() < 0.08) if cross is None else cross
    sec = (r.random() < 0.12) if sec is None else sec
    track = track or _pick(r, "StrongBdip", "Boris", "BorisMultipole", "BorisMultipole")
    if clouds or em or cross:
        track = "BorisMultipole" if em else _pick(r, "Boris", "BorisMultipole")

    # ---- timeline
    S["Dt"] = _pick(r, 5e-11, 5e-11, 1e-10)
    nb = _pick(r, 3, 4, 5, 6) if not small else _pick(r, 2, 3)
    bs = _pick(r, 1e-9, 2.5e-9, 2.5e-9, 3.3e-9, 5e-9) if not small else _pick(r, 1e-9, 2.5e-9)
    B["b_spac"] = bs
    B["filling_pattern_file"] = [_pick(r, 1., 1., 1., 0.) for _ in range(nb)]
    B["filling_pattern_file"][0] = 1.
    B["t_offs"] = min(0.6e-9, bs / 2)
    S["t_end"] = _pick(r, 0.2e-9, 0.5e-9, bs)
    S["Dt_sc"] = _pick(r, 0.2e-9, 0.2e-9, 0.5e-9, 1e-10)
    S["Dt_En_hist"] = _pick(r, bs, bs, 0.4 * bs, 1.7 * bs)
    S["dec_fact_out"] = _pick(r, 1, 1, 2, 5) if dec is None else dec
    if r.random() < 0.1:
        S["t_sc_ON"] = 0.4 * bs
    if B["flag_bunched_beam"] and nonunif_t and r.random() < nonunif_t and track != "StrongBdip" and not sec:
        c["mats"]["prof.mat"] = dict(kind="profile", steps=[[_pick(r, 20, 40), S["Dt"]], [10, _pick(r, S["Dt"] / 2, 2 * S["Dt"])],
                                                             [_pick(r, 20, 40), S["Dt"]]] * _pick(r, 1, 2), lam=1.5e12, period=bs)
        if r.random() < .35:    # an abort gap covered by one step
            c["mats"]["prof.mat"]["steps"].insert(_pick(r, 1, 2, 3), [_pick(r, 1, 1, 2), bs * _pick(r, 0.7, 1.6, 2.3)])
        B.update(flag_bunched_beam=0, beam_long_prof_file="@/prof.mat", fact_beam=1., filling_pattern_file=-1, sigmaz=-1)

    # ---- chamber
    M["chamb_type"] = chamb
    sey_model = sey or _pick(r, 0, "ECLOUD", "ACC_LOW", "cos_low_ene", "flat_low_ene", "from_file", "furman_pivi",
                             "perfect_absorber", "ECLOUD_nunif", "ECLOUD_nunif_charging")
    if sey_model in ("ECLOUD_nunif", "ECLOUD_nunif_charging"):
        M["chamb_type"] = chamb = "polyg"
        clouds = 0 if sey is None else clouds
    if chamb == "ellip":
        M.update(x_aper=2.2e-2, y_aper=1.8e-2, x_max_init_unif=1.5e-2, x_min_init_unif=-1.5e-2, y_max_init_unif=1e-2, y_min_init_unif=-1e-2)
    if chamb == "polyg":
        n = _pick(r, 4, 6, 8, 13)
        M.update(filename_chm="@/chm.mat", flag_assume_convex=r.random() < 0.7)
        c["mats"]["chm.mat"] = dict(kind="chamber", n=n, rx=2.3e-2, ry=1.9e-2, rot=r.random(), nun=sey_model in ("ECLOUD_nunif", "ECLOUD_nunif_charging"),
                                    notch=(not M["flag_assume_convex"]) and n > 5 and r.random() < 0.5, useed=r.randrange(1 << 20))
        M.update(x_max_init_unif=1.2e-2, x_min_init_unif=-1.2e-2, y_max_init_unif=1e-2, y_min_init_unif=-1e-2)
        M.pop("x_aper"), M.pop("y_aper")
    S["Dh_sc"] = _pick(r, 2e-3, 1.5e-3)

    # ---- tracking
    M["track_method"] = track
    if track == "BorisMultipole":
        M.update(B_multip=_pick(r, [0.], [0.53], [0., 12.], [0.01, 5., 200.]), N_sub_steps=_pick(r, 1, 2, 5))
        M.pop("B")
        if r.random() < 0.3:
            M["B_skew"] = [0.02] + [0.] * (len(M["B_multip"]) - 1)
    elif track == "Boris":
        M.update(B0x=0., B0y=_pick(r, 0., 0.1, 0.53), B0z=_pick(r, 0., 0.01), N_sub_steps=_pick(r, 1, 3, 5))
        M.pop("B")
    if em:
        S["flag_em_tracking"] = True
    if track != "StrongBdip" and r.random() < 0.1:
        S["flag_reinterp_fields_at_substeps"] = True

    # ---- surface
    Y["switch_model"] = sey_model
    Y["secondary_angle_distribution"] = _pick(r, "cosine_3D", "cosine_3D", "cosine_2D")
    Y["del_max"] = _pick(r, 1.3, 1.7, 1.9, 2.4)
    if r.random() < 0.2:
        Y.update(switch_no_increase_energy=2, thresh_low_energy=1.)
    if sey_model == "from_file":
        Y["sey_file"] = "@/sey.mat"
        c["mats"]["sey.mat"] = dict(kind="sey", dmax=Y["del_max"])
    if sey_model == "furman_pivi":
        Y["furman_pivi_surface"] = Raw(FP_SURFACE % (False, _pick(r, "poisson", "binomial")))
    if sey_model in (0, "ECLOUD") and r.random() < 0.2:
        Y.update(E0=160., s_param=1.4)

    # ---- macroparticle bookkeeping
    regen = regen or _pick(r, "none", "soft", "soft", "hard", "async")
    S["N_mp_regen"], S["N_mp_soft_regen"], S["N_mp_after_soft_regen"] = 100000, None, None
    if regen == "soft":
        S.update(N_mp_soft_regen=_pick(r, 200, 400, 800), N_mp_after_soft_regen=_pick(r, 100, 150))
    elif regen == "hard":
        S.update(N_mp_regen=_pick(r, 250, 500), N_mp_after_regen=_pick(r, 150, 220))
    elif regen == "async":
        S.update(N_mp_async_regen=_pick(r, 250, 350, 600), N_mp_after_async_regen=_pick(r, 120, 200))
    if regen == "none":
        Y["del_max"] = min(Y["del_max"], 1.6)
    S["fact_clean"] = _pick(r, 1e-6, 1e-4, 0.3)
    S["nel_mp_ref_0"] = 2e8 / _pick(r, 150, 300)
    if r.random() < 0.3:
        S["N_mp_regen_low"] = 120
    lifetime = (r.random() < 0.3) if lifetime is None else lifetime
    if lifetime:
        S.update(flag_lifetime_hist=True, Nbin_lifetime_hist=20, lifetime_hist_max=2 * bs, Dt_lifetime_hist=_pick(r, bs, 0.6 * bs, 1.5 * bs))
    if seg_hist is None:
        S["flag_hist_impact_seg"] = _pick(r, 1, 1, 0)
    else:
        S["flag_hist_impact_seg"] = int(seg_hist)
    if S["flag_hist_impact_seg"] and chamb == "polyg" and r.random() < 0.5:
        S["flag_En_hist_seg"] = True
    if r.random() < 0.4:
        S["flag_detailed_MP_info"] = 1
    if r.random() < 0.3:
        S["flag_cos_angle_hist"] = True
        S["cos_angle_width"] = _pick(r, 0.05, 0.1)

    # ---- primaries
    prim = primaries if primaries is not None else _pick(r, "none", "none", "gas", "photo", "both")
    if prim in ("gas", "both"):
        M.update(gas_ion_flag=1, P_nTorr=_pick(r, 50., 3e5), sigma_ion_MBarn=2., Temp_K=300., unif_frac=_pick(r, 0., 0.1, 1.), E_init_ion=0.1)
    if prim in ("photo", "both"):
        M.update(photoem_flag=1, inv_CDF_refl_photoem_file="unif_no_file", k_pe_st=_pick(r, 1e-4, 2e-3), refl_frac=_pick(r, 0., 0.2, 1.),
                 alimit=0.2, e_pe_sigma=5., e_pe_max=7., x0_refl=0.01, y0_refl=0., out_radius=0.0305, phem_resc_fac=0.99,
                 photoelectron_angle_distribution="cosine_3D")
        if r.random() < 0.3:
            M["flag_continuous_emission"] = True
        if r.random() < 0.3:
            M.update(photoem_flag=2, inv_CDF_all_photoem_file="unif_no_file")
    # ---- second beam
    if sec:
        b2 = dict(B)
        b2.update(x_beam_pos=4e-3, t_offs=B["t_offs"] + 0.3 * bs, fact_beam=1.5e11, beam_field_file="computeFD")
        c["sec_beams"].append(b2)
        S["dec_fac_secbeam_prof"] = _pick(r, 1, 3)
    # ---- more species
    if cross:
        clouds = max(1, min(clouds, 1))
    if clouds:
        S["cloud_name"] = "electron"
        for k in range(clouds):
            ion = cross or (k == 1 and r.random() < 0.5)
            cl = dict(_name="ion%d" % k if ion else "el%d" % k, cloud_mass=28 * 1.66053906660e-27 if ion else ME,
                      cloud_charge=QE if ion else -QE, gas_ion_flag=0, photoem_flag=0, init_unif_flag=1, init_unif_edens_flag=0,
                      Nel_init_unif=_pick(r, 5e7, 1e8), E_init_unif=0.01,
                      switch_model="perfect_absorber" if ion else (0 if sey_model in ("ECLOUD_nunif", "ECLOUD_nunif_charging") else sey_model),
                      logfile_path=None, progress_path=None)
            if r.random() < 0.3:
                cl["del_max"] = 1.4
            c["clouds"].append(cl)
    if cross:
        c["mats"]["xs.mat"] = dict(kind="xsection", log=r.random() < 0.5)
        S["cross_ion_definitions"] = {"electron": {"proc": dict(products=_pick(r, ["ion0"], ["electron", "ion0"]), cross_section="@/xs.mat",
                                                                target_density=_pick(r, 1e18, 3e19), E_eV_init=0.02, extract_sigma=False,
                                                                generate_equally=r.random() < 0.5)}}
    # ---- output variants
    if r.random() < 0.3:
        S["el_density_probes"] = [dict(x=0., y=0., r_obs=5e-3), dict(x=5e-3, y=2e-3, r_obs=4e-3)][:_pick(r, 1, 2)]
    if r.random() < 0.2:
        S.update(x_min_hist_det=-1e-2, x_max_hist_det=1e-2, y_min_hist_det=-1e-2, y_max_hist_det=8e-3, Dx_hist_det=1e-3)
    if r.random() < 0.15 and not em:
        S["Dh_electric_energy"] = 2e-3
    return c


def lengthen(r, c):
    """More recorded samples than the recorder has room for at the start (its buffers have to grow, once or twice)."""
    if not c["beam"]["flag_bunched_beam"]:
        return False
    S = c["sim"]
    b = c["beam"]
    T = len(b["filling_pattern_file"]) * b["b_spac"] + S["t_end"]
    n = _pick(r, 1050, 1150, 1150, 2100)
    S["Dt"] = round(T / n, 15)
    S["dec_fact_out"] = 1
    S["nel_mp_ref_0"] = 2e8 / 60
    S["Dt_sc"] = T / 30
    S["el_density_probes"] = [dict(x=0., y=0., r_obs=6e-3), dict(x=5e-3, y=2e-3, r_obs=7e-3), dict(x=-5e-3, y=0., r_obs=7e-3)][:_pick(r, 1, 2, 3)]
    if "N_sub_steps" in c["mach"]:
        c["mach"]["N_sub_steps"] = 1
    for k in list(S):
        if k in ("flag_movie", "flag_sc_movie"):
            del S[k]
    return True


# ---- rendering -------------------------------------------------------------------------------------------------

def chamber_mat(m):
    n = m["n"]
    a = 2 * np.pi * (np.arange(n) + 0.25 + 0.5 * m["rot"]) / n
    x, y = m["rx"] * np.cos(a), m["ry"] * np.sin(a)
    if m.get("notch"):
        x[1] *= 0.8
        y[1] *= 0.8
    # ellipse inscribed: half the distance of the closest edge is safe
    d = min(np.hypot((x + np.roll(x, -1)) / 2, (y + np.roll(y, -1)) / 2).min(), np.hypot(x, y).min())
    k = 0.5 * d
    out = dict(Vx=x, Vy=y, x_sem_ellip_insc=k, y_sem_ellip_insc=0.9 * k)
    if m.get("nun"):
        u = np.random.RandomState(m["useed"])
        out["del_max_segments"] = np.where(u.rand(n) < .3, -1., 1.2 + u.rand(n))
        out["R0_segments"] = np.where(u.rand(n) < .5, -1., 0.7 * np.ones(n))
        out["Emax_segments"] = np.where(u.rand(n) < .5, -1., 300. * np.ones(n))
        out["flag_charging"] = (u.rand(n) < .6).astype(int)
        out["Q_max_segments"] = 1e-9 * (0.5 + u.rand(n)) * m.get("qscale", 1.)
        out["EQ_segments"] = m.get("eq", 15.) * np.ones(n)
        out["tau_segments"] = np.where(u.rand(n) < .5, -1., m.get("tau", 3e-9))
        if "eq" in m:       # a surface with different materials
            out["EQ_segments"] *= 0.5 + u.rand(n)
            out["tau_segments"] = np.where(out["tau_segments"] > 0, out["tau_segments"] * (0.5 + u.rand(n)), -1.)
    return out


def write_mat(path, m):
    import scipy.io as sio
    k = m["kind"]
    if k == "chamber":
        d = chamber_mat(m)
    elif k == "profile":
        t = np.array(profile_axis(m))
        ph = np.mod(t, m["period"]) - 0.4 * m["period"]
        d = dict(t=t, lam_t_array=m["lam"] * np.exp(-ph ** 2 / (2 * (0.1 * m["period"]) ** 2)))
    elif k == "sey":
        e = np.arange(0., 1500., 5.)
        xx = np.maximum(e, 1e-9) / 332.
        d = dict(energy_eV=e, sey_true=m["dmax"] * 1.35 * xx / (0.35 + xx ** 1.35), sey_elast=0.7 * np.exp(-e / 60.),
                 extrapolate_grad_true=0., extrapolate_const_true=0.3, extrapolate_grad_elast=0., extrapolate_const_elast=0.)
    elif k == "xsection":
        e = np.logspace(1, 4.2, 200) if m["log"] else np.arange(10., 10000., 10.)
        d = dict(energy_eV=e, cross_section_cm2=m.get("scale", 1.) * 2.5e-16 * np.exp(-(np.log10(e) - 2.) ** 2))
    elif k == "raw":
        d = {a: np.array(b) for a, b in m["data"].items()}
    sio.savemat(path, d, oned_as="row")


def _render(v, root):
    if isinstance(v, Raw) or (isinstance(v, str) and v.startswith("dict(")):
        return str(v)
    return repr(_paths(v, root))


def _paths(v, root):
    if isinstance(v, str) and v.startswith("@/"):
        return root + v[1:]
    if isinstance(v, dict):
        return {k: _paths(x, root) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [_paths(x, root) for x in v]
    return v


def write(c, root):
    """Write the input files; returns the input folder to pass to the simulation."""
    pre = root if c["paths"] == "abs" else "."
    inp = os.path.join(root, "in")
    os.makedirs(inp, exist_ok=True)
    os.makedirs(os.path.join(root, "out"), exist_ok=True)
    sim = dict(c["sim"])
    if c["sec_beams"]:
        sim["secondary_beams_file_list"] = ["beam%d.beam" % (k + 2) for k in range(len(c["sec_beams"]))]
    if c["clouds"]:
        sim["additional_clouds_file_list"] = [cl["_name"] + ".cloud" for cl in c["clouds"]]
    files = [("simulation_parameters.input", sim), ("machine_parameters.input", c["mach"]), ("beam.beam", c["beam"]),
             ("secondary_emission_parameters.input", c["sey"])]
    files += [("beam%d.beam" % (k + 2), b) for k, b in enumerate(c["sec_beams"])]
    files += [(b["_name"] + ".cloud", b) for b in c["clouds"]]
    for name, d in files:
        with open(os.path.join(inp, name), "w") as f:
            for k, v in d.items():
                if k == "_name":
                    continue
                f.write("%s = %s\n" % (k, _render(v, pre)))
            if name.startswith("simulation"):
                for k, expr in c.get("observables", {}).items():
                    f.write("%s = %s\n" % (k, expr))
    for name, m in c["mats"].items():
        write_mat(os.path.join(root, name), m)
    return inp if c["paths"] == "abs" else "./in"
