"""What the property modules share."""
import os

import numpy as np

from . import cfg, drive, proc, world
from .proc import Violation

REAL = ["BuildupSimulation and everything it constructs (input parsing, chamber, SEY, impact management, dynamics, PIC, savers)",
        "compiled Fortran/C kernels of PyECLOUD and PyPIC", "h5py/scipy.io/pickle/shutil on a tmpfs scratch folder"]
STUB = ["the clock, directory order, disk faults, subprocess (git) and the random number seams are simulated"]
ASSUME = ["numerical kernels (PIC solve, Boris pusher, SEY curves) are taken as they are: both sides of a comparison run them",
          "only the Python-level I/O entry points are simulated; the kernel page cache below them is modelled, not exercised"]


def gen_env(r):
    """A random environment: nothing in it may influence a simulation."""
    return dict(clock=dict(t0=r.choice([0., 1e9, 1.6e9, 4e9]), tick=r.choice([0., 1e-3, 1., 1e4]),
                           jumps=[[r.randrange(1, 60), r.choice([-1e6, -5., 5., 1e6])] for _ in range(r.randrange(3))]),
                listdir_seed=r.randrange(1 << 30), git=r.choice(["ok", "missing", "fail", "empty"]),
                bufsize=r.choice([None, 1, 64, 4096]))


def mkworld(root, env=None, **kw):
    e = env or {}
    return world.World(root, clock=e.get("clock"), listdir_seed=e.get("listdir_seed"), git=e.get("git", "ok"),
                       bufsize=e.get("bufsize"), **kw)


def outputs(c, root):
    out = {}
    for f in drive.outputs(c):
        p = os.path.join(root, f)
        if os.path.exists(p):
            for k, v in drive.load_mat(p).items():
                out[f + ":" + k] = v
    return out


def rename_out(k):
    return k


def check_escapes(w):
    if w.escapes:
        raise Violation("wrote outside the folders of the simulation", paths=sorted(set(w.escapes))[:3])


def state_bins(sim):
    """Coarse abstract state reached: which species have how many macroparticles, where in the pass, field on/off."""
    s = [int(sim.beamtim.pass_numb)]
    for cl in sim.cloud_list:
        s.append(int(np.log2(cl.MP_e.N_mp + 1)))
    return tuple(s)


def feature_sig(c):
    s, m = c["sim"], c["mach"]
    return [m["chamb_type"], m["track_method"], str(c["sey"]["switch_model"]), len(c["clouds"]), len(c["sec_beams"]),
            bool(s.get("flag_em_tracking")), bool(s.get("cross_ion_definitions")), c["beam"]["flag_bunched_beam"],
            m.get("gas_ion_flag", 0), m.get("photoem_flag", 0)]


def shrink_cfg(c):
    """Simpler variants of a configuration, most aggressive first."""
    import copy

    def v(fn):
        d = copy.deepcopy(c)
        try:
            if fn(d) is False:
                return None
        except KeyError:
            return None
        return None if d == c else d
    S = c["sim"]

    def dropsim(*ks):
        def f(d):
            for k in ks:
                d["sim"].pop(k, None)
        return f

    def setsim(**kw):
        return lambda d: d["sim"].update(kw)

    def nocross(d):
        d["sim"].pop("cross_ion_definitions", None)
        d["mats"].pop("xs.mat", None)

    def noclouds(d):
        if d["sim"].get("cross_ion_definitions"):
            return False
        d["clouds"] = []
        d["sim"].pop("cloud_name", None)

    def nosec(d):
        d["sec_beams"] = []
        d["sim"].pop("dec_fac_secbeam_prof", None)

    def noprim(d):
        d["mach"]["gas_ion_flag"] = 0
        d["mach"]["photoem_flag"] = 0

    def simplesey(d):
        if d["sey"]["switch_model"] in (0,):
            return False
        d["sey"]["switch_model"] = 0
        d["sey"].pop("furman_pivi_surface", None)

    def shorter(d):
        fp = d["beam"]["filling_pattern_file"]
        if not isinstance(fp, list) or len(fp) < 2:
            return False
        d["beam"]["filling_pattern_file"] = fp[:-1]
    out = [v(nocross), v(noclouds), v(nosec), v(noprim), v(simplesey), v(shorter),
           v(dropsim("el_density_probes")), v(dropsim("x_min_hist_det", "x_max_hist_det", "y_min_hist_det", "y_max_hist_det", "Dx_hist_det")),
           v(dropsim("Dh_electric_energy")), v(dropsim("flag_cos_angle_hist", "cos_angle_width")),
           v(dropsim("flag_detailed_MP_info")), v(dropsim("flag_lifetime_hist", "Nbin_lifetime_hist", "lifetime_hist_max", "Dt_lifetime_hist")),
           v(dropsim("flag_En_hist_seg")), v(setsim(dec_fact_out=1)), v(dropsim("flag_reinterp_fields_at_substeps")),
           v(setsim(N_mp_regen=100000, N_mp_soft_regen=None, N_mp_after_soft_regen=None, N_mp_async_regen=None, N_mp_after_async_regen=None)),
           v(lambda d: d.update(paths="abs"))]
    return [x for x in out if x is not None]


def shrink_key(plan, key="c"):
    for c in shrink_cfg(plan[key]):
        p = dict(plan)
        p[key] = c
        yield p


def shrink_list(plan, key):
    l = plan[key]
    n = len(l)
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            p = dict(plan)
            p[key] = l[:i] + l[i + k:]
            yield p
        k //= 2
