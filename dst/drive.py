"""Driving one simulation: construction, stepping through the public run(), and digests of what it computed."""
import hashlib
import os

import numpy as np

from . import cfg

MP_ARR = ("x_mp", "y_mp", "z_mp", "vx_mp", "vy_mp", "vz_mp", "nel_mp")


def preload():
    import importlib
    for m in ("buildup_simulation", "init", "MP_system", "pyecloud_saver", "impact_management_class", "beam_and_timing",
              "space_charge_class", "space_charge_class_electromagnetic", "cross_ionization", "gas_ionization_class",
              "gen_photoemission_class", "PyEC4PyHT", "myfilemanager", "myloadmat_to_obj", "cloud_manager",
              "sec_emission_model_furman_pivi", "sec_emission_model_ECLOUD_nunif", "geom_impact_poly_fast_impact",
              "dynamics_Boris_multipole", "dynamics_Boris_f2py", "dynamics_dipole"):
        importlib.import_module("PyECLOUD." + m)
    import PyPIC.FiniteDifferences_ShortleyWeller_SquareGrid  # noqa
    import scipy.io  # noqa


def build(c, root, seed=True, folder=None, **kw):
    """Construct the simulation of configuration c whose input files are under root."""
    from PyECLOUD.buildup_simulation import BuildupSimulation
    os.chdir(root)
    if folder is None:
        folder = os.path.join(root, "in") if c["paths"] == "abs" else "./in"
    if seed:
        np.random.seed(c["seed"] % (1 << 32))
    with np.errstate(all="ignore"):
        return BuildupSimulation(pyecl_input_folder=folder, **kw)


def step(sim):
    """One time step through the public interface; False when the simulation is over."""
    b = sim.beamtim
    if b.end_simulation():
        return False
    ii = b.ii_curr
    with np.errstate(all="ignore"):
        sim.run(t_end_sim=b.t[ii + 1])
    return True


def _h(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, np.ndarray):
            h.update(str(p.dtype).encode() + str(p.shape).encode() + np.ascontiguousarray(p).tobytes())
        else:
            h.update(repr(p).encode())
    return h.hexdigest()[:16]


def mp_state(mp):
    n = int(mp.N_mp)
    d = {k: np.array(getattr(mp, k)[:n]) for k in MP_ARR}
    d["N_mp"] = n
    d["ref"] = float(mp.nel_mp_ref)
    if getattr(mp, "flag_lifetime_hist", False):
        d["t_last_impact"] = np.array(mp.t_last_impact[:n])
    return d


def field_arrays(sim):
    sc = sim.spacech_ele
    out = {}
    for k in ("rho", "phi", "efx", "efy"):
        v = getattr(sc, k, None)
        if isinstance(v, np.ndarray):
            out[k] = v
    return out


def digest(sim, rng=True, fields=True):
    """Digest of everything that determines the future of the simulation."""
    parts = [int(sim.beamtim.ii_curr), repr(sim.beamtim.tt_curr)]
    for cl in sim.cloud_list:
        d = mp_state(cl.MP_e)
        parts += [d[k] for k in sorted(d)]
        if cl.rho is not None:
            parts.append(np.asarray(cl.rho))
    if fields:
        f = field_arrays(sim)
        parts += [f[k] for k in sorted(f)]
    if rng:
        s = np.random.get_state()
        parts += [s[1], s[2], s[3], s[4]]
    return _h(*parts)


def full_state(sim):
    """The same as plain data, for detailed comparisons."""
    d = {"ii": int(sim.beamtim.ii_curr), "tt": float(sim.beamtim.tt_curr), "pass": int(sim.beamtim.pass_numb)}
    for k, cl in enumerate(sim.cloud_list):
        for a, v in mp_state(cl.MP_e).items():
            d["cloud%d.%s" % (k, a)] = v
        if cl.rho is not None:
            d["cloud%d.rho" % k] = np.array(cl.rho)
    for k, v in field_arrays(sim).items():
        d["field." + k] = np.array(v)
    return d


def diff(a, b, rtol=0.0, atol=0.0, skip=()):
    """First difference between two dicts of plain data, or None."""
    ka, kb = set(a) - set(skip), set(b) - set(skip)
    if ka != kb:
        return "keys differ: %s" % sorted(ka ^ kb)[:6]
    for k in sorted(ka):
        va, vb = np.asarray(a[k]), np.asarray(b[k])
        if va.dtype.kind in "OUS" or vb.dtype.kind in "OUS":
            if repr(a[k]) != repr(b[k]):
                return "%s differs" % k
            continue
        if va.shape != vb.shape:
            return "%s: shape %s != %s" % (k, va.shape, vb.shape)
        same = (va == vb) | (np.isnan(va) & np.isnan(vb)) if va.dtype.kind == "f" and vb.dtype.kind == "f" else va == vb
        if rtol or atol:
            same = same | np.isclose(va, vb, rtol=rtol, atol=atol)
        if not np.all(same):
            i = tuple(int(q[0]) for q in np.where(~np.atleast_1d(same))) if np.ndim(same) else ()
            return "%s differs at %s: %r != %r (%d of %d entries)" % (
                k, i, np.atleast_1d(va)[i or 0], np.atleast_1d(vb)[i or 0], int(np.sum(~same)), va.size)
    return None


def load_mat(path):
    import scipy.io as sio
    d = sio.loadmat(path)
    return {k: np.array(v) for k, v in d.items() if not k.startswith("__")}


def outputs(c):
    """Paths (relative to the scratch root) of the main output files."""
    name = c["sim"]["filen_main_outp"][2:]
    if c["sim"].get("cloud_name") is None:
        return [name]
    return [name[:-4] + "_%s.mat" % k for k in [c["sim"]["cloud_name"]] + [cl["_name"] for cl in c["clouds"]]]


def tree(root, sub="."):
    """Content hashes of all files below root/sub."""
    out = {}
    top = os.path.join(root, sub)
    for d, ds, fs in os.walk(top):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            with open(p, "rb") as fid:
                out[os.path.relpath(p, root)] = hashlib.sha256(fid.read()).hexdigest()[:16]
    return out


def prepare(c, root):
    """Write inputs and make the scratch folder the current one."""
    cfg.write(c, root)
    os.chdir(root)
