"""A stand-in for the beam-tracking code around PyEC4PyHT: bunches, slices, and the elements under test.

PyHEADTAIL is not part of the repository and not installed; what follows is the part of its interface that PyEC4PyHT.py and
Transverse_Efield_map_for_frozen_cloud.py use, with PyHEADTAIL's semantics: slice 0 is the tail, particle_indices_of_slice(i) is
particle_indices_by_slice[slice_positions[i]:slice_positions[i + 1]], slicings are cached until clean_slices()."""
import os
import sys
import types

import numpy as np

from . import cfg, drive

C = 299792458.
MP = 1.67262192369e-27
QE = 1.602176634e-19


class SimulatedFailure(Exception):
    """Raised by the beam in the middle of a passage."""


class Slicer:
    def __init__(self, n_slices, z_cuts):
        self.n_slices, self.z_cuts = n_slices, z_cuts


class SliceSet:
    def __init__(self, beam, slicer):
        n = self.n_slices = slicer.n_slices
        a, b = slicer.z_cuts
        self.z_bins = a + (b - a) * np.arange(n + 1) / n
        self._beam = beam
        k = np.clip(np.floor((beam.z - a) / (b - a) * n).astype(int), -1, n)
        k[(beam.z < a)] = -1
        k[(beam.z >= b)] = n
        order = np.argsort(k, kind="stable")
        self._by_slice = order[(k[order] >= 0) & (k[order] < n)]
        cnt = np.array([int(np.sum(k == i)) for i in range(n)])
        self.slice_positions = np.concatenate(([0], np.cumsum(cnt)))

    def particle_indices_of_slice(self, i):
        self._beam._tick()
        return self._by_slice[self.slice_positions[i]:self.slice_positions[i + 1]]


class Beam:
    """Macroparticles of a bunch, or of one slice of it."""

    def __init__(self, b):
        u = np.random.RandomState(b["seed"])
        n = b["n"]
        self.x = b["sx"] * u.randn(n) + b.get("ox", 0.)
        self.y = b["sy"] * u.randn(n) + b.get("oy", 0.)
        self.xp, self.yp = 1e-6 * u.randn(n), 1e-6 * u.randn(n)
        self.z = b["sz"] * u.randn(n)
        if b.get("hole") is not None:   # a part of the bunch without particles
            z = np.sort(self.z)
            lo, hi = z[int(.5 * n)], z[min(n - 1, int(.5 * n + b["hole"] * n))]
            keep = (self.z < lo) | (self.z > hi)
            for k in ("x", "y", "xp", "yp", "z"):
                setattr(self, k, getattr(self, k)[keep])
        self.charge, self.mass = b["q"] * QE, MP
        self.gamma = b["gamma"]
        self.beta = np.sqrt(1. - 1. / self.gamma ** 2)
        self.p0 = self.mass * self.beta * self.gamma * C
        self.particlenumber_per_mp = b["inten"] / n
        self.cuts = (-b["ncut"] * b["sz"], b["ncut"] * b["sz"])
        self._slices = {}
        self.fail_at = None
        self._ticks = 0

    @property
    def macroparticlenumber(self):
        return len(self.x)

    def _tick(self):
        self._ticks += 1
        if self.fail_at is not None and self._ticks > self.fail_at:
            raise SimulatedFailure("the tracking code fails here")

    def get_slices(self, slicer):
        if slicer not in self._slices:
            self._slices[slicer] = SliceSet(self, slicer)
        return self._slices[slicer]

    def clean_slices(self):
        self._slices = {}

    def piece(self, ix, zl, zr, **info):
        p = Beam.__new__(Beam)
        p.__dict__.update(self.__dict__)
        for k in ("x", "y", "xp", "yp", "z"):
            setattr(p, k, getattr(self, k)[ix].copy())
        p._slices = {}
        p.slice_info = dict(z_bin_left=zl, z_bin_right=zr, **info)
        return p


def slices_of(beam, slicer, i_bunch=None, i0=0, info=None):
    """The slices of a bunch, head first, as the slice-by-slice mode receives them."""
    s = SliceSet(beam, slicer)
    out = []
    for k, i in enumerate(range(s.n_slices - 1, -1, -1)):
        ix = s._by_slice[s.slice_positions[i]:s.slice_positions[i + 1]]
        d = dict(info or {})
        if i_bunch is not None:
            d.update(info_parent_bunch=dict(i_bunch=i_bunch), i_slice=i0 + k)
        p = beam.piece(ix, s.z_bins[i], s.z_bins[i + 1], **d)
        p.ix = ix
        out.append(p)
    return out


def gap(beam, length, i_bunch, i_slice):
    """A piece of machine without beam, tracked as a non-interacting slice."""
    return beam.piece(np.arange(0), 0., length, interact_with_EC=False, info_parent_bunch=dict(i_bunch=i_bunch), i_slice=i_slice)


def install():
    """Make PyHEADTAIL.particles.slicing importable."""
    if "PyHEADTAIL" in sys.modules:
        return
    m = [types.ModuleType(n) for n in ("PyHEADTAIL", "PyHEADTAIL.particles", "PyHEADTAIL.particles.slicing")]
    m[0].particles, m[1].slicing = m[1], m[2]
    m[2].UniformBinSlicer = Slicer
    for x in m:
        sys.modules[x.__name__] = x


# ---- generation ------------------------------------------------------------------------------------------------

REC = ["save_ele_distributions_last_track", "save_ele_potential_and_field", "save_ele_potential", "save_ele_field", "save_ele_MP_position",
       "save_ele_MP_velocity", "save_ele_MP_size", "save_beam_distributions_last_track", "save_beam_potential_and_field", "save_beam_potential",
       "save_beam_field"]
REC_OUT = {"save_ele_distributions_last_track": ["rho_ele_last_track"], "save_ele_potential": ["phi_ele_last_track"],
           "save_ele_field": ["Ex_ele_last_track", "Ey_ele_last_track"], "save_beam_distributions_last_track": ["rho_beam_last_track"],
           "save_beam_potential": ["phi_beam_last_track"], "save_beam_field": ["Ex_beam_last_track", "Ey_beam_last_track"],
           "save_ele_MP_position": ["x_MP_last_track", "y_MP_last_track"], "save_ele_MP_velocity": ["vx_MP_last_track", "vy_MP_last_track"],
           "save_ele_MP_size": ["nel_MP_last_track"]}


def gen_cfg(r, charging=False):
    """Input folder of an element."""
    while True:
        c = cfg.gen(r, track=r.choice(["Boris", "BorisMultipole", "BorisMultipole"]), clouds=0, sec=False, cross=False, em=False,
                    primaries=r.choice(["none", "none", "none", "gas"]))
        if charging or c["sey"]["switch_model"] != "ECLOUD_nunif_charging":
            break
    S, M = c["sim"], c["mach"]
    S["Dt"] = None
    S["Dt_sc"] = r.choice([None, None, 0.23e-9, 0.077e-9])
    S["Dt_En_hist"] = 2.5e-9
    S["nel_mp_ref_0"] = 2e8 / r.choice([150, 300])
    S["t_sc_ON"] = 0.
    S["PyPICmode"] = r.choice(["FiniteDifferences_ShortleyWeller"] * 6 + ["ShortleyWeller_WithTelescopicGrids", "FiniteDifferences_Staircase", "FFT_OpenBoundary"])
    if S["PyPICmode"] == "FFT_OpenBoundary" and M["chamb_type"] != "rect":
        S["PyPICmode"] = "FiniteDifferences_ShortleyWeller"
    if S["PyPICmode"] == "ShortleyWeller_WithTelescopicGrids":
        S.update(f_telescope=0.4, target_grid=dict(x_min_target=-4e-3, x_max_target=4e-3, y_min_target=-4e-3, y_max_target=4e-3, Dh_target=8e-4),
                 N_nodes_discard=3., N_min_Dh_main=10)
    S["sparse_solver"] = "scipy_slu"
    for k in ("Dh_electric_energy", "el_density_probes", "flag_reinterp_fields_at_substeps"):
        if r.random() < .7:
            S.pop(k, None)
    return c


def gen_elem(r, c=None, mode=None, field_only=False):
    c = c or gen_cfg(r)
    e = dict(c=c, mode=mode or r.choice(["whole", "slice"]), L=r.choice([1., 3.7, 250.]), Dt_ref=r.choice([5e-12, 2e-11, 3.1e-11]), clean=r.random() < .5,
             kick_mode=r.random() < .15, interp=r.random() < .25, kwargs={}, rec=[k for k in REC if r.random() < .35], save=r.random() < .3,
             seed=r.randrange(1 << 30), share=None)
    if r.random() < .3:
        e["kwargs"].update(x_beam_offset=r.choice([1e-3, -2e-3, 0.]), y_beam_offset=r.choice([1e-3, 0.]))
    if r.random() < .15:
        e["kwargs"]["enable_kick_x"] = False
    if r.random() < .15:
        e["kwargs"]["enable_kick_y"] = False
    if r.random() < .3:
        e["kwargs"]["probes_position"] = [dict(x=0., y=0.), dict(x=2e-3, y=-1e-3)][:r.choice([1, 2])]
    if r.random() < .2:
        e["kwargs"]["Nel_init_unif"] = 1.3e8
    return e


def gen_beam(r, hole=True):
    sz = r.choice([0.02, 0.05])
    return dict(seed=r.randrange(1 << 30), n=r.choice([60, 150, 400]), sx=r.choice([3e-4, 1e-3]), sy=r.choice([3e-4, 8e-4]), ox=r.choice([0., 5e-4, -1e-3]),
                oy=r.choice([0., 5e-4]), sz=sz, q=r.choice([1, 1, 1, -1]), gamma=r.choice([27.7, 479.6]), inten=r.choice([1e10, 1.2e11, 4e11]), ncut=r.choice([2., 2.5]),
                n_slices=r.choice([3, 5, 8, 12]), hole=r.choice([None, None, None, .2]) if hole else None)


# ---- running ---------------------------------------------------------------------------------------------------

class Element:
    """An Ecloud with its own stream of random numbers and the scratch folder of its own."""

    def __init__(self, e, root, space_charge=None, twin_of=None):
        self.e, self.root = e, root
        self.mode = e["mode"]
        os.makedirs(root, exist_ok=True)
        cfg.write(e["c"], root)
        self.rng = np.random.RandomState(e["seed"] % (1 << 32)).get_state()
        self.slicer = Slicer(*e["slicer"]) if self.mode == "whole" else None
        self.ec = self.do(lambda: self._make(space_charge, twin_of))
        for k in e["rec"]:
            setattr(self.ec, k, True)
        if e["rec"]:
            self.do(self.ec._reinitialize)

    def _make(self, space_charge, twin_of):
        from PyECLOUD.PyEC4PyHT import Ecloud
        e = self.e
        if twin_of is not None:
            return twin_of.ec.generate_twin_ecloud_with_shared_space_charge()
        folder = os.path.join(self.root, "in") if e["c"]["paths"] == "abs" else "./in"
        return Ecloud(e["L"], self.slicer, e["Dt_ref"], folder, flag_clean_slices=e["clean"] and self.mode == "whole",
                      slice_by_slice_mode=self.mode == "slice", space_charge_obj=space_charge, kick_mode_for_beam_field=e["kick_mode"],
                      save_pyecl_outp_as=(os.path.join(self.root, "out", "pinch") if e["save"] else None),
                      force_interp_at_substeps_interacting_slices=e["interp"], **e["kwargs"])

    def do(self, fn):
        """Call into the element with its own random stream."""
        keep = np.random.get_state()
        cwd = os.getcwd()
        os.chdir(self.root)
        np.random.set_state(self.rng)
        try:
            with np.errstate(all="ignore"):
                return fn()
        finally:
            self.rng = np.random.get_state()
            np.random.set_state(keep)
            os.chdir(cwd)

    def seed(self, s):
        self.rng = np.random.RandomState(s % (1 << 32)).get_state()

    def records(self):
        """What the element recorded and where its cloud is."""
        out = {}
        on = set(self.e["rec"])
        for w in ("ele", "beam"):       # the combined switch turns on both
            if "save_%s_potential_and_field" % w in on:
                on |= {"save_%s_potential" % w, "save_%s_field" % w}
        for flag, names in REC_OUT.items():
            if flag in on or getattr(self.ec, flag):
                for n in names:
                    v = getattr(self.ec, n, None)
                    if v is not None and np.ndim(v) and len(v):
                        cnt = getattr(self.ec, "N_MP_last_track", None) if "_MP_last_track" in n else None
                        for i, a in enumerate(v):    # only living macroparticles
                            out["%s[%d]" % (n, i)] = np.array(a if cnt is None else a[:int(cnt[i])])
                        if cnt is not None:
                            out["N_MP"] = np.array(cnt)
                    out[n + ".len"] = len(v) if v is not None and np.ndim(v) else -1
        if "probes_position" in self.e["kwargs"]:
            out["probe_x"] = np.array(self.ec.Ex_ele_last_track_at_probes)
            out["probe_y"] = np.array(self.ec.Ey_ele_last_track_at_probes)
        return out

    def cloud(self):
        d = drive.mp_state(self.ec.cloudsim.cloud_list[0].MP_e)
        d.pop("t_last_impact", None)
        return d


def plain(d):
    """Hash per entry, so that differences name what differs."""
    return {k: drive._h(np.asarray(v) + 0. if np.asarray(v).dtype.kind == "f" else np.asarray(v)) for k, v in d.items()}


def pinch_files(el, since=()):
    """Contents of the pinch files the element has left (name of the passage's file removed)."""
    import glob
    import scipy.io as sio
    out = {}
    for p in sorted(glob.glob(os.path.join(el.root, "out", "pinch*"))):
        if os.path.basename(p) in since:
            continue
        out[os.path.basename(p)] = {k: np.array(v) for k, v in sio.loadmat(p).items() if not k.startswith("__")}
    return out


class Fail:
    """Failure in the middle of a passage: in the tracking code, in the field solver or when fields are interpolated."""

    def __init__(self, el, beam, spec):
        self.el, self.beam, self.spec = el, beam, spec

    def __enter__(self):
        kind, n = self.spec
        if kind == "slice":
            self.beam.fail_at = n
            return self
        sc = self.el.ec.spacech_ele
        name = {"solve": "recompute_spchg_efield", "kick": "get_sc_eletric_field"}[kind]
        orig = getattr(sc, name)
        cnt = [0]

        def f(*a, **k):
            cnt[0] += 1
            if cnt[0] > n:
                raise MemoryError("simulated failure in " + name)
            return orig(*a, **k)
        setattr(sc, name, f)
        self.undo = lambda: delattr(sc, name)
        return self

    def __exit__(self, *a):
        if self.spec[0] == "slice":
            self.beam.fail_at = None
        else:
            self.undo()
