"""C23: a beam and an electron cloud act on each other, slice by slice."""
import copy
import os
import types

import numpy as np

from .. import common, drive, proc, pyht, shadow
from ..proc import Violation
from . import c12, c15

LEVEL = "exploration"
TIERS = {"quick": dict(runs=500, cap=60, shrink=60), "thorough": dict(runs=8000, cap=1200, shrink=180)}
RULE = ("a run draws an element and 1-3 passages (bunches with holes, trains with gaps and non-interacting bunches, whole or slice by slice, alone or with a second element using "
        "the same field solver in between); at every step of the cloud its initial state, its motion in the fields of the slice and of the cloud, the field refreshed from its "
        "density, the kick of every particle and everything recorded are compared with a reference model (own deposit, second solver, private tracker); non-trivial when at "
        "least 2 interacting slices with particles and a non-zero kick were compared; distinct by element features and passages")
STATES = "distinct (element features, slice empty or not, interacting or not, sub-step of the slice, macroparticles on a log scale) reached"
REAL = c15.REAL
STUB = c15.STUB
ASSUMPTIONS = ["the Poisson solver, the gather of PyPIC and the trackers are taken as they are (second instances of them compute the expected values)",
               "without telescopic grids", "the refresh of the field inside a slice that does not interact may or may not be due (its schedule is that of C17)"]


def gen(r, tier):
    p = c15.gen(r, tier)
    e = p["e"]
    if e["c"]["sim"]["PyPICmode"] == "ShortleyWeller_WithTelescopicGrids":
        e["c"]["sim"]["PyPICmode"] = "FiniteDifferences_ShortleyWeller"
        for k in ("f_telescope", "target_grid", "N_nodes_discard", "N_min_Dh_main"):
            e["c"]["sim"].pop(k, None)
    e["save"] = False
    if r.random() < .5:
        e["rec"] = [k for k in pyht.REC if r.random() < .7]
    if r.random() < .4:
        e["kwargs"].update(x_beam_offset=r.choice([1e-3, -2e-3]), y_beam_offset=r.choice([1e-3, -5e-4]))
    if r.random() < .5:
        e["c"]["mach"]["Nel_init_unif"] = 2e9       # a cloud that feels itself
        e["c"]["sim"]["nel_mp_ref_0"] = 2e9 / r.choice([150, 300])
        e["kwargs"].pop("Nel_init_unif", None)
    p["passages"] = p["passages"][:r.choice([1, 2, 2, 3])]
    for q in p["passages"]:
        q["fail"] = None
        q["stale"] = r.random() < .5
        q["mute"] = [r.random() < .15 for _ in q["beams"]]      # bunches that do not interact
    p["other"] = r.random() < .3
    return p


class Model:
    def __init__(self, el):
        from PyECLOUD.space_charge_class import space_charge
        self.el, self.e = el, el.e
        ec = el.ec
        S = el.e["c"]["sim"]
        sim = ec.cloudsim
        sc = ec.spacech_ele

        def mk():
            return space_charge(copy.deepcopy(sim.chamb), S["Dh_sc"], Dt_sc=S["Dt_sc"], PyPICmode=S["PyPICmode"], sparse_solver="scipy_slu")
        self.twin, self.beam = mk(), mk()
        self.dyn = copy.deepcopy(sim.cloud_list[0].dynamics)
        mp = sim.cloud_list[0].MP_e
        self.q, self.m = float(mp.charge), float(mp.mass)
        self.reinterp = bool(S.get("flag_reinterp_fields_at_substeps"))
        self.init = shadow.take(mp)
        kw = el.e["kwargs"]
        self.off = kw.get("x_beam_offset", 0.), kw.get("y_beam_offset", 0.)
        self.on = kw.get("enable_kick_x", True), kw.get("enable_kick_y", True)
        self.probes = kw.get("probes_position")
        self.sc = sc
        self.states = set()
        self.compared = self.kicked = self.steps = 0
        c = el.e["c"]
        self.fs = [c["mach"]["track_method"], str(c["sey"]["switch_model"]), el.e["mode"], S["PyPICmode"][:12], el.e["kick_mode"], el.e["interp"]]

    def fail(self, what, **k):
        raise Violation(what, passage=self.passage, slice_step=self.k, mode=self.e["mode"], **k)

    def start(self, passage, queue):
        self.passage, self.queue, self.k, self.first, self.during = passage, queue, 0, True, None
        self.zero(self.twin.PyPICobj)
        self.rec = {n: [] for n in ("rho", "phi", "efx", "efy", "brho", "bphi", "bx", "by", "x", "y", "vx", "vy", "nel", "N", "px", "py")}
        self.kx = [None] * len(queue)

    @staticmethod
    def zero(p):
        for k in ("rho", "phi", "efx", "efy"):
            setattr(p, k, np.zeros_like(np.asarray(getattr(p, k), float)))

    def solve(self, sc, rho):
        sc.PyPICobj.rho = rho
        sc.PyPICobj.solve()

    def fields(self):
        return {k: np.array(getattr(self.sc, k)) for k in ("rho", "phi", "efx", "efy")}

    def moved(self, i, b, a):
        if self.k >= len(self.queue):
            self.fail("the cloud was moved more often than there are slices", slices=len(self.queue))
        s = self.queue[self.k]
        if self.first:
            k = drive.diff({x: self.init[x] for x in shadow.ARR}, {x: b[x] for x in shadow.ARR})
            if k:
                self.fail("the passage does not start from the initial cloud of the element", differs=str(k)[:80])
            self.first = False
        # field of the slice
        n = len(s["x"]) if s["inter"] else 0
        if n:
            d = dict(N=n, x_mp=s["x"] + self.off[0], y_mp=s["y"] + self.off[1])
            o = self.outside(d)
            self.solve(self.beam, c12.deposit(self.beam, dict(N=len(d["x_mp"][~o]), x_mp=d["x_mp"][~o], y_mp=d["y_mp"][~o]), np.full(int((~o).sum()), s["w"] / s["dz"]) * s["q"]))
        else:
            self.zero(self.beam.PyPICobj)
        self.prev = self.fields()
        if b["N"] == 0:
            return
        dt = s["dt"]
        nsub = int(np.round(dt / self.e["Dt_ref"])) if dt > self.e["Dt_ref"] else 1
        mp = types.SimpleNamespace(N_mp=b["N"], charge=self.q, mass=self.m, nel_mp=b["nel_mp"], **{k: b[k].copy() for k in shadow.ARR[:6]})
        z = np.zeros(1)

        def bf():
            if not n:
                return np.zeros(b["N"]), np.zeros(b["N"])
            ex, ey = self.beam.PyPICobj.gather(mp.x_mp, mp.y_mp)
            return np.array(ex), np.array(ey)
        if self.e["kick_mode"]:
            ex, ey = bf()
            mp.vx_mp += ex * dt * self.q / self.m
            mp.vy_mp += ey * dt * self.q / self.m
        ext = nsub if self.reinterp or (s["inter"] and self.e["interp"]) else 1
        for _ in range(ext):
            ex, ey = (np.array(v) for v in self.twin.PyPICobj.gather(mp.x_mp, mp.y_mp))
            if not self.e["kick_mode"]:
                u = bf()
                ex, ey = ex + u[0], ey + u[1]
            self.dyn.stepcustomDt(mp, ex, ey, Ez_n=0, Bx_n=z, By_n=z, Bz_n=z, Dt_substep=dt / nsub, N_sub_steps=nsub // ext)
        sx = np.hypot(mp.x_mp - b["x_mp"], mp.y_mp - b["y_mp"]) + 1e-9
        sv = np.sqrt(mp.vx_mp ** 2 + mp.vy_mp ** 2 + mp.vz_mp ** 2) + np.sqrt(b["vx_mp"] ** 2 + b["vy_mp"] ** 2 + b["vz_mp"] ** 2) + 1.
        if a["N"] != b["N"]:
            self.fail("the motion changed the number of macroparticles")
        for k, sca in (("x_mp", sx), ("y_mp", sx), ("vx_mp", sv), ("vy_mp", sv), ("vz_mp", sv)):
            d = np.abs(getattr(mp, k) - a[k])
            bad = ~(d <= 1e-5 * sca)
            if bad.any():
                q = int(np.argmax(np.where(np.isnan(d), np.inf, d / sca)))
                self.fail("the cloud was not moved with the field of the slice and of the cloud", array=k, macroparticle=q, moved=float(a[k][q]),
                          expected=float(getattr(mp, k)[q]), wrong=int(bad.sum()), of=b["N"], particles=n)

    def outside(self, d):
        p = self.beam
        dx, dy = c12.grid(p)
        return ((d["x_mp"] < p.bias_x) | (d["y_mp"] < p.bias_y) | (d["x_mp"] >= p.bias_x + (p.Nxg - 1) * dx) | (d["y_mp"] >= p.bias_y + (p.Nyg - 1) * dy))

    def cleaned(self, b, a, th):
        s = self.queue[self.k]
        now = self.fields()
        b, a = b[0], a[0]
        changed = drive.diff(self.prev, now) is not None
        if s["inter"] or s["sub"] == 0 or changed:
            rho = c12.deposit(self.twin, b, b["nel_mp"] * self.q)
            sc = np.max(np.abs(rho))
            if np.any(np.abs(rho - now["rho"]) > 1e-9 * sc):
                self.fail("the density of the cloud is not that of its macroparticles after the step", total=float(now["rho"].sum()), expected=float(rho.sum()))
            self.solve(self.twin, rho)
            for k in ("phi", "efx", "efy"):
                v = np.asarray(getattr(self.twin, k))
                if np.any(np.abs(v - now[k]) > 1e-6 * max(np.max(np.abs(v)), 1e-30)):
                    self.fail("the field of the cloud is not that of its density", array=k)
        same = all(np.array_equal(a[k], b[k]) for k in shadow.ARR)
        cap = self.e["c"]["sim"].get("N_mp_async_regen")
        if s["inter"] and not same and not (cap is not None and b["N"] > cap):
            self.fail("macroparticles were cleaned or regenerated while a slice interacts")
        # expected kick of every particle of the slice
        if s["inter"]:
            x = s["x"] + self.off[0]
            y = s["y"] + self.off[1]
            if len(x):
                ex, ey = (np.array(v) for v in self.twin.PyPICobj.gather(x, y))
            else:
                ex = ey = np.zeros(0)
            f = s["q"] / (s["m"] * s["beta"] ** 2 * s["gamma"] * pyht.C ** 2) * self.e["L"]
            self.kx[self.k] = f * ex * self.on[0], f * ey * self.on[1]
            self.compared += len(x) > 0
        R = self.rec
        for k in ("rho", "phi", "efx", "efy"):
            R[k].append(now[k])
        p = self.beam.PyPICobj
        for k, v in (("brho", p.rho), ("bphi", p.phi), ("bx", p.efx), ("by", p.efy)):
            R[k].append(np.array(v))
        for k, v in (("x", "x_mp"), ("y", "y_mp"), ("vx", "vx_mp"), ("vy", "vy_mp"), ("nel", "nel_mp"), ("N", "N")):
            R[k].append(a[v])
        if self.probes:
            u = self.twin.PyPICobj.gather(np.array([q["x"] for q in self.probes]), np.array([q["y"] for q in self.probes]))
            R["px"].append(np.array(u[0]))
            R["py"].append(np.array(u[1]))
        self.states.add("%s|%d|%d|%d|%d" % (self.fs, min(len(s["x"]), 1), s["inter"], min(s["sub"], 3), int(np.log2(a["N"] + 1))))
        self.k += 1
        self.steps += 1

    NAMES = {"rho_ele_last_track": ("rho", 0), "phi_ele_last_track": ("phi", 0), "Ex_ele_last_track": ("efx", 0), "Ey_ele_last_track": ("efy", 0),
             "rho_beam_last_track": ("brho", 1e-9), "phi_beam_last_track": ("bphi", 1e-6), "Ex_beam_last_track": ("bx", 1e-6), "Ey_beam_last_track": ("by", 1e-6),
             "x_MP_last_track": ("x", 0), "y_MP_last_track": ("y", 0), "vx_MP_last_track": ("vx", 0), "vy_MP_last_track": ("vy", 0), "nel_MP_last_track": ("nel", 0)}

    def records(self, rec):
        """Everything recorded, from the tail to the head."""
        R = self.rec
        for name, (k, tol) in self.NAMES.items():
            if name + ".len" not in rec:
                continue
            if rec[name + ".len"] != len(R[k]):
                self.fail("not one record per step of the cloud", name=name, records=rec[name + ".len"], steps=len(R[k]))
            for i, v in enumerate(R[k][::-1]):
                got = rec["%s[%d]" % (name, i)]
                if got.shape != v.shape or np.any(np.abs(got - v) > tol * max(np.max(np.abs(v)) if v.size else 0., 1e-30)):
                    self.fail("a recorded quantity is not that of its slice", name=name, record=i, got=float(np.max(np.abs(got), initial=0.)), expected=float(np.max(np.abs(v), initial=0.)), differs_by=float(np.max(np.abs(got - v))) if got.shape == v.shape else -1)
        if "N_MP" in rec and [int(v) for v in rec["N_MP"]] != R["N"][::-1]:
            self.fail("a recorded number of macroparticles is not that of its slice")
        if self.probes:
            for n, k in (("probe_x", "px"), ("probe_y", "py")):
                got, v = np.asarray(rec[n]), np.array(R[k][::-1])
                if got.shape != v.shape and got.T.shape == v.shape:
                    got = got.T
                sc = max(np.max(np.abs(R["efx"])), np.max(np.abs(R["efy"])), 1e-30)
                if got.shape != v.shape or np.any(np.abs(got - v) > 1e-6 * sc):
                    self.fail("the field recorded at the probes is not that of the slice", name=n, shape=list(got.shape), expected=list(v.shape))


def steps_of(e, bm, x, y, dz, inter):
    dt = dz / (bm.beta * pyht.C)
    D = e["c"]["sim"]["Dt"]
    n = int(np.ceil(dt / D)) if D is not None and dt > D else 1
    return [dict(x=x, y=y, w=bm.particlenumber_per_mp, q=bm.charge, m=bm.mass, beta=bm.beta, gamma=bm.gamma, dz=dz, dt=dt / n, inter=inter, sub=k) for k in range(n)]


def check_kicks(mod, part, xp, xp0, want):
    for k in (0, 1):
        d = xp[k] - xp0[k]
        sc = max(np.max(np.abs(want[0]), initial=0.), np.max(np.abs(want[1]), initial=0.))
        bad = ~(np.abs(d - want[k]) <= 1e-6 * sc + 1e-15 * np.abs(xp0[k]) * 4)
        if np.any(bad):
            q = int(np.argmax(bad))
            mod.fail("a particle did not get the kick of the field of the cloud at its position", part=part, plane="xy"[k], particle=q, kick=float(d[q]),
                     expected=float(want[k][q]), wrong=int(bad.sum()), of=len(d))


def life(emit, plan, root):
    e = plan["e"]
    with common.mkworld(root, plan["env"]):
        pyht.install()
        el = pyht.Element(e, root)
        ec = el.ec
        mod = Model(el)
        other = None
        if plan["other"]:
            o = copy.deepcopy(e)
            o.update(seed=7, rec=[], mode="slice")
            o["kwargs"] = dict(o["kwargs"], Nel_init_unif=3e8)
            o["c"]["sim"]["Dt"] = 5e-9
            other = pyht.Element(o, os.path.join(root, "other"), space_charge=ec.spacech_ele)
        br = shadow.Bracket(ec.cloudsim)
        br.listeners.append(mod)
        tot = 0.

        def disturb(k):
            if other is not None and k % 3 == 1:
                keep = br.listeners
                br.listeners = []
                q = pyht.Beam(dict(plan["passages"][0]["beams"][0], seed=k))
                for t in pyht.slices_of(q, pyht.Slicer(4, q.cuts))[:2]:
                    other.do(lambda: other.ec.track(t))
                br.listeners = keep
        for ip, p in enumerate(plan["passages"]):
            el.seed(p["rng"])
            disturb(ip)
            if el.mode == "whole":
                bm = pyht.Beam(p["beams"][0])
                if p.get("stale"):      # sliced before, and moved since
                    z = bm.z.copy()
                    bm.z = np.roll(z, len(z) // 3) + .3 * p["beams"][0]["sz"]
                    sl = bm.get_slices(el.slicer)
                    bm.z = z
                sl = bm.get_slices(el.slicer) if p.get("stale") and not e["clean"] else pyht.SliceSet(bm, el.slicer)
                queue, idx = [], []
                for i in range(sl.n_slices - 1, -1, -1):
                    ix = sl._by_slice[sl.slice_positions[i]:sl.slice_positions[i + 1]]
                    queue += steps_of(e, bm, bm.x[ix].copy(), bm.y[ix].copy(), sl.z_bins[i + 1] - sl.z_bins[i], True)
                    idx.append(ix)
                mod.start(ip, queue)
                old = {k: getattr(bm, k).copy() for k in ("x", "y", "xp", "yp", "z")}
                el.do(lambda: ec.track(bm))
                want = np.zeros((2, len(bm.x)))
                if mod.k != len(queue):
                    mod.fail("not all slices were tracked", tracked=mod.k, slices=len(queue))
                for ix, kk in zip(idx, mod.kx):
                    want[0][ix], want[1][ix] = kk
                check_kicks(mod, "bunch", (bm.xp, bm.yp), (old["xp"], old["yp"]), want)
                for k in ("x", "y", "z"):
                    if not np.array_equal(old[k], getattr(bm, k)):
                        mod.fail("the passage changed the positions of the beam", array=k)
                tot += float(np.abs(want).sum())
                mod.records(el.records())
                continue
            pieces, queue = [], []
            for ib, b in enumerate(p["beams"]):
                bm = pyht.Beam(b)
                inter = not p["mute"][ib]
                for s in pyht.slices_of(bm, pyht.Slicer(b["n_slices"], bm.cuts), i_bunch=ib if p["meta"] else None, info=None if inter else dict(interact_with_EC=False)):
                    q = steps_of(e, bm, s.x.copy(), s.y.copy(), s.slice_info["z_bin_right"] - s.slice_info["z_bin_left"], inter)
                    pieces.append((s, len(queue), inter))
                    queue += q
                if p["meta"]:
                    for g in range(p["gaps"][ib]):
                        s = pyht.gap(bm, p["gaplen"], ib, b["n_slices"] + g)
                        pieces.append((s, len(queue), False))
                        queue += steps_of(e, bm, s.x, s.y, p["gaplen"], False)
            mod.start(ip, queue)
            for j, (s, k0, inter) in enumerate(pieces):
                disturb(j)
                old = s.xp.copy(), s.yp.copy(), s.x.copy(), s.y.copy()
                if mod.k != k0:
                    mod.fail("a slice did not take its number of steps", slice=j)
                if (plan["e"]["seed"] + j) % 5 == 0 and len(s.x):      # what the cut of the bunch left over
                    u = s.piece(np.arange(len(s.x)), 0., 0.)
                    u.slice_info = "unsliced"
                    el.do(lambda: ec.track(u))
                    if mod.k != k0 or not (np.array_equal(u.xp, s.xp) and np.array_equal(u.yp, s.yp)):
                        mod.fail("particles outside all slices acted on the cloud or got a kick", slice=j)
                el.do(lambda: ec.track(s))
                want = np.zeros((2, len(s.x)))
                if inter:
                    want[0], want[1] = mod.kx[k0]
                check_kicks(mod, "slice %d" % j, (s.xp, s.yp), old, want)
                if not (np.array_equal(s.x, old[2]) and np.array_equal(s.y, old[3])):
                    mod.fail("the passage changed the positions of the beam")
                tot += float(np.abs(want).sum())
            if mod.k != len(queue):
                mod.fail("not all slices were tracked", tracked=mod.k, slices=len(queue))
            el.do(ec._finalize)
            mod.records(el.records())
            el.do(ec._reinitialize)
        br.close()
        return dict(steps=mod.steps, states=sorted(mod.states), compared=mod.compared, tot=tot, fs=mod.fs)


_life = life


def run(plan, emit):
    plan = copy.deepcopy(plan)
    c15.valid(plan)
    with proc.Scratch() as top:
        a = proc.incarnation(life, (plan, top))
        if a[0] == "exception" and "no room for" in a[1]["msg"]:
            return dict(faults={}, probes={"overfull": 1}, states=[], sim_time=0, steps=0, nontrivial=False, sig=None, sample=None)
        a = proc.raise_if_bad(a, "passages")
    n = len(plan["passages"])
    return dict(faults={"second element on the same solver": int(plan["other"])}, probes={"steps": a["steps"], "slices compared": a["compared"]}, states=a["states"], sim_time=1e-9 * n,
                steps=a["steps"], nontrivial=a["compared"] >= 2 and a["tot"] > 0,
                sig=[a["fs"], [(len(p["beams"]), p["gaps"], p["mute"]) for p in plan["passages"]], plan["other"]], sample=dict(features=a["fs"], steps=a["steps"], slices=a["compared"]))


def shrink(plan):
    if plan["other"]:
        yield dict(plan, other=False)
    if len(plan["passages"]) > 1:
        yield dict(plan, passages=plan["passages"][:1])
        yield dict(plan, passages=plan["passages"][1:])
    for i, p in enumerate(plan["passages"]):
        if len(p["beams"]) > 1:
            q = copy.deepcopy(plan)
            for k in ("beams", "gaps", "mute"):
                q["passages"][i][k] = p[k][:1]
            yield q
    e = plan["e"]
    for k, v in (("rec", []), ("kick_mode", False), ("interp", False), ("kwargs", {}), ("clean", False)):
        if e[k] != v:
            q = copy.deepcopy(plan)
            q["e"][k] = v
            yield q
    for c in common.shrink_cfg(e["c"]):
        q = copy.deepcopy(plan)
        q["e"]["c"] = c
        yield q
