"""C21: a recorded field map replays the fields it was recorded from."""
import copy
import os

import numpy as np

from .. import common, drive, proc, pyht
from ..proc import Violation
from . import c15

LEVEL = "exploration"
TIERS = {"quick": dict(runs=700, cap=60, shrink=60), "thorough": dict(runs=9000, cap=1200, shrink=180)}
RULE = ("a run draws an element and a recording passage (bunch, or train of slices with gaps), replaces the element with its recorded map in one of the two ways offered, and tracks a "
        "seeded history of passages through it (the recorded bunch again, other bunches, passages abandoned half way, a twin tracking in between); each particle must "
        "get the kick of the field recorded for its slice, interpolated independently, and the recorded bunch the kicks it got when it was recorded; non-trivial when "
        "particles were kicked in a passage after the first; distinct by element features and history")
STATES = "distinct (mode, way of replacing, passage kind, passages before, kicks enabled) reached"
REAL = ["Ecloud, BuildupSimulation and its parts, Transverse_Efield_map, PyPIC scatter/gather", "compiled kernels"]
STUB = c15.STUB
ASSUMPTIONS = ["particles stay inside the recorded grid"]


def gen(r, tier):
    e = pyht.gen_elem(r)
    c = e["c"]
    e["save"] = False
    e["rec"] = [k for k in e["rec"] if k in ("save_ele_field", "save_ele_distributions_last_track")]
    src = pyht.gen_beam(r, hole=False)
    src["sx"] = src["sy"] = 4e-4
    if e["mode"] == "whole":
        z = r.choice([.04, .1])
        e["slicer"] = [r.choice([1, 2, 3, 5, 8]), [-z, z]]
    c["sim"]["Dt"] = 1e-9 if c["mach"]["track_method"] == "Boris" else r.choice([None, 1e-9])
    pas = []
    for _ in range(r.choice([1, 2, 3, 5])):
        pas.append([r.choice(["same", "same", "other", "other", "abandon", "twin"]), pyht.gen_beam(r), r.choice([0, 1, 2])])
    return dict(e=e, src=src, how=r.choice(["once", "record"]) if e["mode"] == "whole" else "once", delete=r.random() < .6, pas=pas,
                ns=r.choice([1, 3, 4, 6]), gaps=r.choice([None, None, [0.1, 1], [0.9, 2], [0.9, 0]]), nbunch=r.choice([1, 1, 2]), meta=r.random() < .6,
                fin=r.choice(["explicit", "explicit", "meta"]), env=common.gen_env(r))


def bilinear(F, xg, yg, x, y):
    """Field at particles; the second value tells which particles are inside the grid."""
    dx, dy = xg[1] - xg[0], yg[1] - yg[0]
    fx, fy = (x - xg[0]) / dx, (y - yg[0]) / dy
    i, j = np.floor(fx).astype(int), np.floor(fy).astype(int)
    ok = (i >= 1) & (j >= 1) & (i < len(xg) - 2) & (j < len(yg) - 2)
    i, j = np.where(ok, i, 0), np.where(ok, j, 0)
    a, b = fx - i, fy - j
    v = F[i, j] * (1 - a) * (1 - b) + F[i + 1, j] * a * (1 - b) + F[i, j + 1] * (1 - a) * b + F[i + 1, j + 1] * a * b
    return v, ok


def train(plan, b):
    """Slices of a passage in slice-by-slice mode, head first."""
    out = []
    meta = plan["meta"] or plan["fin"] == "meta" or plan["gaps"] is not None or plan["nbunch"] > 1
    for ib in range(plan["nbunch"]):
        bm = pyht.Beam(dict(b, seed=b["seed"] + ib))
        ps = pyht.slices_of(bm, pyht.Slicer(plan["ns"], bm.cuts), i_bunch=ib if meta else None)
        out += ps
        if plan["gaps"] is not None:
            g = pyht.gap(bm, plan["gaps"][0], ib, 99)
            if plan["gaps"][1]:     # with some particles in it
                h = bm.piece(np.arange(plan["gaps"][1]), 0., plan["gaps"][0])
                h.slice_info = g.slice_info
                g = h
            out.append(g)
    return out


def kick(plan, p, Ex, Ey, ix, xg, yg):
    """Expected kicks of the particles ix of p in the recorded field."""
    e = plan["e"]
    ox, oy = e["kwargs"].get("x_beam_offset", 0.), e["kwargs"].get("y_beam_offset", 0.)
    f = p.charge / (p.mass * p.beta ** 2 * p.gamma * pyht.C ** 2) * e["L"]
    kx, ok = bilinear(Ex, xg, yg, p.x[ix] + ox, p.y[ix] + oy)
    ky, _ = bilinear(Ey, xg, yg, p.x[ix] + ox, p.y[ix] + oy)
    return f * kx * e["kwargs"].get("enable_kick_x", True), f * ky * e["kwargs"].get("enable_kick_y", True), ok


def near(a, b, ref):
    return np.abs(a - b) <= 1e-9 * np.abs(b) + 1e-12 * np.max(np.abs(ref), initial=0.) + 1e-18


def life(emit, plan, root):
    e = plan["e"]
    with common.mkworld(root, plan["env"]):
        pyht.install()
        el = pyht.Element(e, root)
        ec = el.ec
        tw = None
        if any(p[0] == "twin" for p in plan["pas"]):
            tw = pyht.Element(dict(e, seed=5, rec=[]), os.path.join(root, "twin"), twin_of=el)
        # capture what is recorded, and for which slice
        rec = []
        xg, yg = np.array(ec.spacech_ele.xg), np.array(ec.spacech_ele.yg)
        sc = ec.spacech_ele
        orig = ec._track_single_slice

        def spy(slic, ix, *a, **k):
            r = orig(slic, ix, *a, **k)
            rec.append((sc.efx.copy(), sc.efy.copy()))
            return r
        ec._track_single_slice = spy
        whole = el.mode == "whole"
        if whole:
            src = pyht.Beam(plan["src"])
            if plan["how"] == "once":
                el.do(lambda: ec.track_once_and_replace_with_recorded_field_map(src, delete_ecloud_data=plan["delete"]))
            else:
                ec.save_ele_field = True
                el.do(lambda: ec.track(src))
                el.do(lambda: ec.replace_with_recorded_field_map(delete_ecloud_data=plan["delete"]))
            got0 = (src.xp.copy(), src.yp.copy())
            rec = rec[::-1]     # tail first
        else:
            src = train(plan, plan["src"])
            el.do(lambda: ec.track_once_and_replace_with_recorded_field_map(src, delete_ecloud_data=plan["delete"]))
            got0 = [(p.xp.copy(), p.yp.copy()) for p in src]
            if plan["fin"] == "explicit" and plan["src"]["seed"] % 2:
                ec.finalize_and_reinitialize()
        kicked = late = 0
        for n, (kind, b, m) in enumerate(plan["pas"]):
            b = dict(b)
            if e["c"]["sim"]["PyPICmode"].startswith("ShortleyWeller_With"):
                b.update(sx=3e-4, sy=3e-4, ox=0., oy=0.)
            if kind == "twin":
                bm = pyht.Beam(plan["src"])
                if whole:
                    tw.do(lambda: tw.ec.track(bm))
                else:
                    for p in train(plan, plan["src"])[:3]:
                        tw.do(lambda: tw.ec.track(p))
                continue
            b0 = plan["src"] if kind == "same" else b
            if whole:
                bm, ref = pyht.Beam(b0), pyht.Beam(b0)
                if b["seed"] % 2:       # sliced before, and moved since (the map always slices anew)
                    bm.z = np.roll(ref.z, len(ref.z) // 3) + .3 * b0["sz"]
                    bm.get_slices(el.slicer)
                    bm.z = ref.z.copy()
                if kind == "abandon":
                    bm.fail_at = m
                    try:
                        ec.track(bm)
                    except pyht.SimulatedFailure:
                        pass
                    continue
                with np.errstate(all="ignore"):
                    ec.track(bm)
                sl = pyht.SliceSet(ref, el.slicer)
                ex, ey = np.zeros(len(ref.x)), np.zeros(len(ref.x))
                inside = np.ones(len(ref.x), dtype=bool)
                for i in range(sl.n_slices):
                    ix = sl._by_slice[sl.slice_positions[i]:sl.slice_positions[i + 1]]
                    ex[ix], ey[ix], inside[ix] = kick(plan, ref, rec[i][0], rec[i][1], ix, xg, yg)
                parts = [(bm, ref, ex, ey, inside, got0 if kind == "same" else None, "bunch")]
            else:
                ps, refs = train(plan, b0), train(plan, b0)
                parts = []
                for i, (p, q) in enumerate(zip(ps, refs)):
                    if kind == "abandon" and i >= m:
                        break
                    if b["seed"] % 3 == 0 and i % 2 == 0:      # what the cut of the bunch left over
                        u = p.piece(np.arange(len(p.x)), 0., 0.)
                        u.slice_info = "unsliced"
                        ec.track(u)
                        if not (np.array_equal(u.xp, p.xp) and np.array_equal(u.yp, p.yp)):
                            raise Violation("particles outside all slices got a kick", passage=n, part="slice %d" % i)
                    with np.errstate(all="ignore"):
                        ec.track(p)
                    ix = np.arange(len(q.x))
                    ex, ey, ok = kick(plan, q, rec[i][0], rec[i][1], ix, xg, yg)
                    if q.slice_info.get("interact_with_EC") is False:
                        ex, ey = 0. * ex, 0. * ey
                    parts.append((p, q, ex, ey, ok, got0[i] if kind == "same" else None, "slice %d" % i))
                if plan["fin"] == "explicit" or (kind == "abandon" and m < 1):
                    ec.finalize_and_reinitialize()
            for p, q, ex, ey, ok, g, what in parts:
                bad = ok & ~(near(p.xp - q.xp, ex, q.xp) & near(p.yp - q.yp, ey, q.yp))
                if np.any(bad):
                    i = int(np.flatnonzero(bad)[0])
                    raise Violation("a particle does not get the kick of the field recorded for its slice", passage=n, kind=kind, part=what, particle=i, got=[float(p.xp[i] - q.xp[i]), float(p.yp[i] - q.yp[i])],
                                    expected=[float(ex[i]), float(ey[i])], wrong=int(np.sum(bad)), of=len(bad), mode=el.mode, how=plan["how"])
                if g is not None:
                    r = np.hypot(q.x, q.y) < 4e-3
                    if e["c"]["sim"]["PyPICmode"].startswith("ShortleyWeller_With"):
                        r &= ok & (np.hypot(q.x + e["kwargs"].get("x_beam_offset", 0.), q.y + e["kwargs"].get("y_beam_offset", 0.)) < 1.5e-3)
                    bad = r & ~(near(p.xp, g[0], g[0]) & near(p.yp, g[1], g[1]))
                    if np.any(bad):
                        i = int(np.flatnonzero(bad)[0])
                        raise Violation("the recorded bunch does not get again the kicks it got when it was recorded", passage=n, part=what, got=[float(p.xp[i]), float(p.yp[i])],
                                        recorded=[float(g[0][i]), float(g[1][i])], mode=el.mode)
                k = int(np.sum(np.abs(ex) + np.abs(ey) > 0))
                kicked += k
                late += k if n else 0
        return dict(kicked=kicked, late=late, nslices=len(rec))


def _life(emit, plan, root):
    return life(emit, plan, root)


def run(plan, emit):
    with proc.Scratch() as top:
        a = proc.incarnation(life, (plan, os.path.join(top, "e")))
        if a[0] == "exception" and "no room for" in a[1]["msg"]:
            return dict(faults={}, probes={"overfull": 1}, states=[], sim_time=0, steps=0, nontrivial=False, sig=None, sample=None)
        a = proc.raise_if_bad(a, "recording and replaying")
        e = plan["e"]
        kinds = [p[0] for p in plan["pas"]]
        fs = [e["c"]["mach"]["chamb_type"], e["c"]["mach"]["track_method"], e["mode"], plan["how"], e["c"]["sim"]["PyPICmode"][:12], e["kick_mode"], e["interp"]]
        en = [e["kwargs"].get("enable_kick_x", True), e["kwargs"].get("enable_kick_y", True)]
        return dict(faults={"abandoned": kinds.count("abandon"), "twin between": kinds.count("twin")}, probes={"particles_kicked": a["kicked"], "mode." + e["mode"]: 1, "gaps": plan["gaps"] is not None},
                    states=sorted("%s|%s|%s|%d|%s" % (e["mode"], plan["how"], k, i, en) for i, k in enumerate(kinds)), sim_time=1e-9 * len(kinds), steps=a["nslices"] * len(kinds),
                    nontrivial=a["kicked"] > 0, sig=[fs, kinds, plan["gaps"], plan["nbunch"], plan["fin"]], sample=dict(features=fs, passages=kinds))


def shrink(plan):
    if len(plan["pas"]) > 1:
        for p in common.shrink_list(plan, "pas"):
            if p["pas"]:
                yield p
    for k, v in (("gaps", None), ("nbunch", 1), ("ns", 1), ("fin", "explicit"), ("delete", False)):
        if plan[k] != v:
            yield dict(plan, **{k: v})
    e = plan["e"]
    for k, v in (("rec", []), ("kick_mode", False), ("interp", False), ("kwargs", {}), ("clean", False)):
        if e[k] != v:
            q = copy.deepcopy(plan)
            q["e"][k] = v
            yield q
    for c in common.shrink_cfg(e["c"]):
        q = copy.deepcopy(plan)
        q["e"]["c"] = c
        yield q
