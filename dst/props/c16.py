"""C16: feeding an electron-cloud element slice by slice equals presenting the whole bunch."""
import copy
import os

import numpy as np

from .. import common, drive, proc, pyht
from ..proc import Violation
from . import c15

LEVEL = "exploration"
TIERS = {"quick": dict(runs=520, cap=60, shrink=60), "thorough": dict(runs=9000, cap=1200, shrink=180)}
RULE = ("a run draws an element and 1-3 bunches; each bunch is presented whole to one element and slice by slice, head first and with finalisation, to an identical element, "
        "the slice sequence being cut by other activity (another element on the same field solver, a twin tracking the same slices, look-ups of the fields, unsliced "
        "particles, an abandoned bunch before it) at seeded points; kicks, recorded pinch and final cloud must be identical, bit by bit; non-trivial when slices with "
        "particles were compared; distinct by element features, slicing and interruptions")
STATES = "distinct (element features, slices, interruption, finalisation style) reached"
REAL = c15.REAL
STUB = c15.STUB
ASSUMPTIONS = ["the slices presented one at a time are those of the slicer of the whole-bunch element"]

CUTS = ["other", "twin", "look", "unsliced", "none"]


def gen(r, tier):
    e = pyht.gen_elem(r, mode="whole")
    c = e["c"]
    z = r.choice([.04, .1])
    e["slicer"] = [r.choice([1, 2, 3, 5, 8, 15]), [-z, z]]
    e["save"] = False
    c["sim"]["Dt"] = 5e-9 if c["mach"]["track_method"] == "Boris" else r.choice([None, 5e-9])
    beams = []
    for _ in range(r.choice([1, 2, 3])):
        b = pyht.gen_beam(r)
        b["n_slices"] = e["slicer"][0]
        beams.append(b)
    return dict(e=e, beams=beams, rng=[r.randrange(1 << 30) for _ in beams], fin=r.choice(["explicit", "explicit", "meta", "both"]),
                cuts=[[r.random(), r.choice(CUTS)] for _ in range(r.choice([0, 1, 2, 4]))], abandon=r.choice([None, None, 1, 2]), offset=[r.randrange(5), r.random() < .3], env=common.gen_env(r))


def whole(emit, plan, root):
    with common.mkworld(root, plan["env"]):
        pyht.install()
        el = pyht.Element(plan["e"], root)
        out = []
        for b, s in zip(plan["beams"], plan["rng"]):
            el.seed(s)
            bm = pyht.Beam(b)
            el.do(lambda: el.ec.track(bm))
            sl = bm.get_slices(el.slicer)
            obs = {"xp": bm.xp, "yp": bm.yp}
            obs.update(el.cloud())
            obs.update(el.records())
            out.append((pyht.plain(obs), float(np.sum(np.abs(bm.xp))), np.diff(sl.slice_positions).tolist()))
        return out


def sliced(emit, plan, root):
    with common.mkworld(root, plan["env"]):
        pyht.install()
        e = copy.deepcopy(plan["e"])
        slicer = pyht.Slicer(*e["slicer"])
        e["mode"] = "slice"
        el = pyht.Element(e, root)
        others = {}
        # a quiet neighbour
        o = copy.deepcopy(e)
        o.update(seed=7, rec=[])
        for kind in set(c[1] for c in plan["cuts"]):
            if kind == "other":
                o["kwargs"] = dict(o["kwargs"], Nel_init_unif=3e8)
                others[kind] = pyht.Element(o, os.path.join(root, "other"), space_charge=el.ec.spacech_ele)
            elif kind == "twin":
                others[kind] = pyht.Element(o, os.path.join(root, "twin"), twin_of=el)
        out = []
        ec = el.ec

        def abandoned(b):
            bm = pyht.Beam(b)
            el.seed(99)
            for s in pyht.slices_of(bm, slicer)[:plan["abandon"]]:
                el.do(lambda: ec.track(s))
            el.do(ec.finalize_and_reinitialize)
        if plan["abandon"]:
            abandoned(plan["beams"][0])
        nb = 0
        for b, s in zip(plan["beams"], plan["rng"]):
            bm = pyht.Beam(b)
            el.seed(s)
            meta = plan["fin"] in ("meta", "both")
            ps = pyht.slices_of(bm, slicer, i_bunch=0 if meta else None)
            at = {}
            for u, kind in plan["cuts"]:
                at.setdefault(int(u * (len(ps) + 1)), []).append(kind)
            rec = {}
            for i in range(len(ps) + 1):
                for kind in at.get(i, []):
                    if kind in ("other", "twin"):
                        q = pyht.Beam(plan["beams"][-1])
                        q.x = q.x + 1e-3
                        for t in pyht.slices_of(q, slicer)[:2]:
                            others[kind].do(lambda: others[kind].ec.track(t))
                    elif kind == "look":
                        ec.spacech_ele.PyPICobj.gather(np.array([1e-3]), np.array([0.]))
                    elif kind == "unsliced":
                        t = bm.piece(np.arange(0), 0., 0.)
                        t.slice_info = "unsliced"
                        el.do(lambda: ec.track(t))
                if i < len(ps):
                    el.do(lambda: ec.track(ps[i]))
            cloud = el.cloud()
            el.do(ec._finalize)
            rec = el.records()
            if plan["fin"] in ("explicit", "both"):
                el.do(ec.finalize_and_reinitialize)
            xp, yp = bm.xp, bm.yp
            for p in ps:
                xp[p.ix], yp[p.ix] = p.xp, p.yp
            obs = {"xp": xp, "yp": yp}
            obs.update(cloud)
            obs.update(rec)
            out.append((pyht.plain(obs), float(np.sum(np.abs(xp))), None))
            nb += 1
        return out


def _life(emit, plan, root):
    return sliced(emit, plan, root)


def run(plan, emit):
    with proc.Scratch() as top:
        a = proc.incarnation(whole, (plan, os.path.join(top, "w")))
        if a[0] == "exception" and "no room for" in a[1]["msg"]:
            return dict(faults={}, probes={"overfull": 1}, states=[], sim_time=0, steps=0, nontrivial=False, sig=None, sample=None)
        a = proc.raise_if_bad(a, "whole bunches")
        b = proc.raise_if_bad(proc.incarnation(sliced, (plan, os.path.join(top, "s"))), "slice by slice")
        for k, (x, y) in enumerate(zip(a, b)):
            bad = sorted(q for q in set(x[0]) | set(y[0]) if x[0].get(q) != y[0].get(q))
            if bad:
                raise Violation("slice by slice is not the same as the whole bunch", bunch=k, differs=bad[:8], slices=plan["e"]["slicer"][0], cuts=plan["cuts"], finalisation=plan["fin"])
        e = plan["e"]
        fs = [e["c"]["mach"]["chamb_type"], e["c"]["mach"]["track_method"], str(e["c"]["sey"]["switch_model"]), e["c"]["sim"]["PyPICmode"][:12], e["kick_mode"], e["interp"]]
        kinds = [c[1] for c in plan["cuts"]]
        return dict(faults=dict({"interruption." + k: kinds.count(k) for k in set(kinds)}, **({"abandoned": 1} if plan["abandon"] else {})),
                    probes={"bunches": len(a), "empty_slices": sum(q[2].count(0) for q in a), "recorded": len(e["rec"])},
                    states=sorted("%s|%d|%s|%s" % (fs, e["slicer"][0], k, plan["fin"]) for k in kinds or ["-"]), sim_time=1e-9 * len(a), steps=2 * len(a) * e["slicer"][0],
                    nontrivial=any(sum(1 for v in q[2] if v) >= 1 for q in a), sig=[fs, e["slicer"], kinds, plan["fin"], plan["abandon"]],
                    sample=dict(features=fs, slices=e["slicer"][0], interruptions=kinds))


def shrink(plan):
    if len(plan["beams"]) > 1:
        yield dict(plan, beams=plan["beams"][:1], rng=plan["rng"][:1])
        yield dict(plan, beams=plan["beams"][1:], rng=plan["rng"][1:])
    yield from common.shrink_list(plan, "cuts")
    if plan["abandon"]:
        yield dict(plan, abandon=None)
    if plan["fin"] != "explicit":
        yield dict(plan, fin="explicit")
    e = plan["e"]
    for k, v in (("rec", []), ("kick_mode", False), ("interp", False), ("kwargs", {}), ("clean", False)):
        if e[k] != v:
            q = copy.deepcopy(plan)
            q["e"][k] = v
            yield q
    for c in common.shrink_cfg(e["c"]):
        q = copy.deepcopy(plan)
        q["e"]["c"] = c
        yield q
