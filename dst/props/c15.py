"""C15: every passage through an electron-cloud element starts from the element's initial cloud."""
import copy
import os

import numpy as np

from .. import common, drive, proc, pyht
from ..proc import Violation

LEVEL = "exploration"
TIERS = {"quick": dict(runs=400, cap=60, shrink=60), "thorough": dict(runs=6000, cap=1200, shrink=180)}
RULE = ("a run draws an element (chamber, magnet, surface, field solver, sub-stepping, recorded quantities, whole-bunch or slice-by-slice) and 2-5 passages (single bunches, "
        "trains with gaps in which the cloud is cleaned and regenerated), some abandoned half way by a failure of the tracking code, the field solver or the field "
        "interpolation; each completed passage is repeated as the first one of a fresh process with the same random numbers: kicks, recorded quantities and "
        "cloud must be identical, bit by bit; non-trivial when a completed passage after the first was compared; distinct by element features and passage history")
STATES = "distinct (element features, passages before, kind of the passage before, length of the passage) reached"
REAL = ["Ecloud, BuildupSimulation, MP_system, space charge, impact management, SEY models, PyPIC", "compiled kernels"]
STUB = ["PyHEADTAIL: bunches, slices and slicer are stand-ins with its interface", "clock, git and the random stream are simulated"]
ASSUMPTIONS = ["surfaces that store charge are excluded: their charge is not part of the cloud", "the space charge interval is not a multiple of the slice length (no ties)"]


CLOCK = ("t", "t_hist", "t_En_hist", "t_sc_video", "N_mp_impact_pass", "N_mp_corrected_pass")


def gen_passage(r, e):
    if e["mode"] == "whole":
        b = pyht.gen_beam(r)
        b["n_slices"] = e["slicer"][0]
        return dict(beams=[b], gaps=[])
    n = r.choice([1, 1, 2, 3])
    bs = [pyht.gen_beam(r) for _ in range(n)]
    return dict(beams=bs, gaps=[r.choice([0, 0, 1, 3]) for _ in range(n)], gaplen=r.choice([0.1, 0.37, 1.1]), meta=n > 1 or r.random() < .6)


def gen(r, tier):
    e = pyht.gen_elem(r)
    if e["mode"] == "whole":
        n = r.choice([3, 5, 8])
        z = r.choice([.04, .1])
        e["slicer"] = [n, [-z, z]]
    # long enough for every slice that interacts, short enough for gaps to need several steps
    e["c"]["sim"]["Dt"] = r.choice([None, 3e-10, 7e-10])
    S = e["c"]["sim"]
    if S["Dt"] is None and (e["save"] or e["c"]["mach"]["track_method"] == "Boris"):
        S["Dt"] = 5e-9
    if r.random() < .6:     # gaps must find something to clean and regenerate
        S.update(N_mp_soft_regen=120, N_mp_after_soft_regen=90, fact_clean=.3)
    ps = []
    for k in range(r.choice([2, 3, 3, 5])):
        p = gen_passage(r, e)
        if k and r.random() < .2:
            p = copy.deepcopy(ps[0])
        p["rng"] = r.randrange(1 << 30)
        p["fail"] = [r.choice(["slice", "solve", "kick"]), r.choice([0, 1, 2, 4, 7])] if r.random() < .35 else None
        if e["mode"] == "slice" and p["fail"] and p["fail"][0] == "slice":
            p["fail"][0] = "cut"
        ps.append(p)
    if all(p["fail"] for p in ps[1:]):
        ps[-1]["fail"] = None
    return dict(e=e, passages=ps, env=common.gen_env(r))


def fits(e, dz, beta):
    dt = e["c"]["sim"]["Dt"]
    return dt is None or dz / (beta * pyht.C) <= dt


def passage(el, p, obs):
    """One passage; fills obs with what it did.  True when it was completed."""
    el.seed(p["rng"])
    done = True
    pieces = []
    ec = el.ec
    if el.mode == "whole":
        bm = pyht.Beam(p["beams"][0])
        if p["fail"]:
            with pyht.Fail(el, bm, p["fail"]):
                try:
                    el.do(lambda: ec.track(bm))
                except (pyht.SimulatedFailure, MemoryError):
                    done = False
        else:
            el.do(lambda: ec.track(bm))
        if done:
            obs.update(pyht.plain(dict(xp=bm.xp, yp=bm.yp)))
            obs.update(pyht.plain(el.cloud()))
            obs.update(pyht.plain(el.records()))
        obs["kick"] = float(np.sum(np.abs(bm.xp)))
        return done
    k = 0
    for ib, b in enumerate(p["beams"]):
        bm = pyht.Beam(b)
        sl = pyht.Slicer(b["n_slices"], bm.cuts)
        for s in pyht.slices_of(bm, sl, i_bunch=ib if p["meta"] else None, i0=0):
            pieces.append(s)
        if p["meta"]:
            for g in range(p["gaps"][ib]):
                pieces.append(pyht.gap(bm, p["gaplen"], ib, b["n_slices"] + g))
        if p["meta"] and r_uns(b):
            u = bm.piece(np.arange(0), 0., 0.)
            u.slice_info = "unsliced"
            pieces.append(u)

    def go():
        for i, s in enumerate(pieces):
            if p["fail"] and p["fail"][0] == "cut" and i >= p["fail"][1]:
                raise pyht.SimulatedFailure("cut")
            el.do(lambda: ec.track(s))
    if p["fail"]:
        try:
            if p["fail"][0] == "cut":
                go()
            else:
                with pyht.Fail(el, None, p["fail"]):
                    go()
        except (pyht.SimulatedFailure, MemoryError):
            done = False
    else:
        go()
    if done:
        obs.update(pyht.plain(dict(xp=np.concatenate([s.xp for s in pieces]), yp=np.concatenate([s.yp for s in pieces]))))
        obs.update(pyht.plain(el.cloud()))
        # look at the records in the form they have when finished
        el.do(ec._finalize)
        obs.update(pyht.plain(el.records()))
        obs["kick"] = float(np.sum([np.sum(np.abs(s.xp)) for s in pieces]))
    el.do(ec._reinitialize)
    return done


def r_uns(b):
    return b["seed"] % 3 == 0


def life(emit, plan, root, which):
    """The passages `which`, one after the other, through one element."""
    with common.mkworld(root, plan["env"]):
        pyht.install()
        el = pyht.Element(plan["e"], root)
        out = []
        for k in which:
            obs = {}
            old = set(os.listdir(os.path.join(root, "out")))
            done = passage(el, plan["passages"][k], obs)
            new = list(pyht.pinch_files(el, old).values())
            if done and len(new) == 1:      # the pinch on file, but for clock times and counters since the start of the process
                obs.update(pyht.plain({"file:" + q: v for q, v in new[0].items() if q not in CLOCK}))
            out.append((done, obs))
        return dict(obs=out)


def _life(emit, plan, root):
    return life(emit, plan, root, range(len(plan["passages"])))


def valid(plan):
    e = plan["e"]
    if e["c"]["sim"]["Dt"] is None:
        return
    for p in plan["passages"]:
        for b in p["beams"]:
            n, cut = (e["slicer"][0], e["slicer"][1]) if e["mode"] == "whole" else (b["n_slices"], [-b["ncut"] * b["sz"], b["ncut"] * b["sz"]])
            if (cut[1] - cut[0]) / n / (pyht.C * .99) > e["c"]["sim"]["Dt"]:
                e["c"]["sim"]["Dt"] = 5e-9
    return plan


def run(plan, emit):
    plan = copy.deepcopy(plan)
    valid(plan)
    n = len(plan["passages"])
    with proc.Scratch() as top:
        r0 = os.path.join(top, "all")
        allp = proc.incarnation(life, (plan, r0, list(range(n))))
        if allp[0] == "exception" and "no room for" in allp[1]["msg"]:
            return dict(faults={}, probes={"overfull": 1}, states=[], sim_time=0, steps=0, nontrivial=False, sig=None, sample=None)
        allp = proc.raise_if_bad(allp, "sequence of passages")
        compared, aborted = 0, 0
        st = set()
        e = plan["e"]
        fs = [e["c"]["mach"]["chamb_type"], e["c"]["mach"]["track_method"], str(e["c"]["sey"]["switch_model"]), e["mode"], e["c"]["sim"]["PyPICmode"][:12], e["kick_mode"], e["interp"]]
        for k in range(1, n):
            done, obs = allp["obs"][k]
            if not done:
                aborted += 1
                continue
            one = proc.raise_if_bad(proc.incarnation(life, (plan, os.path.join(top, "p%d" % k), [k])), "passage alone")
            d1, o1 = one["obs"][0]
            bad = sorted(q for q in set(obs) | set(o1) if obs.get(q) != o1.get(q))
            if bad or not d1:
                raise Violation("a passage depends on what was tracked before", passage=k, before=[("abandoned: %s" % p["fail"]) if not ok[0] else "completed"
                                for p, ok in zip(plan["passages"][:k], allp["obs"])], differs=bad[:8], mode=e["mode"])
            compared += 1
            st.add("%s|%d|%s|%d" % (fs, k, (plan["passages"][k - 1]["fail"] or ["-"])[0], len(plan["passages"][k]["beams"])))
        aborted += 0 if allp["obs"][0][0] else 1
        return dict(faults={"abandoned." + p["fail"][0]: 1 for p, o in zip(plan["passages"], allp["obs"]) if p["fail"] and not o[0]},
                    probes={"passages_compared": compared, "mode." + e["mode"]: 1, "trains": sum(1 for p in plan["passages"] if len(p["beams"]) > 1),
                            "recorded": len(e["rec"]), "kicks_nonzero": sum(1 for o in allp["obs"] if o[1].get("kick"))},
                    states=sorted(st), sim_time=1e-9 * n, steps=sum(len(p["beams"]) * 6 for p in plan["passages"]), nontrivial=compared > 0,
                    sig=[fs, [(len(p["beams"]), p["fail"], p["gaps"]) for p in plan["passages"]]], sample=dict(features=fs, passages=[dict(fail=p["fail"], bunches=len(p["beams"]), gaps=p["gaps"]) for p in plan["passages"]]))


def shrink(plan):
    if len(plan["passages"]) > 2:
        for p in common.shrink_list(plan, "passages"):
            if len(p["passages"]) >= 2:
                yield p
    for i, p in enumerate(plan["passages"]):
        for k in ("fail",):
            if p[k]:
                q = copy.deepcopy(plan)
                q["passages"][i][k] = None
                yield q
        if len(p["beams"]) > 1:
            q = copy.deepcopy(plan)
            q["passages"][i]["beams"] = p["beams"][:1]
            q["passages"][i]["gaps"] = p["gaps"][:1]
            yield q
        if any(p["gaps"]):
            q = copy.deepcopy(plan)
            q["passages"][i]["gaps"] = [0] * len(p["gaps"])
            yield q
    e = plan["e"]
    for k, v in (("rec", []), ("save", False), ("kick_mode", False), ("interp", False), ("kwargs", {}), ("clean", False)):
        if e[k] != v:
            q = copy.deepcopy(plan)
            q["e"][k] = v
            yield q
    for c in common.shrink_cfg(e["c"]):
        q = copy.deepcopy(plan)
        q["e"]["c"] = c
        yield q
