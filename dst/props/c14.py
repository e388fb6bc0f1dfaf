"""C14: electron-cloud elements of one process do not influence each other."""
import copy
import os

import numpy as np

from .. import common, drive, proc, pyht
from ..proc import Violation
from . import c15

LEVEL = "exploration"
TIERS = {"quick": dict(runs=340, cap=60, shrink=60), "thorough": dict(runs=6000, cap=1200, shrink=180)}
RULE = ("a run draws 2-4 elements (own field solver, a solver handed over from another element, or a twin made at the start or in the middle of the run; whole-bunch or "
        "slice-by-slice), a programme of bunches, slices, gaps, failures, finalisations and field-map replacements for each, and a seeded interleaving of the "
        "programmes; every action of every element must give the same kicks, cloud and records, bit by bit, as in a process with that element alone; non-trivial when "
        "at least 2 elements acted alternately; distinct by elements, sharing and interleaving")
STATES = "distinct (sharing, mode, action, action of another element before it) reached"
REAL = c15.REAL
STUB = c15.STUB
ASSUMPTIONS = ["elements sharing a field solver have the same chamber, grid and refresh interval"]


def gen_prog(r, e):
    """Programme of one element: (beams, items)."""
    beams, items = [], []
    for _ in range(r.choice([1, 2, 2, 3])):
        b = pyht.gen_beam(r)
        k = len(beams)
        beams.append(b)
        if e["mode"] == "whole":
            b["n_slices"] = e["slicer"][0]
            items.append(["pass", k, r.choice([None] * 4 + [["slice", r.choice([0, 1, 2])], ["solve", r.choice([0, 1, 2])], ["kick", r.choice([0, 1, 3])]])])
        else:
            b["n_slices"] = min(b["n_slices"], 5)
            meta = r.random() < .5
            nb = r.choice([1, 1, 2]) if meta else 1
            for ib in range(nb):
                for i in range(b["n_slices"]):
                    items.append(["slice", k, i, ib if meta else None])
                if meta and r.random() < .4:
                    items.append(["gap", k, ib, r.choice([.1, .37])])
            if r.random() < .8:
                items.append(["fin"])
    if r.random() < .12 and "save_ele_field" in e["rec"] and e["mode"] == "whole" and not any(i[2] for i in items if i[0] == "pass"):
        items.append(["replace"])
        items.append(["pass", 0, None])
    return dict(beams=beams, items=items)


def gen(r, tier):
    elems = []
    n = r.choice([2, 2, 3, 4])
    for k in range(n):
        share = None
        if k and r.random() < .75:
            p = r.randrange(k)
            while elems[p]["share"] and elems[p]["share"][0] == "twin":
                p = elems[p]["share"][1]
            share = [r.choice(["twin", "twin", "sc"]), p]
        if share and share[0] == "twin":
            e = copy.deepcopy(elems[share[1]])
            e.update(seed=r.randrange(1 << 30), share=share, rec=[q for q in pyht.REC if r.random() < .35])
        elif share:
            # another magnet or surface in the same chamber, with the same solver
            e = pyht.gen_elem(r, c=copy.deepcopy(elems[share[1]]["c"]))
            e["share"] = share
            c = e["c"]
            c["seed"] += 1
            if c["mach"]["track_method"] == "BorisMultipole":
                c["mach"]["B_multip"] = r.choice([[0.], [0.53], [0., 12.]])
                c["mach"].pop("B_skew", None)
            elif c["mach"]["track_method"] == "Boris":
                c["mach"]["B0y"] = r.choice([0., .3])
            c["sey"]["del_max"] = r.choice([1.2, 1.5])
        else:
            c = pyht.gen_cfg(r, charging=True)
            c["sim"]["Dt"] = 5e-9 if c["mach"]["track_method"] == "Boris" else r.choice([None, 5e-9])
            e = pyht.gen_elem(r, c=c)
            e["share"] = None
        if not (share and share[0] == "twin"):
            if e["mode"] == "whole":
                z = r.choice([.04, .1])
                e["slicer"] = [r.choice([3, 5]), [-z, z]]
            e["save"] = e["save"] and r.random() < .5 and c["sim"]["Dt"] is not None
        elems.append(e)
    for k, e in enumerate(elems):   # twins write the file of their original
        if e["share"] and e["share"][0] == "twin":
            e["save"] = elems[e["share"][1]]["save"] = False
    for e in elems:     # saving needs a time step; a twin of a twin
        if e["share"] and e["share"][0] == "twin":
            e["save"] = False
    progs = [gen_prog(r, e) for e in elems]
    order = [k for k in range(n) for _ in progs[k]["items"]]
    style = r.choice(["shuffle", "shuffle", "runs", "round"])
    if style == "shuffle":
        r.shuffle(order)
    elif style == "runs":
        left = {k: len(progs[k]["items"]) for k in range(n)}
        order = []
        while left:
            k = r.choice(sorted(left))
            m = min(left[k], r.choice([1, 2, 3, 5]))
            order += [k] * m
            left[k] -= m
            if not left[k]:
                del left[k]
    else:
        m = max(len(p["items"]) for p in progs)
        order = [k for i in range(m) for k in range(n) if i < len(progs[k]["items"])]
    late = [k for k in range(n) if elems[k]["share"] and elems[k]["share"][0] == "twin" and r.random() < .5]
    return dict(elems=elems, progs=progs, order=order, late=late, env=common.gen_env(r))


class Player:
    """One element and its programme."""

    def __init__(self, k, plan, root, others):
        e = plan["elems"][k]
        sh = e["share"] if others is not None else None
        self.prog = plan["progs"][k]
        sc = others[sh[1]].el.ec.spacech_ele if sh and sh[0] == "sc" else None
        tw = others[sh[1]].el if sh and sh[0] == "twin" else None
        self.el = pyht.Element(e, os.path.join(root, "e%d" % k), space_charge=sc, twin_of=tw)
        self.beams = [pyht.Beam(b) for b in self.prog["beams"]]
        self.pieces = {}
        for i, b in enumerate(self.prog["beams"]):
            bm = self.beams[i]
            if self.el.mode == "slice":
                self.pieces[i] = pyht.slices_of(bm, pyht.Slicer(b["n_slices"], bm.cuts))
        self.at = 0
        self.replaced = False

    def step(self):
        it = self.prog["items"][self.at]
        self.at += 1
        el, ec = self.el, self.el.ec
        obs = {}
        if it[0] == "pass":
            bm = self.beams[it[1]]
            if it[2]:
                with pyht.Fail(el, bm, it[2]):
                    try:
                        el.do(lambda: ec.track(bm))
                    except (pyht.SimulatedFailure, MemoryError):
                        obs["failed"] = True
            else:
                el.do(lambda: ec.track(bm))
            obs.update(pyht.plain(dict(xp=bm.xp, yp=bm.yp)))
        elif it[0] == "slice":
            s = self.pieces[it[1]][it[2]]
            if it[3] is not None:
                s.slice_info.update(info_parent_bunch=dict(i_bunch=it[3]), i_slice=it[2])
            el.do(lambda: ec.track(s))
            obs.update(pyht.plain(dict(xp=s.xp, yp=s.yp)))
        elif it[0] == "gap":
            g = pyht.gap(self.beams[it[1]], it[3], it[2], 99)
            el.do(lambda: ec.track(g))
        elif it[0] == "fin":
            el.do(ec.finalize_and_reinitialize)
        elif it[0] == "replace":
            el.do(lambda: ec.replace_with_recorded_field_map())
            self.replaced = True
        if not self.replaced:
            obs.update(pyht.plain(el.cloud()))
            if it[0] != "fin":
                obs.update(pyht.plain(el.records()))
        obs["rng"] = drive._h(el.rng[1], el.rng[2])
        return it, obs


def life(emit, plan, root, only=None):
    """The whole run, or the actions of one element alone."""
    with common.mkworld(root, plan["env"]):
        pyht.install()
        players = {}
        log = []
        for k in range(len(plan["elems"])):
            if (only is None and k not in plan["late"]) or k == only:
                players[k] = Player(k, plan, root, players if only is None else None)
        for k in plan["order"]:
            if only is not None and k != only:
                continue
            if k not in players:
                base = plan["elems"][k]["share"][1]
                if players[base].replaced:
                    log.append((k, None, {}))
                    continue
                players[k] = Player(k, plan, root, players)
            it, obs = players[k].step()
            log.append((k, it, obs))
        return log


def _life(emit, plan, root):
    return life(emit, plan, root)


def run(plan, emit):
    with proc.Scratch() as top:
        allp = proc.incarnation(life, (plan, os.path.join(top, "all"), None))
        if allp[0] == "exception" and "no room for" in allp[1]["msg"]:
            return dict(faults={}, probes={"overfull": 1}, states=[], sim_time=0, steps=0, nontrivial=False, sig=None, sample=None)
        log = proc.raise_if_bad(allp, "elements together")
        st, fl = set(), {}
        for k, e in enumerate(plan["elems"]):
            mine = [x for x in log if x[0] == k]
            if not mine or mine[0][1] is None:
                continue
            alone = proc.raise_if_bad(proc.incarnation(life, (plan, os.path.join(top, "o%d" % k), k)), "element alone")
            for i, (a, b) in enumerate(zip(mine, alone)):
                if a[2] != b[2]:
                    bad = sorted(q for q in set(a[2]) | set(b[2]) if a[2].get(q) != b[2].get(q))
                    raise Violation("an element does not do what it does when it is alone", element=k, action=i, item=a[1], differs=bad[:8], mode=e["mode"], sharing=e["share"],
                                    others=[(x["mode"], x["share"]) for x in plan["elems"]])
                if a[2].get("failed"):
                    fl["failed." + a[1][2][0]] = fl.get("failed." + a[1][2][0], 0) + 1
        seq = [(x[0], x[1][0]) for x in log if x[1]]
        sw = sum(1 for a, b in zip(seq, seq[1:]) if a[0] != b[0])
        for a, b in zip(seq, seq[1:]):
            ea, eb = plan["elems"][a[0]], plan["elems"][b[0]]
            if a[0] != b[0]:
                st.add("%s|%s|%s|%s|%s" % (ea["share"] and ea["share"][0], eb["share"] and eb["share"][0], eb["mode"], a[1], b[1]))
        fl["switch of element"] = sw
        return dict(faults=fl, probes={"elements": len(plan["elems"]), "shared_solver": sum(1 for e in plan["elems"] if e["share"]), "late_twins": len(plan["late"]),
                                       "replaced": sum(1 for x in seq if x[1] == "replace")}, states=sorted(st), sim_time=1e-9 * len(log), steps=len(log),
                    nontrivial=sw >= 1 and len(log) >= 3, sig=[[(e["mode"], e["share"], str(e["c"]["sey"]["switch_model"]), e["c"]["sim"]["PyPICmode"]) for e in plan["elems"]], plan["order"]],
                    sample=dict(elements=[(e["mode"], e["share"]) for e in plan["elems"]], order=plan["order"][:20]))


def shrink(plan):
    n = len(plan["elems"])
    for k in range(n - 1, -1, -1):
        if n > 2 and not any(e["share"] and e["share"][1] == k for e in plan["elems"]):
            p = copy.deepcopy(plan)
            del p["elems"][k], p["progs"][k]
            p["order"] = [o - (o > k) for o in plan["order"] if o != k]
            p["late"] = [o - (o > k) for o in plan["late"] if o != k]
            for e in p["elems"]:
                if e["share"] and e["share"][1] > k:
                    e["share"][1] -= 1
            yield p
    m = len(plan["order"])
    while m > 2:
        m = m * 2 // 3
        p = copy.deepcopy(plan)
        p["order"] = plan["order"][:m]
        yield p
    p = copy.deepcopy(plan)
    p["order"] = plan["order"][:-1]
    if len(p["order"]) >= 2:
        yield p
    for k in range(n):
        for key, v in (("rec", []), ("save", False), ("kick_mode", False), ("interp", False), ("kwargs", {})):
            if plan["elems"][k][key] != v and (key in ("rec", "save") or not plan["elems"][k]["share"]):
                p = copy.deepcopy(plan)
                for j, e in enumerate(p["elems"]):
                    if j == k or (key not in ("rec", "save") and e["share"] == ["twin", k]):
                        e[key] = v
                yield p
    if plan["late"]:
        yield dict(plan, late=[])
