"""C22: charging insulating surfaces account for the charge they accumulate."""
import numpy as np

from .. import cfg, common, drive, proc, shadow, world
from ..proc import Violation
from .c09 import quick_curves

LEVEL = "exploration"
TIERS = {"quick": dict(runs=320, cap=60, shrink=60), "thorough": dict(runs=8000, cap=1200, shrink=180)}
RULE = ("a run draws a polygonal chamber whose segments are charging or not (limits over four decades, with and without discharge, different yields per segment), beam, fields, "
        "time steps of different lengths and partly extreme random draws; around every wall interaction and at the end of every step the surface charge of every segment is compared "
        "with an independent ledger fed from the macroparticles before and after, and the emitted charge with the yield of the charged surface; non-trivial when charging segments "
        "were hit and at least 50 impacts were judged; distinct by feature signature, scale of the limits and discharge")
STATES = "distinct (segments charging, scale of the limits, sign and level of the surface charge in tenths of the limit, discharge) combinations reached by a segment"
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = common.ASSUME + ["the surface charge belongs to the cloud whose surface model is charging; other clouds do not charge it",
                               "the surface discharges once per step, after the impacts of the step"]
QE = 1.602176634e-19


def gen(r, tier):
    c = cfg.gen(r, sey="ECLOUD_nunif_charging", nonunif_t=.2, regen=r.choice(["none", "none", "soft", "hard"]), small=r.random() < .5)
    M, S = c["mach"], c["sim"]
    m = c["mats"]["chm.mat"]
    m["qscale"] = 10 ** r.uniform(-3, 1.)
    m["eq"] = r.choice([15., 1., 100.])
    m["tau"] = r.choice([3e-9, 3e-10, 1e-7, 2e-11])
    for _ in range(50):
        if cfg.chamber_mat(m)["flag_charging"].any():
            break
        m["useed"] = r.randrange(1 << 20)
    if r.random() < .4:
        M["Nel_init_unif"] = r.choice([5e8, 2e9])
        S["nel_mp_ref_0"] = M["Nel_init_unif"] / r.choice([200, 300, 800])
    if r.random() < .3:
        M["E_init_unif"] = r.choice([30., 300.])
    S["extract_sey"] = r.random() < .1
    return dict(c=c, env=common.gen_env(r), adv=[r.randrange(1 << 30), r.choice([.02, .2, .6]), r.choice([1, 4, 20])] if r.random() < .5 else None)


class Charge:
    def __init__(self, br, c):
        self.br, self.c = br, c
        d = cfg.chamber_mat(c["mats"]["chm.mat"])
        Y = c["sey"]
        x, y = np.array(d["Vx"]), np.array(d["Vy"])
        self.L = np.hypot(np.roll(x, -1) - x, np.roll(y, -1) - y)
        self.chg = np.asarray(d["flag_charging"]) > 0
        self.dmax = np.where(d["del_max_segments"] < 0, Y["del_max"], d["del_max_segments"])
        self.R0 = np.where(d["R0_segments"] < 0, Y["R0"], d["R0_segments"])
        self.Em = np.where(d["Emax_segments"] < 0, Y["Emax"], d["Emax_segments"])
        self.E0 = Y.get("E0") or 150.
        self.Qm, self.EQ, self.tau = d["Q_max_segments"], d["EQ_segments"], d["tau_segments"]
        self.Q = np.zeros(len(x))
        self.amp = np.zeros(len(x))         # charge that went through each segment: the scale of rounding errors
        self.judged = self.hits = self.sat = self.part = 0
        self.states = set()
        self.key = "%s|%d|%g" % ("".join("01"[int(f)] for f in self.chg), int(np.floor(np.log10(c["mats"]["chm.mat"]["qscale"]))), c["mats"]["chm.mat"]["tau"])

    def now(self):
        return np.array(self.br.sim.cloud_list[0].impact_man.sey_mod.Q_segments, float)

    def fail(self, what, **k):
        bt = self.br.sim.beamtim
        raise Violation(what, step=int(bt.ii_curr), t=str(bt.tt_curr), **k)

    def compare(self, where):
        q = self.now()
        if q.shape != self.Q.shape:
            self.fail("the surface charge is not that of the segments of the chamber", after=where, shape=list(q.shape))
        bad = ~(np.abs(q - self.Q) <= 1e-9 * np.abs(self.Q) + 1e-11 * self.amp)
        if np.any(bad):
            k = int(np.argmax(bad))
            self.fail("the surface charge is not what impacted minus what was emitted, discharged", after=where, segment=k, charging=bool(self.chg[k]),
                      charge=float(q[k]), expected=float(self.Q[k]))
        self.Q = q        # do not let rounding errors accumulate

    def impact(self, e):
        if e.i != 0 or e.n == 0:
            return
        n = e.before["N"]
        per = e.nrep.copy()
        wn = e.after["nel_mp"][e.new]
        if len(wn):
            np.add.at(per, e.parent, wn)
        s = e.seg
        v = np.sqrt(2 * e.E * QE / e.mass)
        ct = np.clip(e.cos, 0., 1.)
        # yield of the bare surface, moved towards that of a fully charged one
        dm = self.dmax[s] * np.exp(.5 * (1 - ct))
        xx = e.E / (self.Em[s] * (1 + .7 * (1 - ct)))
        with np.errstate(all="ignore"):
            y = dm * 1.35 * xx / (.35 + xx ** 1.35) + self.R0[s] * ((np.sqrt(e.E) - np.sqrt(e.E + self.E0)) / (np.sqrt(e.E) + np.sqrt(e.E + self.E0))) ** 2
        f = np.where(self.chg[s], np.clip(self.Q[s], 0., self.Qm[s]) / self.Qm[s], 0.)
        y = y * (1 - f) + (1 - np.exp(-e.E / self.EQ[s])) * f
        ok = v > 0
        bad = ok & (np.abs(per - e.nel * y) > 1e-8 * e.nel * (1 + y))
        if np.any(bad):
            k = int(np.argmax(np.where(bad, np.abs(per - e.nel * y), 0)))
            self.fail("the emitted charge is not the impacting charge times the yield of the surface as charged", segment=int(s[k]), charging=bool(self.chg[s[k]]),
                      charged=float(f[k]), energy=float(e.E[k]), emitted=float(per[k]), expected=float(e.nel[k] * y[k]))
        self.judged += int(ok.sum())
        self.hits += int(self.chg[s].sum())
        self.sat += int((f >= 1).sum())
        self.part += int(((f > 0) & (f < 1)).sum())
        dQ, a = np.zeros(len(self.Q)), np.zeros(len(self.Q))
        np.add.at(dQ, s, -QE * (e.nel - per))
        np.add.at(a, s, QE * (e.nel + per))
        self.Q = self.Q + np.where(self.chg, dQ / self.L, 0.)
        self.amp = self.amp + np.where(self.chg, a / self.L, 0.)
        self.compare("wall interaction")

    def step(self):
        dt = float(self.br.sim.beamtim.Dt_curr)
        k = self.chg & (self.tau > 0)
        self.Q = np.where(k, self.Q * np.exp(-dt / np.where(k, self.tau, 1.)), self.Q)
        self.compare("the time step")
        for j in np.flatnonzero(self.chg):
            if self.Q[j]:
                self.states.add("%s|%d|%d" % (self.key, max(-3, min(12, int(np.floor(10 * self.Q[j] / self.Qm[j])))), int(self.tau[j] > 0)))


def _life(emit, plan, root):
    c = plan["c"]
    drive.prepare(c, root)
    with common.mkworld(root, plan["env"]) as w:
        world.RNG_HOOK = world.adversarial_rng(*plan["adv"]) if plan["adv"] else None
        quick_curves()
        sim = drive.build(c, root)
        br = shadow.Bracket(sim)
        ch = Charge(br, c)
        ch.compare("construction")
        br.listeners.append(ch)
        steps, ended = 0, "end"
        try:
            while drive.step(sim):
                steps += 1
                ch.step()
        except ValueError as e:
            if "N_mp_max" not in str(e):
                raise
            ended = "capacity"      # reported exhaustion of the declared macroparticles
        br.close()
        w.active = False
        common.check_escapes(w)
        fired = dict(w.fired)
        if plan["adv"]:
            for k, v in world.RNG_HOOK.counts.items():
                fired[k] = fired.get(k, 0) + v
        return dict(steps=steps, states=sorted(ch.states), judged=ch.judged, hits=ch.hits, sat=ch.sat, part=ch.part, fired=fired, ended=ended,
                    tt=float(sim.beamtim.tt_curr), Q=[float(q) for q in ch.Q / ch.Qm])


def run(plan, emit):
    with proc.Scratch() as top:
        r = proc.raise_if_bad(proc.incarnation(_life, (plan, top)), "run with charging surfaces")
    m = plan["c"]["mats"]["chm.mat"]
    return dict(faults=r["fired"], probes={"impacts judged": r["judged"], "on charging segments": r["hits"], "on saturated segments": r["sat"],
                                           "on partly charged segments": r["part"]}, states=r["states"], sim_time=r["tt"], steps=r["steps"],
                nontrivial=r["judged"] >= 50 and r["hits"] > 0, sig=[common.feature_sig(plan["c"]), int(np.floor(np.log10(m["qscale"]))), m["tau"]],
                sample=dict(steps=r["steps"], judged=r["judged"], charging=r["hits"], saturated=r["sat"], end=r["ended"], level=[round(q, 3) for q in r["Q"]][:6]))


def shrink(plan):
    if plan["adv"]:
        yield dict(plan, adv=None)
    yield from common.shrink_key(plan)
