"""C07: no sequence of random draws produces an invalid macroparticle."""
import copy

import numpy as np

from .. import cfg, common, drive, geom, proc, shadow, world
from ..proc import Violation

LEVEL = "exploration"
TIERS = {"quick": dict(runs=400, cap=60, shrink=60), "thorough": dict(runs=12000, cap=1500, shrink=180)}
RULE = ("a run draws a set-up, stretched in intensity, step length, field and thresholds, and injects legal but extreme random draws "
        "(uniforms at and next to 0 and 1) at a seeded subset of calls; after wall, generation and cleaning of every step the "
        "macroparticles are judged by an independent inside test and for finiteness, and re-emitted ones must leave the wall; "
        "non-trivial when extreme draws were injected and at least 20 impacts happened; distinct by feature signature and stretch")
STATES = "distinct (feature signature, stretch, pass, macroparticles on a log scale) combinations"
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = common.ASSUME + ["only uniform draws are made extreme; normal, lognormal and Poisson draws come from the seeded generator",
                               "a simulation that runs out of declared macroparticles may end with an error"]


def gen(r, tier):
    c = cfg.gen(r, nonunif_t=.05)
    S, B, M, Y = c["sim"], c["beam"], c["mach"], c["sey"]
    x = r.choice(["none", "none", "beam", "low", "cap", "dense"])
    if x == "beam":
        B["fact_beam"] = r.choice([1e12, 5e12]) if B["flag_bunched_beam"] else B["fact_beam"] * 4
    elif x == "low":
        B["fact_beam"] = 1e9 if B["flag_bunched_beam"] else 0.01
        M["E_init_unif"] = r.choice([1e-6, 100.])
    elif x == "cap":
        S["N_mp_max"] = r.choice([320, 400, 700])
        S["N_mp_after_regen"] = min(S["N_mp_after_regen"], 160)
        for k in range(len(c["clouds"])):
            c["clouds"][k].pop("N_mp_max", None)
    elif x == "dense":
        M["Nel_init_unif"] = 2e10
        S["nel_mp_ref_0"] = 2e10 / 200
    return dict(c=c, x=x, env=common.gen_env(r), adv=[r.randrange(1 << 30), r.choice([.02, .2, .6]), r.choice([1, 4, 20])])


class Valid:
    def __init__(self, br, c):
        self.br, self.c, self.impacts, self.most, self.reemitted = br, c, 0, 0, 0

    def ok(self, i, d, where, charge=True):
        for k in shadow.ARR:
            if not np.all(np.isfinite(d[k])):
                q = int(np.argmin(np.isfinite(d[k])))
                raise Violation("a macroparticle is not finite", cloud=i, array=k, after=where, step=int(self.br.sim.beamtim.ii_curr),
                                value=repr(float(d[k][q])))
        if np.any(d["nel_mp"] < 0):
            raise Violation("a macroparticle has negative charge", cloud=i, after=where, step=int(self.br.sim.beamtim.ii_curr))
        mp = self.br.sim.cloud_list[i].MP_e
        if d["N"] > len(mp.x_mp) or d["N"] < 0:
            raise Violation("the population exceeds its declared capacity", cloud=i, after=where, N=d["N"])
        if not (np.isfinite(d["ref"]) and d["ref"] > 0):
            raise Violation("the reference macroparticle size is not positive", cloud=i, after=where, value=repr(d["ref"]))
        o = geom.outside_by(self.c, d["x_mp"], d["y_mp"])
        if np.any(o > 1e-12):
            q = int(np.argmax(o))
            raise Violation("a macroparticle is outside the chamber", cloud=i, after=where, step=int(self.br.sim.beamtim.ii_curr),
                            x=float(d["x_mp"][q]), y=float(d["y_mp"][q]), outside_by=float(o[q]), count=int((o > 1e-12).sum()))
        self.most = max(self.most, d["N"])

    def impact(self, e):
        self.impacts += e.n
        self.ok(e.i, e.after, "wall interaction")
        if e.n:
            out = e.before["vx_mp"][e.mask] * e.nx + e.before["vy_mp"][e.mask] * e.ny
            n = e.before["N"]
            vr = e.after["vx_mp"][:n][e.mask] * e.nx + e.after["vy_mp"][:n][e.mask] * e.ny
            sp = np.sqrt(e.after["vx_mp"][:n][e.mask] ** 2 + e.after["vy_mp"][:n][e.mask] ** 2)
            bad = (e.nrep > 0) & (out < 0) & (vr < -1e-9 * sp)
            vn = e.after["vx_mp"][e.new] * e.nx[e.parent] + e.after["vy_mp"][e.new] * e.ny[e.parent]
            sn = np.hypot(e.after["vx_mp"][e.new], e.after["vy_mp"][e.new])
            self.reemitted += int((e.nrep > 0).sum()) + len(vn)
            if bad.any() or np.any(vn < -1e-9 * sn):
                raise Violation("an emitted macroparticle moves into the wall", cloud=e.i, step=int(self.br.sim.beamtim.ii_curr),
                                replaced=int(bad.sum()), added=int((vn < -1e-9 * sn).sum()))

    def primary(self, i, kind, gen, b, a, args, kw):
        self.ok(i, a, kind + " generation")

    def cross(self, ci, b, a, dt):
        for i in range(len(a)):
            self.ok(i, a[i], "cross-ionization")

    def cleaned(self, b, a, th):
        for i in range(len(a)):
            self.ok(i, a[i], "cleaning and regeneration")


def _life(emit, plan, root):
    c = plan["c"]
    drive.prepare(c, root)
    with common.mkworld(root, plan["env"]) as w:
        world.RNG_HOOK = world.adversarial_rng(*plan["adv"]) if plan["adv"] else None
        steps, states, ended = 0, set(), "end"
        fs = common.feature_sig(c)
        sim = drive.build(c, root)
        br = shadow.Bracket(sim)
        val = Valid(br, c)
        for i, cl in enumerate(sim.cloud_list):
            val.ok(i, shadow.take(cl.MP_e), "construction")
        br.listeners.append(val)
        try:
            while drive.step(sim):
                steps += 1
                sc = sim.spacech_ele
                for k, v in drive.field_arrays(sim).items():
                    if not np.all(np.isfinite(v)):
                        raise Violation("the field of the clouds is not finite", array=k, step=int(sim.beamtim.ii_curr))
                for i, cl in enumerate(sim.cloud_list):
                    val.ok(i, shadow.take(cl.MP_e), "the time step")
                states.add("%s|%s|%d|%s" % (fs, plan["x"], sim.beamtim.pass_numb, [int(np.log2(cl.MP_e.N_mp + 1)) for cl in sim.cloud_list]))
        except ValueError as e:
            # reported exhaustion of the declared capacity is a legal end
            if "N_mp_max" not in str(e) or val.most < 0.3 * c["sim"]["N_mp_max"]:
                raise
            ended = "capacity"
        br.close()
        w.active = False
        common.check_escapes(w)
        fired = dict(w.fired)
        if plan["adv"]:
            for k, v in world.RNG_HOOK.counts.items():
                fired[k] = fired.get(k, 0) + v
        return dict(steps=steps, states=sorted(states), impacts=val.impacts, re=val.reemitted, fired=fired, ended=ended, most=val.most,
                    tt=float(sim.beamtim.tt_curr))


def run(plan, emit):
    with proc.Scratch() as top:
        r = proc.raise_if_bad(proc.incarnation(_life, (plan, top)), "run with extreme draws")
    return dict(faults=r["fired"], probes={"impacts": r["impacts"], "re-emitted": r["re"], "ended by capacity": int(r["ended"] == "capacity")},
                states=r["states"], sim_time=r["tt"], steps=r["steps"], nontrivial=r["impacts"] >= 20 and sum(r["fired"].get(k, 0) for k in
                                                                                                           ("rng.lo", "rng.hi")) > 0,
                sig=[common.feature_sig(plan["c"]), plan["x"]], sample=dict(steps=r["steps"], impacts=r["impacts"], most=r["most"], end=r["ended"]))


def shrink(plan):
    if plan["adv"]:
        yield dict(plan, adv=None)
        if plan["adv"][2] > 1:
            yield dict(plan, adv=plan["adv"][:2] + [1])
    yield from common.shrink_key(plan)
