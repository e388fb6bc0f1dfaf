"""C06: a ledger of the charge and energy of every cloud balances at every step and agrees with every record of it."""
import copy
import os

import numpy as np

from .. import cfg, common, drive, proc, shadow, world
from ..proc import Violation

LEVEL = "exploration"
TIERS = {"quick": dict(runs=400, cap=60, shrink=60), "thorough": dict(runs=12000, cap=1500, shrink=180)}
RULE = ("a run draws a set-up with wall interaction (all surface models, chambers, species, primaries, cross-ionization, cleaning and "
        "regeneration), partly with extreme random draws; a ledger brackets motion, wall, generation, saving and cleaning of every "
        "step and every cloud, and the sums in the output files are compared with its totals; non-trivial when at least 20 impacts "
        "and one emission were booked; distinct by feature signature and booked kinds")
STATES = "distinct (feature signature, pass, impacts / emitted / cleaned / added on a log scale) combinations"
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = common.ASSUME + ["the impact point and the yield at given energy and angle are those of the chamber and surface model "
                               "(asked on private copies); charging surfaces are decided by C22"]


def gen(r, tier):
    c = cfg.gen(r, nonunif_t=.08, primaries=r.choice([None, None, "gas", "photo", "both"]))
    if r.random() < .5 and c["beam"]["flag_bunched_beam"]:
        c["beam"]["fact_beam"] = r.choice([1e11, 4e11])
    S = c["sim"]
    if r.random() < .4:     # frequent cleaning, low thresholds
        S["fact_clean"] = r.choice([0.3, 0.7, 0.95])
    return dict(c=c, env=common.gen_env(r), adv=[r.randrange(1 << 30), r.choice([.05, .3]), r.choice([1, 3])] if r.random() < .4 else None)


def _life(emit, plan, root):
    c = plan["c"]
    drive.prepare(c, root)
    with common.mkworld(root, plan["env"]) as w:
        if plan["adv"]:
            world.RNG_HOOK = world.adversarial_rng(*plan["adv"])
        sim = drive.build(c, root)
        br = shadow.Bracket(sim)
        led = shadow.Ledger(br, c)
        br.listeners.append(led)
        outs = drive.outputs(c)
        steps, states = 0, set()
        fs = common.feature_sig(c)
        while drive.step(sim):
            steps += 1
            if sim.beamtim.flag_new_bunch_pass:
                for i, f in enumerate(outs):
                    _identities(led, i, drive.load_mat(os.path.join(root, f)), c)
            t = led.tot[0]
            states.add("%s|%d|%s" % (fs, sim.beamtim.pass_numb, [int(np.log2(t[k] + 1)) for k in ("imp", "emit", "prim", "cross")]))
        br.close()
        w.active = False
        common.check_escapes(w)
        fired = dict(w.fired)
        if plan["adv"]:
            for k, v in world.RNG_HOOK.counts.items():
                fired[k] = fired.get(k, 0) + v
        return dict(steps=steps, states=sorted(states), tot=led.tot, fired=fired, tt=float(sim.beamtim.tt_curr), sey=led.sey_checked,
                    new=led.max_new)


def _identities(led, i, o, c):
    """Sums of the records in an output file against the ledger."""
    t, s = led.tot[i], led.steps[i]
    S = c["sim"]

    def eq(what, got, exp, scale):
        if not abs(got - exp) <= 1e-8 * abs(exp) + 1e-9 * scale:
            raise Violation("the sum of a record differs from the charge or energy that went through the wall", record=what, cloud=i,
                            recorded=float(got), expected=float(exp))
    # totals up to the pass of this file (nothing of the current step is missing: it was booked before saving)
    eq("nel_impact_hist_tot", o["nel_impact_hist_tot"].sum(), t["imp"], t["imp"])
    eq("energ_eV_impact_hist", o["energ_eV_impact_hist"].sum(), t["Eimp"] - t["Eemit"], t["Eimp"] + t["Eemit"])
    if np.any(o["nel_impact_hist_scrub"] > o["nel_impact_hist_tot"] * (1 + 1e-9) + 1e-6):
        raise Violation("more scrubbing charge than charge recorded", cloud=i)
    if "nel_hist_impact_seg" in o and o["nel_hist_impact_seg"].size > 1:
        eq("nel_hist_impact_seg", o["nel_hist_impact_seg"].sum(), t["imp"], t["imp"])
        eq("nel_hist_emit_seg", o["nel_hist_emit_seg"].sum(), t["emit"], t["emit"])
        eq("energ_eV_impact_seg", o["energ_eV_impact_seg"].sum(), t["Eimp"] - t["Eemit"], t["Eimp"] + t["Eemit"])
    # time series: every sample covers the steps since the last one
    tr = o["t"].ravel()
    ts = np.array(s["t"])
    idx = np.searchsorted(ts, tr * (1 - 1e-12) - 1e-18)
    if np.any(idx >= len(ts)) or np.any(np.abs(ts[idx] - tr) > 1e-9 * np.abs(tr)):
        raise Violation("a recorded instant is no time step", cloud=i)
    for k, b in (("Nel_imp_time", "imp"), ("Nel_emit_time", "emit")):
        cum = np.concatenate(([0.], np.cumsum(s[b])))
        exp = cum[idx + 1]
        got = np.cumsum(o[k].ravel())
        bad = np.abs(got - exp) > 1e-8 * np.abs(exp) + 1e-9 * max(cum[-1], 1e-300)
        if bad.any():
            q = int(np.argmax(bad))
            raise Violation("the charge recorded up to a sample is not the charge that went through the wall until then", record=k, cloud=i,
                            sample=q, recorded=float(got[q]), expected=float(exp[q]))
    q = np.array(s["q"])[idx]
    if np.any(np.abs(o["Nel_timep"].ravel() - q) > 1e-9 * np.abs(q)):
        raise Violation("the recorded charge is not the charge in the chamber", cloud=i)
    # histograms with their own period
    for k, tk in (("En_hist", "t_En_hist"), ("cos_angle_hist", "t_En_hist"), ("En_hist_seg", "t_En_hist")):
        if k not in o or o[k].size <= 1 or (k == "En_hist_seg" and not S.get("flag_En_hist_seg")) or \
                (k == "cos_angle_hist" and not S.get("flag_cos_angle_hist")):
            continue
        th = o[tk].ravel()
        last = int(np.searchsorted(ts, th[-1] * (1 - 1e-12) - 1e-18))
        exp = float(np.sum(s["imp"][:last + 1]))
        got = o[k].sum()
        eq(k, got, exp, exp)
    if S.get("flag_lifetime_hist") and "lifetime_hist" in o:
        if o["lifetime_hist"].sum() > t["lifetime"] * (1 + 1e-9) + 1e-6:
            raise Violation("more charge in the lifetime histograms than impacts with a known start", cloud=i,
                            recorded=float(o["lifetime_hist"].sum()), expected=t["lifetime"])


def run(plan, emit):
    with proc.Scratch() as top:
        r = proc.raise_if_bad(proc.incarnation(_life, (plan, top)), "ledger run")
    ev = sum(t["events"] for t in r["tot"])
    kinds = [k for k in ("imp", "emit", "prim", "cross", "lifetime") if any(t[k] > 0 for t in r["tot"])]
    return dict(faults=r["fired"], probes={"impacts booked": ev, "yields recomputed": r["sey"]}, states=r["states"], sim_time=r["tt"],
                steps=r["steps"], nontrivial=ev >= 20 and "emit" in kinds, sig=[common.feature_sig(plan["c"]), kinds],
                sample=dict(steps=r["steps"], impacts=ev, kinds=kinds))


def shrink(plan):
    if plan["adv"]:
        yield dict(plan, adv=None)
    yield from common.shrink_key(plan)
