"""C08: cleaning and regeneration conserve the charge, keep to their limits and never invent particles."""
import copy

import numpy as np

from .. import cfg, common, drive, geom, proc, shadow, world
from ..proc import Violation

LEVEL = "exploration"
TIERS = {"quick": dict(runs=500, cap=60, shrink=60), "thorough": dict(runs=15000, cap=1500, shrink=180)}
RULE = ("a run builds a simulation and drives its macroparticle system through a random history of cleaning, soft, hard and asynchronous "
        "regeneration, additions and re-initialisations on random populations (empty, single, clustered, at the wall, with one dominant "
        "or one fast particle), partly with extreme random draws; each operation is judged on exact quantities, and repeated from the "
        "same population with fresh draws where only an average is conserved; non-trivial when a soft or hard regeneration took place; "
        "distinct by thresholds, grid and operation sequence")
STATES = "distinct (operation, population kind, macroparticles on a log scale, chamber, grid) combinations"
REAL = ["MP_system as built by BuildupSimulation for the drawn set-up, with its chamber", "compiled histogram kernels"]
STUB = common.STUB
ASSUMPTIONS = ["hard regeneration conserves the charge on average only: its mean over 24 repetitions is compared with a bound of 6 standard "
               "errors plus the documented cut of the histogram tails",
               "after hard regeneration every macroparticle lies within one regeneration cell of an old one in x, y, vx, vy and vz"]
REP = 24


def gen(r, tier):
    c = cfg.gen(r, clouds=r.choice([0, 0, 1]), em=False, cross=False, sec=False, small=True, regen="none", sey=0,
                lifetime=r.random() < .4)
    S = c["sim"]
    for k in "xy":
        S["N%s_regen" % k] = r.choice([21, 20, 51, 7, 52])
    for k in "xyz":
        S["Nv%s_regen" % k] = r.choice([21, 20, 51, 8])
    S["N_mp_regen"] = r.choice([20, 100, 300])
    S["N_mp_after_regen"] = r.choice([5, 15, S["N_mp_regen"] // 2])
    S["N_mp_regen_low"] = r.choice([2, 5, 10])
    S["N_mp_soft_regen"] = r.choice([10, 60, 200])
    S["N_mp_after_soft_regen"] = r.choice([2, 5, S["N_mp_soft_regen"] // 2])
    if r.random() < .7:
        S["N_mp_async_regen"] = r.choice([10, 60, 200])
        S["N_mp_after_async_regen"] = r.choice([3, S["N_mp_async_regen"] // 2])
    S["fact_clean"] = r.choice([1e-6, 1e-4, 0.3])
    S["regen_hist_cut"] = r.choice([1e-4, 1e-3, 0.02])
    S["N_mp_max"] = 5000
    ops = []
    for _ in range(r.choice([2, 4, 8])):
        o = r.choice(["soft", "soft", "hard", "hard", "async", "clean", "pop", "add", "cycle", "unif", "edens", "new"])
        ops.append([o, r.randrange(1 << 30), r.choice(["empty", "one", "few", "many", "many", "cluster", "wall", "fast", "heavy", "still"])])
    first = [["pop", r.randrange(1 << 30), r.choice(["many", "cluster", "wall", "fast", "heavy"])]] if r.random() < .75 else []
    return dict(c=c, ops=first + ops,
                adv=[r.randrange(1 << 30), .3, r.choice([1, 5, 100])] if r.random() < .3 else None)


def population(kind, seed, mp, c):
    u = np.random.RandomState(seed % (1 << 31))
    n = {"empty": 0, "one": 1, "few": u.randint(2, 12)}.get(kind, u.randint(20, 1200))
    M = c["mach"]
    lim = (M.get("x_aper") or 2.3e-2, M.get("y_aper") or 1.9e-2)
    x, y = np.zeros(0), np.zeros(0)
    while len(x) < n:
        if kind == "cluster":
            a, b = .3 * lim[0] + 1e-3 * u.randn(n), -.2 * lim[1] + 5e-4 * u.randn(n)
        elif kind == "wall":
            t = 2 * np.pi * u.rand(n)
            k = .5 + .5 * u.rand(n)
            a, b = k * lim[0] * np.cos(t), k * lim[1] * np.sin(t)
        else:
            a, b = lim[0] * (2 * u.rand(n) - 1), lim[1] * (2 * u.rand(n) - 1)
        ok = geom.outside_by(c, a, b) == 0
        x, y = np.concatenate((x, a[ok])), np.concatenate((y, b[ok]))
    x, y = x[:n], y[:n]
    v = (10. ** u.uniform(4, 7)) * u.randn(3, n) if kind != "still" else np.zeros((3, n))
    if kind == "fast" and n:
        v[:, 0] *= 100.
    w = mp.nel_mp_ref * 10. ** (u.uniform(-1, 1, n))
    w[u.rand(n) < .1] *= 1e-7
    if kind == "heavy" and n:
        w[0] = 1e4 * w.sum()
    d = dict(x_mp=x, y_mp=y, z_mp=1e-3 * u.randn(n), vx_mp=v[0], vy_mp=v[1], vz_mp=v[2], nel_mp=w, N_mp=n)
    d["t_last_impact"] = u.rand(n)
    return d


def rows(d):
    k = [d[a] for a in shadow.ARR[:6]]
    return np.array(k).T


class Judge:
    def __init__(self, c, adv):
        self.c, self.adv = c, adv
        self.done = {}

    def ck(self, cond, what, **k):
        if not cond:
            raise Violation(what, **{a: (float(b) if isinstance(b, (np.floating, float)) else b) for a, b in k.items()})

    def subset(self, b, a, scale=1.0, name=""):
        """Every macroparticle of a is one of b, in order, its charge multiplied by a common factor."""
        R = {}
        for i, row in enumerate(map(bytes, rows(b).astype(float))):
            R.setdefault(row, []).append(i)
        idx = []
        for row in map(bytes, rows(a).astype(float)):
            l = R.get(row)
            self.ck(l, "a macroparticle after the operation is none of those before", op=name)
            idx.append(l.pop(0))
        idx = np.array(idx, int)
        if len(idx):
            f = a["nel_mp"] / b["nel_mp"][idx]
            self.ck(np.all(np.abs(f - f[0]) <= 1e-9 * f[0]), "the operation changed the relative charges", op=name)
            if "tl" in a:
                self.ck(np.array_equal(a["tl"], b["tl"][idx]), "a surviving macroparticle got another time of last impact", op=name)
        return idx

    def clean(self, b, a, th, ref0):
        small = b["nel_mp"] < th
        keep = ~small
        self.ck(a["N"] == int(keep.sum()), "cleaning kept another number of macroparticles than those above threshold", kept=a["N"],
                expected=int(keep.sum()))
        for k in shadow.ARR:
            self.ck(np.array_equal(a[k], b[k][keep]), "cleaning changed a macroparticle", array=k)
        if "tl" in a:
            self.ck(np.array_equal(a["tl"], b["tl"][keep]), "cleaning mixed up the times of the last impact")
        self.ck(a["ref"] == (ref0 if a["N"] == 0 else b["ref"]), "cleaning changed the reference charge", ref=a["ref"])

    def soft(self, b, a, target, ref0):
        q0, q1 = b["nel_mp"].sum(), a["nel_mp"].sum()
        self.ck(a["N"] >= 1, "soft regeneration left no macroparticle", before=b["N"], target=target)
        self.ck(abs(q1 - q0) <= 1e-9 * q0, "soft regeneration changed the charge", before=q0, after=q1)
        self.subset(b, a, name="soft")
        self.ck(abs(a["ref"] - max(q0 / target, ref0)) <= 1e-9 * a["ref"], "soft regeneration set another reference charge", ref=a["ref"],
                expected=max(q0 / target, ref0))
        if not self.adv:
            self.ck(abs(a["N"] - target) <= 6 * np.sqrt(target) + 5, "soft regeneration missed its target number", N=a["N"], target=target)

    def hard(self, b, a, c, chamb):
        S = c["sim"]
        q0, q1 = b["nel_mp"].sum(), a["nel_mp"].sum()
        ref = max(q0 / S["N_mp_after_regen"], S["nel_mp_ref_0"])
        self.ck(abs(a["ref"] - ref) <= 1e-9 * ref, "regeneration set another reference charge", ref=a["ref"], expected=ref)
        self.ck(np.all(np.abs(a["nel_mp"] - ref) <= 1e-9 * ref), "a regenerated macroparticle has another charge than the reference")
        n = b["N"]
        tol = S["regen_hist_cut"] * q0 + ref * (6 * np.sqrt(n / 2.) + 4)
        if not self.adv:
            self.ck(abs(q1 - q0) <= tol, "regeneration changed the charge beyond its statistical error", before=q0, after=q1, error=tol)
        else:   # each cell is rounded up or down: bounded by one macroparticle per old macroparticle
            self.ck(abs(q1 - q0) <= S["regen_hist_cut"] * q0 + ref * n, "regeneration changed the charge beyond its rounding", before=q0, after=q1)
        if a["N"]:
            self.ck(np.all(geom.outside_by(c, a["x_mp"], a["y_mp"]) <= 1e-12), "a regenerated macroparticle is outside the chamber")
            if "tl" in a:
                self.ck(np.all(a["tl"] == -1), "a regenerated macroparticle has a time of last impact")
            xm = chamb.x_aper + 2 * S["Dx_hist"]
            cell = [2 * xm / (S["Nx_regen"] - 1), 2 * chamb.y_aper / (S["Ny_regen"] - 1)]
            for k in "xyz":
                vm = np.abs(b["v%s_mp" % k]).max()
                cell.append(2 * (vm if vm > 0 else 1e-5) / (S["Nv%s_regen" % k] - 1))
            ks = ("x_mp", "y_mp", "vx_mp", "vy_mp", "vz_mp")
            A = np.array([a[k] for k in ks]) / np.array(cell)[:, None]
            B = np.array([b[k] for k in ks]) / np.array(cell)[:, None]
            for i in range(a["N"]):
                d = np.abs(B - A[:, i:i + 1]).max(axis=0).min()
                self.ck(d <= 1.0 + 1e-6, "regeneration put a macroparticle where there was none", cells_away=d, x=a["x_mp"][i], y=a["y_mp"][i],
                        grid=[S["N%s_regen" % k] for k in ("x", "y", "vx", "vy", "vz")])


def _life(emit, plan, root):
    c = plan["c"]
    S = c["sim"]
    drive.prepare(c, root)
    with common.mkworld(root, None) as w:
        sim = drive.build(c, root)
        mp = sim.cloud_list[-1].MP_e
        chamb = sim.chamb
        states, done, mean = set(), {}, 0
        n = 0
        for k, (op, seed, kind) in enumerate(plan["ops"]):
            np.random.seed(seed)
            world.RNG_HOOK = world.adversarial_rng(plan["adv"][0] + k, *plan["adv"][1:]) if plan["adv"] else None
            J = Judge(c, plan["adv"])
            if op == "pop":
                mp.set_nel_mp_ref(S["nel_mp_ref_0"])
                mp.init_from_dict(population(kind, seed, mp, c))
            elif op == "add":
                b = shadow.take(mp)
                d = population(kind, seed, mp, c)
                if b["N"] + d["N_mp"] <= S["N_mp_max"]:
                    mp.add_from_file(d)
                    a = shadow.take(mp)
                    J.ck(shadow.same(b, a, b["N"]) is None and a["N"] == b["N"] + d["N_mp"], "adding macroparticles changed the existing ones")
            elif op in ("unif", "edens", "new"):
                more(op, seed, kind, mp, c, J)
            else:
                op_run(op, mp, c, chamb, J, states, done, kind)
            states.add("%s|%s|%d|%s|%s" % (op, kind, int(np.log2(mp.N_mp + 1)), c["mach"]["chamb_type"], [S["N%s_regen" % q] for q in ("x", "y", "vx")]))
            n += 1
            if plan["adv"]:
                for kk, v in world.RNG_HOOK.counts.items():
                    done[kk] = done.get(kk, 0) + v
            # averages
            if op in ("hard", "soft") and not plan["adv"] and mp.N_mp > 1 and seed % 3 == 0:
                mean += averages(op, mp, c, seed, kind, J)
        world.RNG_HOOK = None
        w.active = False
        return dict(states=sorted(states), done=done, n=n, mean=mean)


def more(op, seed, kind, mp, c, J):
    """The other ways to add macroparticles."""
    S = c["sim"]
    u = np.random.RandomState(seed)
    b = shadow.take(mp)
    if op == "new":
        d = population(kind, seed, mp, c)
        n = d["N_mp"]
        if b["N"] + n > S["N_mp_max"]:
            return
        mp.add_new_MPs(n, d["nel_mp"], d["x_mp"], d["y_mp"], d["z_mp"], d["vx_mp"], d["vy_mp"], d["vz_mp"], d["t_last_impact"])
    else:
        n = float(u.choice([0., .4, 3., 57.3]))
        lim = np.array([2e-3, 1.5e-3, 1e-3, 2e-3]) * (1 + u.rand(4))
        try:
            if op == "unif":
                mp.add_uniform_MP_distrib(n * mp.nel_mp_ref, 1., lim[0], -lim[1], lim[2], -lim[3])
            else:
                mp.add_uniform_ele_density(n * mp.nel_mp_ref / (lim[0] + lim[1]) / (lim[2] + lim[3]), 1., lim[0], -lim[1], lim[2], -lim[3])
        except ValueError as e:
            if "no room for" not in str(e) or b["N"] + n + 1 < S["N_mp_max"]:
                raise
            return
    a = shadow.take(mp)
    k = a["N"] - b["N"]
    J.ck(a["N"] <= S["N_mp_max"] and shadow.same(b, a, b["N"]) is None and a["ref"] == b["ref"], "adding macroparticles changed the existing ones", op=op)
    s = slice(b["N"], a["N"])
    if op == "new":
        J.ck(k == n and all(np.array_equal(a[q][s], d[q]) for q in shadow.ARR), "the macroparticles added are not those given", op=op)
        if "tl" in a:
            J.ck(np.array_equal(a["tl"][s], d["t_last_impact"]), "the macroparticles added have another time of the last impact", op=op)
    else:
        J.ck(np.floor(n * (1 - 1e-9)) <= k <= np.floor(n * (1 + 1e-9)) + 1, "another charge than requested was added", op=op, macroparticles=k, expected=n)
        J.ck(np.all(a["nel_mp"][s] == b["ref"]), "a macroparticle added does not have the reference charge", op=op)
        J.ck(np.all((a["x_mp"][s] <= lim[0]) & (a["x_mp"][s] >= -lim[1]) & (a["y_mp"][s] <= lim[2]) & (a["y_mp"][s] >= -lim[3])), "a macroparticle was added outside the requested region", op=op)
    dead = mp.nel_mp[mp.N_mp:]
    J.ck(not np.any(dead), "charge is left beyond the last macroparticle", op=op, charge=float(np.sum(dead)))


def would(op, mp, c):
    S = c["sim"]
    if op == "soft":
        return mp.N_mp > S["N_mp_soft_regen"]
    if op == "async":
        return S.get("N_mp_async_regen") is not None and mp.N_mp > S["N_mp_async_regen"]
    return mp.N_mp > S["N_mp_regen"] or (mp.N_mp < S["N_mp_regen_low"] and mp.nel_mp_ref > S["nel_mp_ref_0"])


def op_run(op, mp, c, chamb, J, states, done, kind):
    S = c["sim"]
    ref0 = S["nel_mp_ref_0"]

    def clean():
        b, th = shadow.take(mp), float(mp.nel_mp_cl_th)
        mp.clean_small_MPs()
        J.clean(b, shadow.take(mp), th, ref0)
        done["clean"] = done.get("clean", 0) + 1

    def idle(b):
        a = shadow.take(mp)
        J.ck(a["N"] == b["N"] and shadow.same(b, a) is None and a["ref"] == b["ref"], "a regeneration that is not due changed the macroparticles", op=op)

    if op in ("clean", "cycle") or op == "hard" and mp.N_mp == 0:       # an empty cloud is cleaned first, as in a time step
        clean()
    if op in ("hard", "cycle"):
        due, b = would("hard", mp, c), shadow.take(mp)
        mp.check_for_regeneration()
        if due and b["N"] and b["nel_mp"].sum() > 0:
            J.hard(b, shadow.take(mp), c, chamb)
            done["hard"] = done.get("hard", 0) + 1
        elif not due:
            idle(b)
    if op in ("soft", "cycle"):
        due, b = would("soft", mp, c), shadow.take(mp)
        mp.check_for_soft_regeneration()
        if due and b["nel_mp"].sum() > 0:
            J.soft(b, shadow.take(mp), S["N_mp_after_soft_regen"], ref0)
            done["soft"] = done.get("soft", 0) + 1
        elif not due:
            idle(b)
    if op in ("async", "cycle"):
        due, b, th = would("async", mp, c), shadow.take(mp), float(mp.nel_mp_cl_th)
        mp.check_for_async_regeneration()
        a = shadow.take(mp)
        if not due:
            idle(b)
        else:
            keep = b["nel_mp"] >= th
            b2 = {k: (v[keep] if isinstance(v, np.ndarray) else v) for k, v in b.items()}
            b2["N"] = int(keep.sum())
            if b2["N"] > S["N_mp_async_regen"]:
                J.soft(b2, a, S["N_mp_after_async_regen"], ref0)
                done["async"] = done.get("async", 0) + 1
            else:
                J.clean(b, a, th, ref0)


def averages(op, mp, c, seed, kind, J):
    """Repeats a regeneration of one population: what is conserved on average only."""
    S = c["sim"]
    mp.set_nel_mp_ref(S["nel_mp_ref_0"])
    d = population(kind if kind not in ("empty", "one", "few", "heavy") else "many", seed, mp, c)
    acc, m1 = [], []
    for k in range(REP):
        mp.set_nel_mp_ref(S["nel_mp_ref_0"])
        mp.init_from_dict(d)
        b = shadow.take(mp)
        if not would(op, mp, c):
            return 0
        np.random.seed((seed + 1000003 * k) % (1 << 32))
        getattr(mp, "check_for_%s" % ("regeneration" if op == "hard" else "soft_regeneration"))()
        a = shadow.take(mp)
        q = a["nel_mp"].sum()
        acc.append(q)
        m1.append([np.sum(a["nel_mp"] * a[v]) / q if q > 0 else 0. for v in ("x_mp", "y_mp", "vx_mp", "vy_mp", "vz_mp")])
    q0 = b["nel_mp"].sum()
    err = 6 * a["ref"] * np.sqrt(b["N"]) / 2. / np.sqrt(REP) if op == "hard" else 1e-9 * q0
    J.ck(abs(np.mean(acc) - q0) <= S["regen_hist_cut"] * q0 + err, "the mean charge after regeneration differs from the charge before", op=op,
         before=float(q0), mean=float(np.mean(acc)), error=float(err))
    cut = S["regen_hist_cut"]
    for j, v in enumerate(("x_mp", "y_mp", "vx_mp", "vy_mp", "vz_mp")):
        t = np.sum(b["nel_mp"] * b[v]) / q0
        s = np.std([x[j] for x in m1], ddof=1)
        top = np.abs(b[v]).max()
        cell = 0.
        if op == "hard":
            cell = max(top, 1e-5) * 2.2 / (S["N%s_regen" % v[:-3]] - 1)
        tol = 9 * s / np.sqrt(REP) + cell + 2 * cut * top + (0.02 * top if op == "soft" else 0)
        J.ck(abs(np.mean([x[j] for x in m1]) - t) <= tol, "regeneration moved the centre of the distribution", op=op, coordinate=v,
             before=float(t), mean=float(np.mean([x[j] for x in m1])), tolerance=float(tol))
    return 1


def run(plan, emit):
    with proc.Scratch() as top:
        r = proc.raise_if_bad(proc.incarnation(_life, (plan, top)), "regenerations")
    d = r["done"]
    S = plan["c"]["sim"]
    return dict(faults={k: v for k, v in d.items() if k.startswith("rng")}, probes=dict({k: v for k, v in d.items() if not k.startswith("rng")},
                                                                                        averages=r["mean"]),
                states=r["states"], sim_time=0., steps=r["n"], nontrivial=any(d.get(k) for k in ("soft", "hard", "async")),
                sig=[[o[0] + o[2] for o in plan["ops"]], S["N_mp_regen"], S["N_mp_soft_regen"], S.get("N_mp_async_regen")],
                sample=dict(ops=[o[0] + ":" + o[2] for o in plan["ops"]], done=d))


def shrink(plan):
    if plan["adv"]:
        yield dict(plan, adv=None)
        if plan["adv"][2] > 1:
            yield dict(plan, adv=plan["adv"][:2] + [1])
    for i in range(len(plan["ops"])):
        if len(plan["ops"]) > 1:
            yield dict(plan, ops=plan["ops"][:i] + plan["ops"][i + 1:])
    for i, (o, s, k) in enumerate(plan["ops"]):
        if k in ("many", "heavy", "fast", "wall", "cluster") and o in ("pop", "add"):
            yield dict(plan, ops=plan["ops"][:i] + [[o, s, "few"]] + plan["ops"][i + 1:])
    yield from common.shrink_key(plan)
