"""C18: ionization of the residual gas by clouds: the right charge of every product, at the right place."""
import copy
import os

import numpy as np

from .. import cfg, common, drive, proc, shadow, world
from ..proc import Violation
from .c20 import bernstein

LEVEL = "exploration"
TIERS = {"quick": dict(runs=260, cap=60, shrink=60), "thorough": dict(runs=8000, cap=1200, shrink=180)}
RULE = ("a run draws a set-up with 2-4 species, 1-3 ionization processes (projectiles electrons and ions, shared products, products that ionize themselves, linear and "
        "logarithmic cross sections, equal and separate generation), partly extreme random draws; around the ionization of every step the particles of all clouds are compared "
        "with an independent computation from the cross section, target density and step length; the same components are then driven with longer steps on scratch copies; "
        "non-trivial when at least 20 product macroparticles were generated; distinct by feature signature, processes and densities")
STATES = "distinct (features, processes, product, expected number on a log scale, rounding direction) reached"
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = common.ASSUME + ["the target is never exhausted within one step (its number per metre exceeds the ionizations of a step)",
                               "the cross section of the input file is linear between its points on the axis in which they are equally spaced, zero outside; "
                               "relative differences below 2e-4 from the rounding of the axis step are accepted"]
QE = cfg.QE


def xs(r, ion):
    """A cross-section table: (energies, cm2)."""
    log = r.random() < .5
    lo, hi = (1e-3, 300.) if ion else (r.choice([5., 10.]), r.choice([2000., 15000.]))
    n = r.choice([20, 200])
    e = np.logspace(np.log10(lo), np.log10(hi), n) if log else np.arange(n) * round((hi - lo) / n, 4) + lo
    s = 10 ** r.uniform(-16, -15) * (np.exp(-(np.log10(e) - r.uniform(1., 2.5)) ** 2) + (r.random() < .3) * .3 * (np.arange(n) % 2))
    return dict(kind="raw", data=dict(energy_eV=[float(x) for x in e], cross_section_cm2=[float(x) for x in s]))


def gen(r, tier):
    nc = r.choice([1, 1, 2, 3])
    c = cfg.gen(r, clouds=1, cross=True, small=r.random() < .6, sec=False, regen=r.choice(["none", "soft", "hard"]), nonunif_t=.1, primaries=r.choice(["none", "none", "gas"]))
    S = c["sim"]
    proto = c["clouds"][0]
    c["clouds"] = []
    for k in range(nc):
        cl = copy.deepcopy(proto)
        el = k > 0 and r.random() < .3
        cl.update(_name="%s%d" % ("el" if el else "ion", k), Nel_init_unif=r.choice([0, 5e7, 1e8]), E_init_unif=r.choice([.01, 5.]))
        if not cl["Nel_init_unif"]:
            cl["init_unif_flag"] = 0
        if el:
            cl.update(cloud_mass=cfg.ME, cloud_charge=-QE, switch_model=0)
        else:
            cl["cloud_mass"] = r.choice([2., 28., 44.]) * 1.66053906660e-27
        if r.random() < .5:
            cl["nel_mp_ref_0"] = r.choice([2e8, 2e7]) / r.choice([100, 700])
        c["clouds"].append(cl)
    names = ["electron"] + [cl["_name"] for cl in c["clouds"]]
    c["mats"].pop("xs.mat", None)
    D = {}
    rare = r.random() < .25     # so rarefied that the calls with long steps use up a part of the target
    for k in range(r.choice([1, 1, 2, 3])):
        p = "electron" if r.random() < .7 else r.choice(names)
        ion = p.startswith("ion")
        prods = r.sample(names, r.choice([1, 1, 2, min(3, len(names))]))
        c["mats"]["xs%d.mat" % k] = xs(r, ion)
        light = [q for q in prods if not q.startswith("ion")]
        D.setdefault(p, {})["proc%d" % k] = dict(products=prods, cross_section="@/xs%d.mat" % k, target_density=r.choice([1e11, 1e12]) if rare else r.choice([1e18, 3e19, 1e21] + ([] if light else [1e22])),
                                                 E_eV_init=r.choice([.02, 0., 3.]), extract_sigma=False, generate_equally=r.random() < .5)
    S["cross_ion_definitions"] = D
    S["dec_fact_out"] = r.choice([1, 1, 2, 5])
    return dict(c=c, env=common.gen_env(r), bench=12 if rare else r.choice([0, 2, 6]), adv=[r.randrange(1 << 30), r.choice([.02, .2]), r.choice([1, 4])] if r.random() < .3 else None,
                extract=r.random() < (.02 if tier == "quick" else .01))


class Cross:
    def __init__(self, br, c, adv):
        self.br, self.c, self.adv = br, c, adv
        self.names = ["electron"] + [cl["_name"] for cl in c["clouds"]]
        self.last = [None] * len(self.names)
        S = c["sim"]
        self.proc = []
        area = float(br.sim.chamb.area)
        for p, d in S["cross_ion_definitions"].items():
            for k, v in d.items():
                t = c["mats"][v["cross_section"][2:]]["data"]
                e, s = np.array(t["energy_eV"]), np.array(t["cross_section_cm2"])
                log = not np.allclose(np.diff(e), e[1] - e[0], rtol=1e-5, atol=0)
                self.proc.append(dict(v, proj=self.names.index(p), prods=[self.names.index(q) for q in v["products"]], e=e, s=s, log=log, dens=v["target_density"],
                                      n=v["target_density"] * area, area=area, name=k))
        self.made = self.bench = 0
        self.S, self.V, self.T = {}, {}, {}
        self.states = set()
        self.fs = common.feature_sig(c)
        self.per = []       # one entry per step: tt, per cloud [DN, N, nel]

    def fail(self, what, **k):
        bt = self.br.sim.beamtim
        raise Violation(what, step=int(bt.ii_curr), t=float(bt.tt_curr), **k)

    def impact(self, e):
        self.last[e.i] = e.after

    def primary(self, i, kind, g, b, a, args, kw):
        self.last[i] = a

    def before_save(self, i):
        if self.last[0] is None:
            return
        before, self.last = self.last, [None] * len(self.names)
        bt = self.br.sim.beamtim
        ii = int(bt.ii_curr)
        dt = float(bt.t[ii + 1] - bt.t[ii])
        after = [shadow.take(cl.MP_e) for cl in self.br.sim.cloud_list]
        self.per.append((float(bt.t[ii]), self.account(before, after, dt, self.proc, self.S, self.V, self.T)))

    def dn(self, p, b):
        m = float(self.br.sim.cloud_list[p["proj"]].MP_e.mass)
        v = np.sqrt(b["vx_mp"] ** 2 + b["vy_mp"] ** 2 + b["vz_mp"] ** 2)
        E = .5 * m / QE * v ** 2
        x, t = (np.log10(np.maximum(E, 1e-300)), np.log10(p["e"])) if p["log"] else (E, p["e"])
        edge = (np.abs(E / p["e"][0] - 1) < 1e-9) | (np.abs(E / p["e"][-1] - 1) < 1e-9)
        s = np.interp(x, t, p["s"], left=0., right=0.)
        # the axis step is rounded: a point may lie a little further along the table
        k = np.clip(np.searchsorted(t, x) - 1, 0, len(t) - 2)
        slope = np.abs(p["s"][k + 1] - p["s"][k])
        h = np.abs(t[1] - t[0])
        sl = slope * (1e-8 * len(t) / h + 1e-7) + 1e-6 * s
        sl[(E < p["e"][0]) | (E > p["e"][-1])] = 0.
        sl = np.where(edge, np.maximum(p["s"][0], p["s"][-1]), sl)
        f = 1e-4 * v * b["nel_mp"]
        return s * f, sl * f

    def account(self, before, after, dt, procs, S, V, T, bench=False):
        n = len(self.names)
        for i in range(n):
            b, a = before[i], after[i]
            if a["N"] < b["N"] or shadow.same(b, {q: (x[:b["N"]] if isinstance(x, np.ndarray) else x) for q, x in a.items()}, b["N"]) or a["ref"] != b["ref"]:
                self.fail("ionization changes macroparticles that were there before", cloud=self.names[i])
        rec = [[0., 0, 0., 0.] for _ in range(n)]
        exp = [[] for _ in range(n)]       # per product: (process, per-projectile numbers, slack)
        for p in procs:
            b = before[p["proj"]]
            if not b["N"]:
                continue
            d, sl = self.dn(p, b)
            d, sl = d * p["dens"] * dt, sl * p["dens"] * dt
            p["n"] -= float(d.sum())
            p["slack"] = p.get("slack", 0.) + float(sl.sum()) + 1e-3
            p["dens"] = p["n"] / p["area"]
            ref = np.mean([before[i]["ref"] for i in p["prods"]])
            for i in p["prods"]:
                r = ref if p["generate_equally"] else before[i]["ref"]
                exp[i].append((p, d / r, (sl + 1e-3 * d * p["slack"] / max(p["n"], 1.)) / r + 1e-12, r))
                rec[i][0] += float(d.sum())
                rec[i][3] += float(sl.sum())
        for i in range(n):
            b, a = before[i], after[i]
            new = slice(b["N"], a["N"])
            k = a["N"] - b["N"]
            rec[i][1], rec[i][2] = k, float(a["nel_mp"][new].sum())
            if not bench:
                self.made += k
            x, y, z, nel = (a[q][new] for q in ("x_mp", "y_mp", "z_mp", "nel_mp"))
            if k:
                if not exp[i]:
                    self.fail("macroparticles appear that no process produces", cloud=self.names[i], number=k)
                # each new particle belongs to a projectile of a process that may have produced it
                keys = {}
                for q, (p, f, sl, r) in enumerate(exp[i]):
                    pb = before[p["proj"]]
                    for j in np.flatnonzero(f + sl > 0):
                        keys.setdefault((pb["x_mp"][j], pb["y_mp"][j], pb["z_mp"][j]), []).append((q, j))
                cnt = {}
                for q in zip(x, y, z, nel):
                    h = keys.get(q[:3])
                    if h is None:
                        self.fail("a product does not start at the place of an ionizing particle", cloud=self.names[i], x=float(q[0]), y=float(q[1]))
                    m = [w for w in h if abs(exp[i][w[0]][3] - q[3]) <= 1e-9 * q[3]]
                    if not m:
                        self.fail("a product has another size than its process gives it", cloud=self.names[i], size=float(q[3]))
                    cnt[tuple(m)] = cnt.get(tuple(m), 0) + 1
                m = float(self.br.sim.cloud_list[i].MP_e.mass)
                v0 = max(np.sqrt(2 * p["E_eV_init"] / 3 * QE / m) for p, *_ in exp[i])
                for q in ("vx_mp", "vy_mp", "vz_mp"):
                    if not np.all(np.abs(a[q][new]) <= v0 / 2 * (1 + 1e-9)):
                        self.fail("a product is faster than requested", cloud=self.names[i])
                if self.adv is None and all(p["E_eV_init"] > 0 for p, *_ in exp[i]) and np.any((a["vx_mp"][new] == 0) & (a["vy_mp"][new] == 0)):
                    self.fail("a product has no energy", cloud=self.names[i])
                if "tl" in a and np.any(a["tl"][new] > 0):
                    self.fail("a product has hit the wall before it was created", cloud=self.names[i])
                if self.adv is None:
                    for q in ("vx_mp", "vy_mp", "vz_mp"):
                        T.setdefault((i, q), []).append((float(a[q][new].sum()), k * v0 * v0 / 4))
                for m, g in cnt.items():
                    hi = sum(np.floor(exp[i][q][1][j] + exp[i][q][2][j]) + 1 for q, j in m)
                    if g > hi:
                        self.fail("a particle ionizes more than its cross section gives", cloud=self.names[i], products=g, expected=[float(exp[i][q][1][j]) for q, j in m])
            else:
                cnt = {}
            if exp[i]:
                f = np.concatenate([e[1] for e in exp[i]])
                sl = np.concatenate([e[2] for e in exp[i]])
                if k < np.sum(np.floor(np.maximum(f - sl, 0.))):
                    self.fail("the particles ionize less than their cross section gives", cloud=self.names[i], products=k, expected=float(f.sum()))
                fr = f - np.floor(f)
                S[i] = S.get(i, 0.) + k - f.sum()
                V[i] = V.get(i, 0.) + float(np.sum(fr * (1 - fr)))
                T[i] = T.get(i, 0.) + float(sl.sum())
                if all(e[0]["generate_equally"] for e in exp[i]) and len(exp[i]) == 1:
                    p = exp[i][0][0]
                    o = [after[j]["N"] - before[j]["N"] for j in p["prods"] if len(exp[j]) == 1]
                    if len(set(o)) > 1:
                        self.fail("a process that generates its products equally does not", numbers=o)
                if self.adv is None and not bernstein(max(abs(S[i]) - T[i] - 1e-6, 0.), V[i]):
                    self.fail("the charge of a product is not the one its processes give", cloud=self.names[i], excess=float(S[i]), variance=V[i], bench=bench)
                if self.adv is None:
                    for q in ("vx_mp", "vy_mp", "vz_mp"):
                        w = T.get((i, q))
                        if w and abs(sum(g[0] for g in w)) > np.sqrt(60 * sum(g[1] for g in w)) + 20 * max(g[1] for g in w) ** .5:
                            self.fail("products drift", cloud=self.names[i], component=q)
                self.states.add("%s|%d|%d|%d|%d" % (self.fs, len(exp[i]), i, int(np.log2(f.sum() + 1e-6)), k > f.sum()))
        return rec

    # ---- the same component with longer steps, on scratch copies
    def repeat(self, k):
        sim = self.br.sim
        ci = copy.deepcopy(sim.cross_ion)
        procs = [dict(p) for p in self.proc]
        clouds = []
        for cl in sim.cloud_list:
            q = copy.copy(cl)
            mp = q.MP_e = copy.copy(cl.MP_e)
            for a in drive.MP_ARR:
                setattr(mp, a, getattr(cl.MP_e, a).copy())
            if hasattr(mp, "t_last_impact"):
                mp.t_last_impact = mp.t_last_impact.copy()
            mp.N_mp = min(mp.N_mp, 40)
            clouds.append(q)
        S, V, T = {}, {}, {}
        for _ in range(k):
            before = [shadow.take(q.MP_e) for q in clouds]
            tot = 0.
            for p in procs:
                b = before[p["proj"]]
                if b["N"]:
                    tot = max(tot, float(self.dn(p, b)[0].sum()) * p["dens"] / min(before[i]["ref"] for i in p["prods"]))
            if tot == 0:
                return
            dt = 30. / tot
            if any(float(self.dn(p, before[p["proj"]])[0].sum()) * p["dens"] * dt > .5 * p["n"] for p in procs if before[p["proj"]]["N"]):
                return
            ci.generate(Dt=dt, cloud_list=clouds)
            self.account(before, [shadow.take(q.MP_e) for q in clouds], dt, procs, S, V, T, bench=True)
            self.bench += 1

    def files(self, root):
        n = 0
        for i, f in enumerate(drive.outputs(self.c)):
            p = os.path.join(root, f)
            if not os.path.exists(p):
                continue
            d = drive.load_mat(p)
            if not any(k in d for k in ("Nel_cross_ion", "N_mp_cross_ion", "DN_cross_ion")):
                raise Violation("the output of a simulation with cross-ionization does not record it", cloud=self.names[i])
            t = d["t"].ravel()
            tt = np.array([q[0] for q in self.per])
            k = np.searchsorted(t, tt - 1e-9 * np.diff(tt).min())
            ok = k < len(t)
            for key, j in (("DN_cross_ion", 0), ("N_mp_cross_ion", 1), ("Nel_cross_ion", 2)):
                v = np.array([q[1][i][j] for q in self.per])
                e = np.bincount(k[ok], weights=v[ok], minlength=len(t))
                tol = np.bincount(k[ok], weights=np.array([q[1][i][3] for q in self.per])[ok], minlength=len(t)) if j == 0 else 0.
                g = d[key].ravel()
                scale = 1e-3 if j == 0 else 1e-9
                if len(g) != len(e) or np.any(np.abs(g - e) > scale * np.abs(e) + tol + 1e-9):
                    w = int(np.argmax(np.abs(g - e) - scale * np.abs(e))) if len(g) == len(e) else -1
                    raise Violation("recorded ionization differs from what happened", cloud=self.names[i], variable=key, sample=w,
                                    recorded=float(g[w]), expected=float(e[w]))
                n += 1
        return n


def extraction(c, root, sim, names):
    """The extracted curves: the interpolated one is the input, the sampled ones agree with it."""
    n = 0
    for p, d in c["sim"]["cross_ion_definitions"].items():
        for k, v in d.items():
            f = os.path.join(root, v["cross_section"][2:-4] + "_extracted.mat")
            if not os.path.exists(f):
                raise Violation("the extracted cross section is missing", process=k)
            m = drive.load_mat(f)
            t = c["mats"][v["cross_section"][2:]]["data"]
            e, s = np.array(t["energy_eV"]), np.array(t["cross_section_cm2"])
            x = m["energy_eV"].ravel()
            log = not np.allclose(np.diff(e), e[1] - e[0], rtol=1e-5, atol=0)
            ref = np.interp(np.log10(x), np.log10(e), s, left=0, right=0) if log else np.interp(x, e, s, left=0, right=0)
            if np.any(np.abs(m["sigma_cm2_interp"].ravel() - ref) > 1e-3 * s.max()):
                raise Violation("the extracted cross section is not the one of the input", process=k)
            cl = {q: c_.MP_e for q, c_ in zip(names, sim.cloud_list)}
            mass, nel = cl[p].mass, cl[p].nel_mp_ref
            vel = np.sqrt(2 * x * QE / mass)
            mean = np.mean([cl[q].nel_mp_ref for q in v["products"]])
            for q in v["products"]:
                r = mean if v["generate_equally"] else cl[q].nel_mp_ref
                unit = v["target_density"] * vel * 25e-11 * nel / r * 1e-4       # macroparticles per projectile and cm2
                got = m["sigma_cm2_sampled_%s" % q].ravel() * unit * 10000
                f = ref * unit
                fr = f - np.floor(f)
                V = 10000 * fr * (1 - fr)
                if np.any(np.abs(got - 10000 * f) > np.sqrt(2 * V * 36) + 24 + 10000 * 1e-3 * s.max() * unit):
                    raise Violation("the sampled cross section is not the one of the input", process=k, product=q)
                n += 1
    return n


def _life(emit, plan, root):
    c = plan["c"]
    if plan["extract"]:
        c = copy.deepcopy(c)
        for d in c["sim"]["cross_ion_definitions"].values():
            for v in d.values():
                v["extract_sigma"] = True
    drive.prepare(c, root)
    with common.mkworld(root, plan["env"]) as w:
        sim = drive.build(c, root)
        ext = extraction(c, root, sim, ["electron"] + [k["_name"] for k in c["clouds"]]) if plan["extract"] else 0
        if plan["adv"]:
            world.RNG_HOOK = world.adversarial_rng(*plan["adv"])
        br = shadow.Bracket(sim)
        cr = Cross(br, c, plan["adv"])
        br.listeners.append(cr)
        steps = 0
        while drive.step(sim):
            steps += 1
            if max(cl.MP_e.N_mp for cl in sim.cloud_list) > 8000:
                break
            if plan["bench"] and steps in (3, 25, 45):
                cr.repeat(plan["bench"])
        br.close()
        w.active = False
        common.check_escapes(w)
        nf = cr.files(root)
        fired = dict(w.fired)
        if plan["adv"]:
            for k, v in world.RNG_HOOK.counts.items():
                fired[k] = fired.get(k, 0) + v
        return dict(made=cr.made, bench=cr.bench, files=nf, ext=ext, states=sorted(cr.states), steps=steps, fired=fired, tt=float(sim.beamtim.tt_curr))


def run(plan, emit):
    with proc.Scratch() as top:
        r = proc.raise_if_bad(proc.incarnation(_life, (plan, top)), "simulation with ionization by clouds")
    D = plan["c"]["sim"]["cross_ion_definitions"]
    return dict(faults=r["fired"], probes={"products": r["made"], "bench calls": r["bench"], "recorded variables compared": r["files"], "extracted curves": r["ext"]},
                states=r["states"], sim_time=r["tt"], steps=r["steps"], nontrivial=r["made"] >= 20 or r["bench"] > 0,
                sig=[common.feature_sig(plan["c"]), [[p, k, v["products"], v["target_density"]] for p, d in sorted(D.items()) for k, v in sorted(d.items())]],
                sample=dict(steps=r["steps"], products=r["made"], bench=r["bench"]))


def shrink(plan):
    if plan["adv"]:
        yield dict(plan, adv=None)
    if plan["extract"]:
        yield dict(plan, extract=False)
    if plan["bench"]:
        yield dict(plan, bench=0)
    D = plan["c"]["sim"]["cross_ion_definitions"]
    for p in D:
        for k in D[p]:
            if sum(len(d) for d in D.values()) > 1:
                q = copy.deepcopy(plan)
                E = q["c"]["sim"]["cross_ion_definitions"]
                del E[p][k]
                if not E[p]:
                    del E[p]
                yield q
            if len(D[p][k]["products"]) > 1:
                for x in D[p][k]["products"]:
                    q = copy.deepcopy(plan)
                    q["c"]["sim"]["cross_ion_definitions"][p][k]["products"].remove(x)
                    yield q
    for p in common.shrink_key(plan):
        if p["c"]["sim"].get("cross_ion_definitions") and len(p["c"]["clouds"]) == len(plan["c"]["clouds"]):
            yield p
