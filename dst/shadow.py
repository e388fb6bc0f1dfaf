"""An independent witness of a running simulation.

It brackets the operations a time step is made of (wall interaction, generation of primaries, ionization, saving,
cleaning) at the interfaces between the components and keeps its own account of what happened in them, from the
macroparticle arrays before and after.  `Ledger` checks conservation while the run proceeds; `Recorder` accumulates
what the output files must contain."""
import copy

import numpy as np

from . import world
from .proc import Violation

QE = 1.602176634e-19
ARR = ("x_mp", "y_mp", "z_mp", "vx_mp", "vy_mp", "vz_mp", "nel_mp")


def take(mp):
    n = int(mp.N_mp)
    d = {k: np.array(getattr(mp, k)[:n]) for k in ARR}
    d["N"] = n
    d["ref"] = float(mp.nel_mp_ref)
    if getattr(mp, "flag_lifetime_hist", False):
        d["tl"] = np.array(mp.t_last_impact[:n])
    return d


def energy(d, mass, sel=slice(None)):
    return 0.5 * mass / QE * (d["vx_mp"][sel] ** 2 + d["vy_mp"][sel] ** 2 + d["vz_mp"][sel] ** 2)


def cic(x, w, bias, dx, n):
    """The documented histogram: linear sharing between the two neighbouring nodes, everything above in the last."""
    h = np.zeros(n)
    if len(x) == 0:
        return h
    f = 1 + (x - bias) / dx
    i = f.astype(int)
    hx = f - i
    lo = i < n
    np.add.at(h, i[lo] - 1, w[lo] * (1 - hx[lo]))
    np.add.at(h, i[lo], w[lo] * hx[lo])
    h[-1] += np.sum(w[~lo])
    return h


class Event:
    """One wall interaction of one cloud."""
    __slots__ = ("i", "tt", "before", "after", "mask", "n", "xi", "yi", "zi", "nx", "ny", "seg", "E", "nel", "nrep", "Erep",
                 "new", "Enew", "parent", "man", "mass", "cos", "man_split", "old")


class Bracket:
    """Class-level wrappers around the component interfaces (so that pickling a simulation is unaffected)."""

    def __init__(self, sim):
        self.sim = sim
        self.chambers = {}
        self.undo = []
        self.listeners = []
        self.perturb = None         # may change the way of a macroparticle just before the wall interaction
        from PyECLOUD import (impact_management_class, pyecloud_saver, gas_ionization_class, gen_photoemission_class,
                              cross_ionization, buildup_simulation)
        self._wrap(impact_management_class.impact_management, "backtrack_and_second_emiss", self._impact)
        self._wrap(pyecloud_saver.pyecloud_saver, "witness", self._witness)
        for mod in (gas_ionization_class, gen_photoemission_class):
            for cls in [v for v in vars(mod).values() if isinstance(v, type) and v.__module__ == mod.__name__ and "generate" in vars(v)]:
                self._wrap(cls, "generate", self._primary)
        for cls in [v for v in vars(cross_ionization).values() if isinstance(v, type) and v.__module__ == cross_ionization.__name__]:
            if cls.__name__ == "Cross_Ionization" and "generate" in vars(cls):
                self._wrap(cls, "generate", self._cross)
        self._wrap(buildup_simulation.BuildupSimulation, "_MP_cleaning_and_regenerations", self._clean, optional=True)
        self._wrap(buildup_simulation.BuildupSimulation, "_cloud_motion", self._motion, optional=True)

    def _wrap(self, cls, name, fn, optional=False):
        real = vars(cls).get(name)
        if real is None:
            if optional:
                return
            raise RuntimeError("no %s.%s" % (cls.__name__, name))
        setattr(cls, name, lambda obj, *a, **k: fn(real, obj, *a, **k))
        self.undo.append((cls, name, real))

    def close(self):
        for cls, name, real in self.undo:
            setattr(cls, name, real)
        self.undo = []

    def tell(self, what, *a):
        for l in self.listeners:
            f = getattr(l, what, None)
            if f is not None:
                f(*a)

    def chamber(self, ch):
        """A private copy of the chamber: asking it changes no counter of the simulation."""
        if id(ch) not in self.chambers:
            self.chambers[id(ch)] = (ch, copy.deepcopy(ch))
        return self.chambers[id(ch)][1]

    def cloud_of(self, attr, obj):
        for i, cl in enumerate(self.sim.cloud_list):
            if getattr(cl, attr, None) is obj:
                return i
        return None

    # ---- brackets
    def _impact(self, real, man, old_pos, MP_e, *a, **k):
        i = self.cloud_of("impact_man", man)
        if i is None:
            return real(man, old_pos, MP_e, *a, **k)
        tt = a[0] if a else k.get("tt_curr")
        if self.perturb is not None:
            self.perturb(i, old_pos, MP_e)
        old = (np.array(old_pos.x_mp), np.array(old_pos.y_mp), np.array(old_pos.z_mp))
        before = take(MP_e)
        split = float(MP_e.nel_mp_split)
        r = real(man, old_pos, MP_e, *a, **k)
        e = Event()
        e.man_split = split
        e.i, e.tt, e.before, e.after, e.man, e.mass = i, tt, before, take(r), man, float(MP_e.mass)
        e.old = old
        ch = self.chamber(man.chamb)
        st = np.random.get_state()
        n = before["N"]
        e.mask = np.asarray(ch.is_outside(before["x_mp"], before["y_mp"]), bool) if n else np.zeros(0, bool)
        m = e.mask
        e.n = int(m.sum())
        e.new = slice(n, e.after["N"])
        if e.n:
            e.xi, e.yi, e.zi, e.nx, e.ny, e.seg = ch.impact_point_and_normal(
                old[0][m], old[1][m], old[2][m], before["x_mp"][m], before["y_mp"][m], before["z_mp"][m])
            e.nel = before["nel_mp"][m]
            e.E = energy(before, e.mass, m)
            v = np.sqrt(before["vx_mp"][m] ** 2 + before["vy_mp"][m] ** 2 + before["vz_mp"][m] ** 2)
            with np.errstate(all="ignore"):
                e.cos = np.abs((before["vx_mp"][m] * e.nx + before["vy_mp"][m] * e.ny) / v)
            e.nrep = e.after["nel_mp"][:n][m]
            e.Erep = energy(e.after, e.mass, np.flatnonzero(m))
            e.Enew = energy(e.after, e.mass, e.new)
            if e.after["N"] > n:
                # every emitted macroparticle starts at the impact point of its parent
                d = (np.abs(e.after["x_mp"][e.new][:, None] - e.xi) + np.abs(e.after["y_mp"][e.new][:, None] - e.yi)
                     + np.abs(e.after["z_mp"][e.new][:, None] - e.zi))
                e.parent = np.argmin(d, axis=1)
            else:
                e.parent = np.zeros(0, int)
        np.random.set_state(st)
        self.tell("impact", e)
        return r

    def _witness(self, real, saver, *a, **k):
        i = self.cloud_of("pyeclsaver", saver)
        if i is None:
            return real(saver, *a, **k)
        self.tell("before_save", i)
        r = real(saver, *a, **k)
        self.tell("saved", i)
        return r

    def _primary(self, real, gen, *a, **k):
        i = self.cloud_of("resgasion", gen)
        kind = "gas"
        if i is None:
            i, kind = self.cloud_of("phemiss", gen), "photo"
        if i is None:
            return real(gen, *a, **k)
        mp = self.sim.cloud_list[i].MP_e
        before = take(mp)
        r = real(gen, *a, **k)
        self.tell("primary", i, kind, gen, before, take(mp), a, k)
        return r

    def _cross(self, real, ci, *a, **k):
        before = [take(cl.MP_e) for cl in self.sim.cloud_list]
        r = real(ci, *a, **k)
        self.tell("cross", ci, before, [take(cl.MP_e) for cl in self.sim.cloud_list], k.get("Dt", a[0] if a else None))
        return r

    def _clean(self, real, sim, *a, **k):
        before = [take(cl.MP_e) for cl in sim.cloud_list]
        th = [float(cl.MP_e.nel_mp_cl_th) for cl in sim.cloud_list]
        r = real(sim, *a, **k)
        self.tell("cleaned", before, [take(cl.MP_e) for cl in sim.cloud_list], th)
        return r

    def _motion(self, real, sim, cloud, *a, **k):
        i = [j for j, cl in enumerate(sim.cloud_list) if cl is cloud]
        if not i:
            return real(sim, cloud, *a, **k)
        before = take(cloud.MP_e)
        r = real(sim, cloud, *a, **k)
        self.tell("moved", i[0], before, take(cloud.MP_e))
        return r


def close(a, b, scale=None, rtol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    s = np.max(np.abs(b)) if scale is None and b.size else (scale or 0.)
    return bool(np.all(np.abs(a - b) <= rtol * np.abs(b) + 1e-11 * s) | False) if not np.any(np.isnan(a) ^ np.isnan(b)) else False


class Recorder:
    """What the output files of every cloud must contain."""

    def __init__(self, br, c, root):
        self.br, self.c = br, c
        sim = br.sim
        self.n = len(sim.cloud_list)
        self.S = []
        for k, cl in enumerate(sim.cloud_list):
            man = cl.impact_man
            s = dict(t=[], rows={}, grp=[0., 0., 0., 0.], tlast=-1., ten=-1., tlf=-1., t_hist=[], P={}, H={}, scale={})
            s["man"] = dict(n=man.Nxg_hist, bias=man.bias_x_hist, dx=man.Dx_hist, scrub=man.scrub_en_th,
                            nE=man.Nbin_En_hist, Emax=man.En_hist_max, seg=bool(man.flag_seg), enseg=bool(man.flag_En_hist_seg),
                            cosw=man.cos_angle_width if man.flag_cos_angle_hist else None, life=bool(man.flag_lifetime_hist))
            m = s["man"]
            m["dE"] = np.linspace(0., m["Emax"], m["nE"])[1]
            m["nseg"] = getattr(man.chamb, "N_vert", 0)
            if m["life"]:
                m["nL"], m["dL"] = man.Nbin_lifetime_hist, np.linspace(0., man.lifetime_hist_max, man.Nbin_lifetime_hist)[1]
            s["acc"] = self._zero(m)
            s["vid"], s["evid"] = [], []
            self.S.append(s)
        self.sc_t = []
        self.saves = []
        self.observed = 0
        self.n_photo = {}

    @staticmethod
    def _zero(m):
        a = dict(tot=np.zeros(m["n"]), scrub=np.zeros(m["n"]), en=np.zeros(m["n"]), en_gross=0., En=np.zeros(m["nE"]), life=None)
        if m["seg"]:
            a.update(segi=np.zeros(m["nseg"]), sege=np.zeros(m["nseg"]), segE=np.zeros(m["nseg"]))
            if m["enseg"]:
                a["segEn"] = np.zeros((m["nseg"], m["nE"]))
        if m["cosw"]:
            a["cos"] = np.zeros(int(1. / m["cosw"]) + 1)
        if m["life"]:
            a["life"] = np.zeros(m["nL"])
        return a

    # ---- events
    def primary(self, i, kind, gen, before, after, a, k):
        if kind == "photo":     # photoelectrons are placed with the chamber's impact point: it counts them as well
            self.n_photo[id(self.br.sim.cloud_list[i].impact_man.chamb)] = self.n_photo.get(
                id(self.br.sim.cloud_list[i].impact_man.chamb), 0) + after["N"] - before["N"]

    def impact(self, e):
        s = self.S[e.i]
        m, a = s["man"], s["acc"]
        if not e.n:
            return
        self.observed += e.n
        w = e.nel
        ERAW = e.E
        EC = np.minimum(ERAW, m["Emax"])
        a["tot"] += cic(e.xi, w, m["bias"], m["dx"], m["n"])
        a["scrub"] += cic(e.xi, w * (ERAW > m["scrub"]), m["bias"], m["dx"], m["n"])
        a["en"] += cic(e.xi, w * ERAW, m["bias"], m["dx"], m["n"])
        a["en_gross"] += np.sum(w * ERAW) + np.sum(e.nrep * e.Erep) + np.sum(e.after["nel_mp"][e.new] * e.Enew)
        xr = e.after["x_mp"][:e.before["N"]][e.mask]
        a["en"] -= cic(xr, e.nrep * e.Erep, m["bias"], m["dx"], m["n"])
        wn = e.after["nel_mp"][e.new]
        a["en"] -= cic(e.after["x_mp"][e.new], wn * e.Enew, m["bias"], m["dx"], m["n"])
        a["En"] += cic(EC, w, 0., m["dE"], m["nE"])
        if m["cosw"]:
            a["cos"] += cic(e.cos, w, 0., m["cosw"], len(a["cos"]))
        if m["seg"]:
            ok = (e.seg >= 0) & (e.seg < m["nseg"])
            np.add.at(a["segi"], e.seg[ok], w[ok])
            np.add.at(a["segE"], e.seg[ok], (w * ERAW - e.nrep * e.Erep)[ok])
            np.add.at(a["sege"], e.seg[ok], e.nrep[ok])
            if len(wn):
                sn = e.seg[e.parent]
                np.add.at(a["sege"], sn, wn)
                np.add.at(a["segE"], sn, -wn * e.Enew)
            if m["enseg"]:
                for q in range(m["nseg"]):
                    z = e.seg == q
                    if z.any():
                        a["segEn"][q] += cic(EC[z], w[z], 0., m["dE"], m["nE"])
        if m["life"]:
            tl = e.before["tl"][e.mask]
            z = tl > 0
            if z.any():
                a["life"] += cic((e.tt - tl)[z], w[z], 0., m["dL"], m["nL"])
        s["grp"][0] += np.sum(w)
        s["grp"][1] += np.sum(e.nrep) + np.sum(wn)
        s["grp"][2] += np.sum(w * ERAW)
        s["grp"][3] += np.sum(e.nrep * e.Erep) + np.sum(wn * e.Enew)

    def before_save(self, i):
        sim = self.br.sim
        bt, S = sim.beamtim, self.c["sim"]
        cl = sim.cloud_list[i]
        s, d = self.S[i], take(cl.MP_e)
        m, a = s["man"], s["acc"]
        mass = float(cl.MP_e.mass)
        tt = float(bt.tt_curr)
        E = energy(d, mass)

        def row(k, v):
            s["rows"].setdefault(k, []).append(v)

        def per(k, v):
            s["P"].setdefault(k, []).append(np.array(v))

        def hist(k, v):
            s["H"].setdefault(k, []).append(np.array(v))
        # energy-type histograms
        due = s["ten"] + S["Dt_En_hist"]
        if tt >= due or np.isclose(tt, due, rtol=1e-10, atol=0.):
            s["ten"] = tt
            hist("t_En_hist", tt)
            hist("En_hist", a["En"])
            a["En"][:] = 0
            if m["cosw"]:
                hist("cos_angle_hist", a["cos"])
                a["cos"][:] = 0
            hist("all_Ekin_hist", cic(E, d["nel_mp"], 0., m["dE"], m["nE"]))
            if m["seg"] and m["enseg"]:
                hist("En_hist_seg", a["segEn"])
                a["segEn"][:] = 0
        if m["life"]:
            due = s["tlf"] + S["Dt_lifetime_hist"]
            if tt >= due or np.isclose(tt, due, rtol=1e-10, atol=0.):
                s["tlf"] = tt
                hist("t_lifetime_hist", tt)
                hist("lifetime_hist", a["life"])
                a["life"][:] = 0
        if sim.spacech_ele.last_recomputation_check:
            hist("t_sc_video", tt)
        # videos
        sc = sim.spacech_ele
        if S.get("flag_movie") == 1 and sc.last_recomputation_check:
            if i == self.n - 1:
                s.setdefault("vt", []).append((tt, np.array(sc.rho)))
            if self.n > 1:
                s.setdefault("vct", []).append((tt, np.array(cl.rho)))
        if S.get("flag_sc_movie") == 1 and sc.last_recomputation_check:
            s.setdefault("vet", []).append((tt, np.array(sc.efx), np.array(sc.efy)))
        # step series
        dt = self._dt()
        if tt - s["tlast"] >= (S.get("dec_fact_out", 1) - 1e-4) * dt:
            s["tlast"] = tt
            g, s["grp"] = s["grp"], [0., 0., 0., 0.]
            row("t", tt)
            row("lam_t_array", float(bt.lam_t_curr))
            for k, v in zip(("Nel_imp_time", "Nel_emit_time", "En_imp_eV_time", "En_emit_eV_time"), g):
                row(k, v)
            row("Nel_timep", np.sum(d["nel_mp"]))
            row("En_kin_eV_time", np.sum(d["nel_mp"] * E))
            rc = S["r_center"]
            row("cen_density", np.sum(d["nel_mp"][d["x_mp"] ** 2 + d["y_mp"] ** 2 < rc ** 2]) / (np.pi * rc ** 2))
            if S.get("flag_detailed_MP_info"):
                row("N_mp_time", d["N"])
                row("nel_mp_ref_time", d["ref"])
            for q, p in enumerate(S.get("el_density_probes", [])):
                z = (d["x_mp"] - p["x"]) ** 2 + (d["y_mp"] - p["y"]) ** 2 < p["r_obs"] ** 2
                row("probe%d" % q, np.sum(d["nel_mp"][z]) / (np.pi * p["r_obs"] ** 2))
            ob = self.c.get("observables", {})
            if "step_by_step_custom_observables" in ob:
                d0 = take(sim.cloud_list[0].MP_e)
                row("obs_x", float(d0["x_mp"].sum()))
        # pass series
        s["new"] = bool(bt.flag_new_bunch_pass)
        if s["new"]:
            per("t_hist", tt)
            per("nel_hist", cic(d["x_mp"], d["nel_mp"], m["bias"], m["dx"], m["n"]))
            per("nel_impact_hist_tot", a["tot"])
            per("nel_impact_hist_scrub", a["scrub"])
            per("energ_eV_impact_hist", a["en"])
            s["scale"]["energ_eV_impact_hist"] = max(s["scale"].get("energ_eV_impact_hist", 0.), a["en_gross"])
            for k in ("tot", "scrub", "en"):
                a[k][:] = 0
            a["en_gross"] = 0.
            ch = self.br.chamber(cl.impact_man.chamb)
            ph = self.n_photo.get(id(cl.impact_man.chamb), 0)
            per("N_mp_impact_pass", ch.N_mp_impact + ph)
            if not ph:
                per("N_mp_corrected_pass", ch.N_mp_corrected)
            else:
                s["P"].pop("N_mp_corrected_pass", None)
                s["phc"] = True
            per("N_mp_pass", d["N"])
            per("N_mp_ref_pass", d["ref"])
            if m["seg"]:
                for k, b in (("nel_hist_impact_seg", "segi"), ("nel_hist_emit_seg", "sege"), ("energ_eV_impact_seg", "segE")):
                    per(k, a[b])
                    a[b][:] = 0
            if S.get("x_min_hist_det") is not None:
                z = (d["x_mp"] > S["x_min_hist_det"]) & (d["x_mp"] < S["x_max_hist_det"]) & (d["y_mp"] > S["y_min_hist_det"]) & (d["y_mp"] < S["y_max_hist_det"])
                D = S["Dx_hist_det"]
                g = np.arange(S["x_min_hist_det"] - D, S["x_max_hist_det"] + D + 0.1 * D, D)
                per("nel_hist_det", cic(d["x_mp"][z], d["nel_mp"][z], g.min(), D, len(g)))
            if "pass_by_pass_custom_observables" in self.c.get("observables", {}):
                per("obs_n", take(sim.cloud_list[0].MP_e)["N"])

    def _dt(self):
        return self.c["sim"]["Dt"]

    def saved(self, i):
        bt = self.br.sim.beamtim
        if self.S[i]["new"] and (int(bt.pass_numb) + 1) % self.c["sim"].get("save_mat_every", 1) == 0:
            self.saves.append((i, int(bt.pass_numb)))
            if getattr(self, "on_file", None):
                self.on_file(i)

    # ---- what the file of cloud i must contain now
    def expected(self, i):
        s, S = self.S[i], self.c["sim"]
        out = {}
        for k, v in s["rows"].items():
            if not k.startswith("probe"):
                out[k] = np.array(v)
        np_ = len(S.get("el_density_probes", []))
        if np_:
            out["el_dens_at_probes"] = np.array([s["rows"]["probe%d" % q] for q in range(np_)])
        for k, v in s["P"].items():
            out[k] = np.array(v)
        for k, v in s["H"].items():
            out[k] = np.array(v)
        if "En_hist_seg" in out:
            out["En_hist_seg"] = np.transpose(out["En_hist_seg"], (1, 0, 2))
        out["b_spac"] = np.array(self.c["beam"]["b_spac"])
        out["dec_fact_out"] = np.array(S.get("dec_fact_out", 1))
        return out

    def compare(self, i, got, name=""):
        """got: the content of the main output file of cloud i."""
        exp = self.expected(i)
        for k, v in exp.items():
            if k not in got:
                raise Violation("a recorded quantity is missing in the output file", variable=k, cloud=i)
            g = np.asarray(got[k], float)
            v = np.asarray(v, float)
            if g.squeeze().shape != v.squeeze().shape:
                raise Violation("a recorded quantity has another number of samples than the simulation made", variable=k, cloud=i,
                                recorded=list(g.shape), expected=list(v.shape), passes=len(self.S[i]["P"].get("t_hist", ())))
            if v.size == 0:
                continue
            g, v = g.squeeze(), v.squeeze()
            scale = max(float(np.max(np.abs(v))), self.S[i]["scale"].get(k, 0.))
            if k == "energ_eV_impact_seg":
                scale = max(scale, self.S[i]["scale"].get("energ_eV_impact_hist", 0.))
            bad = ~(np.abs(g - v) <= 1e-8 * np.abs(v) + 1e-9 * scale)
            if bad.any():
                q = tuple(int(x[0]) for x in np.where(np.atleast_1d(bad)))
                raise Violation("a recorded quantity differs from what happened in the simulation", variable=k, cloud=i, at=list(q),
                                recorded=float(np.atleast_1d(g)[q]), expected=float(np.atleast_1d(v)[q]), entries=int(bad.sum()), of=int(v.size))
        return len(exp)


def same(a, b, n=None, keys=ARR):
    """First macroparticle array of two snapshots that differs (bitwise, up to n macroparticles)."""
    for k in keys:
        u, v = a[k][:n], b[k][:n]
        if u.shape != v.shape or not np.array_equal(u, v, equal_nan=True):
            return k
    if "tl" in a and "tl" in b and not np.array_equal(a["tl"][:n], b["tl"][:n]):
        return "t_last_impact"
    return None


class Ledger:
    """Accounts for all charge and energy of every cloud from step to step; `at` names the failing place."""

    def __init__(self, br, c):
        self.br, self.c = br, c
        n = len(br.sim.cloud_list)
        self.last = [take(cl.MP_e) for cl in br.sim.cloud_list]
        self.complete = hasattr(type(br.sim), "_MP_cleaning_and_regenerations")
        self.tot = [dict(imp=0., emit=0., Eimp=0., Eemit=0., prim=0., cross=0., cleaned=0., events=0, lifetime=0.) for _ in range(n)]
        self.steps = [dict(t=[], imp=[], emit=[], added=[], cleaned=[], q=[]) for _ in range(n)]
        self.cur = [dict(imp=0., emit=0., added=0., cleaned=0.) for _ in range(n)]
        self.max_new = 0
        self.sey_checked = 0

    def fail(self, what, **k):
        raise Violation(what, step=int(self.br.sim.beamtim.ii_curr), **k)

    def cont(self, i, before, where, position=False):
        """Nothing changes the macroparticles between the operations that are documented to do so."""
        if not self.complete:
            return
        l = self.last[i]
        if l["N"] != before["N"] or not np.array_equal(l["nel_mp"], before["nel_mp"]):
            self.fail("the charge of a cloud changed outside motion, wall, generation and cleaning", cloud=i, before=where,
                      was=[l["N"], float(l["nel_mp"].sum())], now=[before["N"], float(before["nel_mp"].sum())])
        if position:
            k = same(l, before)
            if k:
                self.fail("a macroparticle changed outside motion, wall, generation and cleaning", cloud=i, before=where, array=k)

    def moved(self, i, b, a):
        self.cont(i, b, "motion", True)
        if a["N"] != b["N"] or not np.array_equal(a["nel_mp"], b["nel_mp"]) or ("tl" in a and not np.array_equal(a["tl"], b["tl"])):
            self.fail("motion changed the number or charge of macroparticles", cloud=i, was=b["N"], now=a["N"])
        self.last[i] = a

    def impact(self, e):
        b, a, m, i = e.before, e.after, e.mask, e.i
        n = b["N"]
        self.cont(i, b, "wall", hasattr(type(self.br.sim), "_cloud_motion"))
        if a["N"] < n:
            self.fail("macroparticles disappeared at the wall", cloud=i, was=n, now=a["N"])
        for k in ARR:
            if not np.array_equal(b[k][~m], a[k][:n][~m], equal_nan=True):
                self.fail("a macroparticle inside the chamber was changed by the wall interaction", cloud=i, array=k)
        if "tl" in b and not np.array_equal(b["tl"][~m], a["tl"][:n][~m]):
            self.fail("the time of the last impact of a macroparticle inside the chamber was changed", cloud=i)
        if e.n == 0:
            if a["N"] != n:
                self.fail("macroparticles emitted without impacts", cloud=i)
            self.last[i] = a
            return
        wn = a["nel_mp"][e.new]
        self.max_new = max(self.max_new, len(wn))
        # emitted macroparticles start where their parent hit the wall
        xr, yr, zr = (a[k][:n][m] for k in ("x_mp", "y_mp", "z_mp"))
        alive = e.nrep > 0
        sc = 1e-9 * (np.abs(e.xi) + np.abs(e.yi) + 1e-3)
        bad = alive & ((np.abs(xr - e.xi) > sc) | (np.abs(yr - e.yi) > sc) | (np.abs(zr - e.zi) > 1e-9 * (np.abs(e.zi) + 1e-3)))
        if bad.any():
            q = int(np.argmax(bad))
            self.fail("an emitted macroparticle does not start at the point of impact", cloud=i, at=[float(xr[q]), float(yr[q])],
                      impact=[float(e.xi[q]), float(e.yi[q])])
        if len(wn):
            d = (np.abs(a["x_mp"][e.new] - e.xi[e.parent]) + np.abs(a["y_mp"][e.new] - e.yi[e.parent]))
            if np.any(d > sc[e.parent]):
                self.fail("an added macroparticle does not start at a point of impact", cloud=i, distance=float(d.max()))
            if np.any((wn <= 0) & (e.nel[e.parent] > 0)):
                self.fail("an added macroparticle carries no charge", cloud=i)
        if "tl" in a:
            if np.any(a["tl"][:n][m][alive] != e.tt) or np.any(a["tl"][e.new] != e.tt):
                self.fail("the time of the last impact is not the time of the step that made it", cloud=i)
        if np.any(e.nrep < 0) or not np.all(np.isfinite(e.nrep)):
            self.fail("the wall returned a negative or undefined charge", cloud=i)
        # emitted charge per impact
        per = e.nrep.copy()
        if len(wn):
            np.add.at(per, e.parent, wn)
        self.emission(e, per, wn)
        # emitted energies are bounded by the impact energy or the cut-off of true secondaries
        Eth = float(getattr(e.man.sey_mod, "E_th", None) or 0.)
        top = np.maximum(e.E, Eth) * (1 + 1e-9) + 1e-9
        if np.any(e.Erep[alive] > top[alive]) or (len(wn) and np.any(e.Enew > top[e.parent])):
            self.fail("an emitted electron has more energy than impact and cut-off allow", cloud=i)
        t, c = self.tot[i], self.cur[i]
        q = float(e.nel.sum())
        em = float(per.sum())
        t["imp"] += q
        t["emit"] += em
        t["Eimp"] += float((e.nel * e.E).sum())
        t["Eemit"] += float((e.nrep * e.Erep).sum() + (wn * e.Enew).sum())
        t["events"] += e.n
        if "tl" in b:
            tl = b["tl"][m]
            t["lifetime"] += float(e.nel[tl > 0].sum())
        c["imp"] += q
        c["emit"] += em
        self.last[i] = a

    def emission(self, e, per, wn):
        """The charge emitted by each impact is its charge times the yield of the surface."""
        sey = e.man.sey_mod
        name = type(sey).__name__
        if "furman" in name:
            k = per / np.where(e.nel > 0, e.nel, 1.)     # absorbed macroparticles stay without charge until the next cleaning
            if np.any(np.abs(k - np.round(k)) > 1e-9 * np.maximum(1., k)):
                self.fail("the number of electrons emitted per impacting electron is not an integer", cloud=e.i)
            if np.any(k > max(1, getattr(sey, "M_cut", 10)) + 1e-6):
                self.fail("more electrons emitted per impact than the surface model allows", cloud=e.i, most=float(k.max()))
            return
        if "perfect_absorber" in name:
            if np.any(per != 0):
                self.fail("a perfect absorber emits", cloud=e.i)
            return
        if "charging" in name or not hasattr(sey, "SEY_process"):
            return
        st = np.random.get_state()
        cos = np.abs((e.before["vx_mp"][e.mask] * e.nx + e.before["vy_mp"][e.mask] * e.ny) /
                     np.sqrt(2 * e.E * QE / e.mass))
        # whatever is drawn, the outcome lies between those of the two extreme draws; most models have a single one
        alt, hook = [], world.RNG_HOOK
        for v in (0., 1. - 2. ** -53):
            world.RNG_HOOK = lambda name, val: val * 0 + v
            alt.append(np.asarray(copy.copy(sey).SEY_process(e.nel.copy(), e.E.copy(), cos, None if e.seg is None else e.seg.copy())[0]))
        world.RNG_HOOK = hook
        np.random.set_state(st)
        d = [np.abs(per - x) > 1e-8 * np.abs(x) + 1e-10 * e.nel for x in alt]
        if np.any(d[0] & d[1]):
            exp, per = alt[1][d[0] & d[1]], per[d[0] & d[1]]
            q = int(np.argmax(np.abs(per - exp)))
            self.fail("the emitted charge is not the impacting charge times the yield of the surface", cloud=e.i, emitted=float(per[q]),
                      expected=float(exp[q]), impacting=float(e.nel[d[0] & d[1]][q]))
        self.sey_checked += e.n
        # true secondaries are split into macroparticles below the splitting threshold
        if len(wn) and np.any(wn > e.man_split * (1 + 1e-9)):
            self.fail("an added macroparticle is larger than the splitting threshold", cloud=e.i)

    def primary(self, i, kind, gen, b, a, args, kw):
        self.cont(i, b, "generation of primaries")
        self._added(i, b, a, "primary generation")
        self.tot[i]["prim"] += float(a["nel_mp"][b["N"]:].sum())

    def _added(self, i, b, a, what):
        k = same(b, a, b["N"])
        if k or a["N"] < b["N"]:
            self.fail("generation of new macroparticles changed the existing ones", cloud=i, what=what, array=k)
        w = a["nel_mp"][b["N"]:]
        if np.any(w <= 0) or not np.all(np.isfinite(w)):
            self.fail("a new macroparticle carries no charge", cloud=i, what=what)
        self.cur[i]["added"] += float(w.sum())
        self.last[i] = a

    def cross(self, ci, b, a, dt):
        for i in range(len(b)):
            self.cont(i, b[i], "cross-ionization")
            self._added(i, b[i], a[i], "cross-ionization")
            self.tot[i]["cross"] += float(a[i]["nel_mp"][b[i]["N"]:].sum())

    def saved(self, i):
        d = take(self.br.sim.cloud_list[i].MP_e)
        self.cont(i, d, "saving", True)
        s, c = self.steps[i], self.cur[i]
        s["t"].append(float(self.br.sim.beamtim.tt_curr))
        s["q"].append(float(d["nel_mp"].sum()))
        for k in ("imp", "emit", "added"):
            s[k].append(c[k])
            c[k] = 0.
        s["cleaned"].append(c["cleaned"])     # removed after the previous save
        c["cleaned"] = 0.
        if len(s["q"]) > 1:
            exp = s["q"][-2] - s["cleaned"][-1] - s["imp"][-1] + s["emit"][-1] + s["added"][-1]
            if abs(s["q"][-1] - exp) > 1e-9 * (abs(exp) + s["imp"][-1] + s["q"][-2]):
                self.fail("the charge of a cloud does not balance over a time step", cloud=i, charge=s["q"][-1], expected=exp)

    def cleaned(self, b, a, th):
        S = self.c["sim"]
        new = bool(self.br.sim.beamtim.flag_new_bunch_pass)
        for i in range(len(b)):
            self.cont(i, b[i], "cleaning", True)
            small = b[i]["nel_mp"] < th[i]
            async_on = S.get("N_mp_async_regen") is not None and b[i]["N"] > S["N_mp_async_regen"]
            q0, q1 = float(b[i]["nel_mp"].sum()), float(a[i]["nel_mp"].sum())
            if not new and not async_on:
                k = same(b[i], a[i])
                if k or a[i]["N"] != b[i]["N"]:
                    self.fail("macroparticles were removed or changed at a step where no cleaning is due", cloud=i, array=k)
            else:
                n1 = int((~small).sum())
                lost = float(b[i]["nel_mp"][small].sum())
                hard = new and (n1 > S["N_mp_regen"] or (n1 < S["N_mp_regen_low"] and b[i]["ref"] > S["nel_mp_ref_0"]))
                tol = 1e-9 * q0
                if hard:
                    ref = max(a[i]["ref"], b[i]["ref"])
                    tol += S["regen_hist_cut"] * q0 + ref * (6 * np.sqrt(n1 / 2.) + 4)
                soft = (new and S.get("N_mp_soft_regen") is not None) or async_on
                if not hard and not soft:
                    keep = ~small
                    if a[i]["N"] != n1 or any(not np.array_equal(b[i][k][keep], a[i][k]) for k in ARR):
                        self.fail("cleaning removed or changed other macroparticles than the small ones", cloud=i, kept=a[i]["N"], expected=n1)
                if abs(q0 - lost - q1) > tol:
                    self.fail("cleaning and regeneration changed the charge", cloud=i, before=q0, small=lost, after=q1, hard=bool(hard))
            self.cur[i]["cleaned"] = q0 - q1
            self.last[i] = a[i]
