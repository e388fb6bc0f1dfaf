"""C24: an electron that reaches the wall is put back where its way met the wall."""
import copy

import numpy as np

from .. import cfg, common, drive, geom, proc, shadow, world
from ..proc import Violation

LEVEL = "exploration"
TIERS = {"quick": dict(runs=300, cap=55, shrink=60), "thorough": dict(runs=10000, cap=1500, shrink=180)}
RULE = ("a run draws a chamber (rectangle, ellipse, convex and star-shaped polygons with up to 24 corners) and a set-up; in part of the runs the way of some macroparticles is "
        "bent just before the wall interaction (towards corners, along walls, far outside, from just inside the wall, with very short ways); every wall interaction of every step "
        "is compared with an independent computation of which macroparticles are outside, where their way first met the wall, on which segment and with which inward normal; "
        "at the end of the run the chamber is asked about seeded ways and points as well; non-trivial when at least 20 impacts were compared; distinct by chamber, features and kinds of ways")
STATES = "distinct (chamber, features, kind of way, segment, position along the way, angle of incidence) reached"
REAL, STUB = common.REAL, common.STUB
ASSUMPTIONS = ["a way that passes a corner, or the wall itself, within rounding may be booked on either side of it", "the way of an electron during a step is the straight line between its "
               "positions before and after it"]
KINDS = ("corner", "edge", "far", "near wall", "short", "grazing", "sideways")


def star(r, n):
    """A polygon around the origin with sharp corners pointing in and out; returns its file content."""
    ph = sorted(r.random() * 2 * np.pi for _ in range(n))
    ph = [2 * np.pi * (k + .5 * r.random()) / n for k in range(n)]
    ax, ay = 2.3e-2, r.choice([1.9e-2, 1.2e-2])
    x = [float(ax * np.cos(p) * r.choice([1., 1., .75, .6])) for p in ph]
    y = [float(ay * np.sin(p) * r.choice([1., 1., .75, .6])) for p in ph]
    return x, y


def fits(x, y):
    """Counter-clockwise, simple, and the radius of the largest circle around the origin inside."""
    n = len(x)
    if 0.5 * sum(x[k] * y[(k + 1) % n] - x[(k + 1) % n] * y[k] for k in range(n)) <= 0:
        return 0.
    x, y = np.array(x), np.array(y)
    x2, y2 = np.roll(x, -1), np.roll(y, -1)
    if np.any(x * y2 - x2 * y <= 1e-7):     # seen from the origin the corners go round: the polygon is simple
        return 0.
    t = np.clip(-(x * (x2 - x) + y * (y2 - y)) / ((x2 - x) ** 2 + (y2 - y) ** 2), 0., 1.)
    return float(np.hypot(x + t * (x2 - x), y + t * (y2 - y)).min())


def convex(x, y):
    x, y = np.array(x), np.array(y)
    dx, dy = np.roll(x, -1) - x, np.roll(y, -1) - y
    return bool(np.all(dx * np.roll(dy, -1) - dy * np.roll(dx, -1) > 0))


def gen(r, tier):
    ch = r.choice(["rect", "ellip", "polyg", "polyg", "polyg"])
    c = cfg.gen(r, chamb=ch, small=True, nonunif_t=.05, clouds=r.choice([0, 0, 0, 1]), sec=False, cross=False, em=False,
                sey=r.choice([None, None, 0, "ECLOUD"]) if ch == "polyg" else r.choice([0, "ECLOUD", "ACC_LOW", "from_file", "furman_pivi", "flat_low_ene", "cos_low_ene"]))
    M = c["mach"]
    if M["chamb_type"] == "polyg" and c["mats"]["chm.mat"].get("nun") is not True and r.random() < .6:
        for _ in range(50):
            x, y = star(r, r.choice([5, 7, 8, 12, 16, 24]))
            d = fits(x, y)
            if d > 4e-3:
                break
        else:
            x, y, d = [.02, -.02, -.02, .02], [.015, .015, -.015, -.015], .015
        cv = convex(x, y)
        k = r.choice([.3, .9, .9999])
        c["mats"]["chm.mat"] = dict(kind="raw", data=dict(Vx=x, Vy=y, x_sem_ellip_insc=d * k, y_sem_ellip_insc=d * k * r.choice([1., .5])))
        M["flag_assume_convex"] = cv and r.random() < .5
        e = .6 * d
        M.update(x_max_init_unif=e, x_min_init_unif=-e, y_max_init_unif=e, y_min_init_unif=-e)
        if M.get("photoem_flag"):
            M.update(x0_refl=.3 * d)
    return dict(c=c, env=common.gen_env(r), bend=r.choice([0., .02, .1, .3]), kinds=sorted(r.sample(range(len(KINDS)), r.choice([1, 3, len(KINDS)]))),
                seed=r.randrange(1 << 30), probes=r.choice([0, 200, 400]), bad=r.choice(["none", "none", "clockwise", "short", "nonconvex"]))


def target(rng, c, kind, x0, y0):
    """The end of a way of the given kind that starts at x0, y0 (which it may move)."""
    M = c["mach"]
    if M["chamb_type"] == "ellip":
        ph = 2 * np.pi * np.arange(40) / 40
        vx, vy = M["x_aper"] * np.cos(ph), M["y_aper"] * np.sin(ph)
    else:
        vx, vy = geom.vertices(c)
    k = rng.randint(len(vx))
    a, b, e, f = vx[k], vy[k], vx[(k + 1) % len(vx)], vy[(k + 1) % len(vx)]
    R = max(np.abs(vx).max(), np.abs(vy).max())
    if kind == "corner":
        s = 1 + rng.choice([1e-12, 1e-3, .1, 1.])
        j = rng.choice([0., 1e-12, 1e-9, 1e-5]) * rng.randn(2)
        return x0, y0, x0 + s * (a - x0) + j[0], y0 + s * (b - y0) + j[1]
    q = rng.rand()
    if rng.rand() < .3:     # the point of the edge that is closest to the centre
        q = min(max(-(a * (e - a) + b * (f - b)) / ((e - a) ** 2 + (f - b) ** 2), 0.), 1.)
    px, py = a + q * (e - a), b + q * (f - b)
    if kind == "edge":
        s = 1 + rng.choice([1e-9, 1e-4, .01, .3])
        return x0, y0, x0 + s * (px - x0), y0 + s * (py - y0)
    if kind == "far":
        p = rng.rand() * 2 * np.pi
        return x0, y0, x0 + 50 * R * np.cos(p), y0 + 50 * R * np.sin(p)
    nx, ny = -(f - b), e - a
    n = np.hypot(nx, ny)
    nx, ny = nx / n, ny / n
    d = rng.choice([1e-13, 1e-11, 1e-9, 1e-7])
    x1, y1 = px + d * nx, py + d * ny
    if kind == "near wall":
        s = rng.choice([1e-6, 1e-3, 3e-3])
        return x1, y1, px - s * nx + s * rng.randn() * (e - a) / n, py - s * ny + s * rng.randn() * (f - b) / n
    if kind == "short":
        s = rng.choice([1e-10, 1e-8, 1e-6])
        return x1, y1, px - s * nx, py - s * ny
    if kind == "grazing":
        s = rng.choice([1e-3, 5e-3]) * rng.choice([-1., 1.])
        z = rng.choice([1e-10, 1e-7, 1e-4])
        return x1, y1, px + s * (e - a) / n - z * nx, py + s * (f - b) / n - z * ny
    return x0, y0, x0 + 3 * R * rng.randn(), y0 + .01 * R * rng.randn()        # sideways


class Judge:
    def __init__(self, br, c):
        self.br, self.c = br, c
        self.M = c["mach"]
        self.n = self.skipped = self.corner = 0
        self.states = set()
        self.kind = {}
        self.scale = max(np.abs(geom.vertices(c)[0]).max(), np.abs(geom.vertices(c)[1]).max()) if self.M["chamb_type"] != "ellip" else max(self.M["x_aper"], self.M["y_aper"])
        self.fs = common.feature_sig(c)[:3]

    def fail(self, what, **k):
        raise Violation(what, step=int(self.br.sim.beamtim.ii_curr), **{a: (float(b) if np.isscalar(b) and not isinstance(b, str) else b) for a, b in k.items()})

    def sides(self, x, y, got, where):
        d = geom.inside_by(self.c, x, y)
        bad = (got & (d > 1e-12)) | (~got & (d < -1e-12))
        if bad.any():
            q = int(np.argmax(bad))
            self.fail("an electron is taken for outside although it is inside the chamber, or the reverse", where=where, x=x[q], y=y[q],
                      inside_by=d[q], taken_for_outside=bool(got[q]))

    def ways(self, x0, y0, z0, x1, y1, z1, xi, yi, zi, nx, ny, seg, where, kinds=None):
        c = self.c
        d0, d1 = geom.inside_by(c, x0, y0), geom.inside_by(c, x1, y1)
        t, sg, corner, sine = geom.crossing(c, x0, y0, x1, y1)
        L = np.hypot(x1 - x0, y1 - y0)
        # what happened, in exact terms: the way starts inside and ends outside
        ok = (d0 > 0) & (d1 < 0) & np.isfinite(t) & (L > 0)
        safe = (corner > 1e-10) & (sine > 1e-5) & (d0 > 1e-9) & (d1 < -1e-11)
        ell = self.M["chamb_type"] == "ellip"
        f = .99 * t
        err = 0.
        if ell:
            with np.errstate(all="ignore"):
                err = np.minimum(1., 1e-15 * (self.scale / L) ** 3 / sine)
            f = np.where(f < 1e-2, 0., f)
            short = (L ** 2 / (x1 ** 2 + y1 ** 2)) < 1e-8
            f = np.where(short, 0., f)
            # (the squares of the coordinates are subtracted from each other: on short ways t is known less well)
            safe &= (np.abs(.99 * t - 1e-2) > 1e-6 + err) & (np.abs(L ** 2 / (x1 ** 2 + y1 ** 2) / 1e-8 - 1) > 1e-6)
        with np.errstate(all="ignore"):
            ex, ey = x0 + f * (x1 - x0), y0 + f * (y1 - y0)
            tol = (1e-6 if ell else 1e-9) * (self.scale + (L if ell else 0.)) + L * err + (1e-13 / np.maximum(sine, 1e-12)) * (1. + L / self.scale)
        # wherever the electron is put, it is inside and on its way
        inn = geom.inside_by(c, xi, yi)
        bad = (d0 > 1e-12) & (inn < -1e-12)
        if bad.any():
            q = int(np.argmax(bad))
            self.fail("the point of impact is outside the chamber", where=where, x=xi[q], y=yi[q], start=[float(x0[q]), float(y0[q])], end=[float(x1[q]), float(y1[q])])
        off = np.abs((xi - x0) * (y1 - y0) - (yi - y0) * (x1 - x0)) / np.maximum(L, 1e-300)
        bad = ok & (off > 1e-9 * self.scale + 1e-13 * L)
        if bad.any():
            q = int(np.argmax(bad))
            self.fail("the point of impact is not on the way of the electron", where=where, distance=off[q], x=xi[q], y=yi[q], start=[float(x0[q]), float(y0[q])],
                      end=[float(x1[q]), float(y1[q])])
        s = ok & safe
        d = np.hypot(xi - ex, yi - ey)
        bad = s & (d > tol)
        if bad.any():
            q = int(np.argmax(bad))
            self.fail("the point of impact is not where the way of the electron first met the wall", where=where, distance=d[q], x=xi[q], y=yi[q],
                      expected=[float(ex[q]), float(ey[q])], start=[float(x0[q]), float(y0[q])], end=[float(x1[q]), float(y1[q])], along=t[q])
        if ell:
            z = z0 + f * (z1 - z0)
            bad = s & (np.abs(zi - z) > 1e-6 * np.maximum(np.abs(z0), np.abs(z1)) + tol / L * np.abs(z1 - z0))
            if bad.any():
                q = int(np.argmax(bad))
                self.fail("the longitudinal position of the impact is not where the way of the electron first met the wall", where=where, z=zi[q], expected=z[q])
            gx, gy = geom.inward(c, xi, yi, None)
        else:
            bad = s & (seg != sg)
            if bad.any():
                q = int(np.argmax(bad))
                self.fail("an impact is attributed to another segment of the wall than the electron met", where=where, segment=int(seg[q]), expected=int(sg[q]),
                          start=[float(x0[q]), float(y0[q])], end=[float(x1[q]), float(y1[q])])
            gx, gy = geom.inward(c, ex, ey, sg)
        bad = s & (np.hypot(nx - gx, ny - gy) > 1e-7)
        if bad.any():
            q = int(np.argmax(bad))
            self.fail("the normal of the wall at an impact is wrong", where=where, normal=[float(nx[q]), float(ny[q])], expected=[float(gx[q]), float(gy[q])],
                      x=xi[q], y=yi[q], segment=int(sg[q]))
        # near corners and along the wall: still a unit vector
        bad = ok & (d1 < -1e-12) & (d0 > 1e-13) & ~(np.abs(np.hypot(nx, ny) - 1) < 1e-9)
        if bad.any():
            self.fail("the normal of the wall is no unit vector", where=where, normal=[float(nx[np.argmax(bad)]), float(ny[np.argmax(bad)])])
        if not ell:
            # an impact without a segment is only possible at a corner or on the wall itself
            bad = ok & (seg < 0) & safe
            if bad.any():
                self.fail("the wall was not found", where=where)
        self.n += int(s.sum())
        self.skipped += int((~s).sum())
        for q in np.flatnonzero(s)[:200]:
            self.states.add("%s|%s|%d|%d|%d" % (self.fs, where, sg[q], int(4 * t[q]), int(4 * sine[q])))

    def impact(self, e):
        b = e.before
        n = b["N"]
        if not n:
            return
        d = geom.inside_by(self.c, b["x_mp"], b["y_mp"])
        a = e.after
        same = np.ones(n, bool)
        for k in shadow.ARR:
            same &= (b[k] == a[k][:n])
        # judged by what happened to them
        bad = (d < -1e-12) & (a["x_mp"][:n] == b["x_mp"]) & (a["y_mp"][:n] == b["y_mp"])
        if bad.any():
            q = int(np.argmax(bad))
            self.fail("an electron outside the chamber was not brought back", cloud=e.i, x=b["x_mp"][q], y=b["y_mp"][q], outside_by=-d[q])
        bad = (d > 1e-12) & ~same
        if bad.any():
            q = int(np.argmax(bad))
            self.fail("an electron inside the chamber was treated as an impact", cloud=e.i, x=b["x_mp"][q], y=b["y_mp"][q], inside_by=d[q])
        self.sides(b["x_mp"], b["y_mp"], e.mask, "step")
        m = e.mask
        if not e.n:
            return
        seg = e.seg if e.seg is not None else np.full(e.n, -1)
        o = [np.asarray(v)[m] for v in e.old]
        p = [b[k][m] for k in ("x_mp", "y_mp", "z_mp")]
        self.ways(*o, *p, e.xi, e.yi, e.zi, e.nx, e.ny, seg, "step")
        # what the electrons became: replaced and added macroparticles start at the point of impact computed here
        rep = a["nel_mp"][:n][m] > 0
        self.ways(*[v[rep] for v in o], *[v[rep] for v in p], a["x_mp"][:n][m][rep], a["y_mp"][:n][m][rep], a["z_mp"][:n][m][rep], e.nx[rep], e.ny[rep], seg[rep], "replaced")
        if a["N"] > n:
            j = e.parent
            self.ways(*[v[j] for v in o], *[v[j] for v in p], a["x_mp"][n:], a["y_mp"][n:], a["z_mp"][n:], e.nx[j], e.ny[j], seg[j], "added")


def _life(emit, plan, root):
    c = plan["c"]
    drive.prepare(c, root)
    rng = np.random.RandomState(plan["seed"])
    fired = {}
    with common.mkworld(root, plan["env"]) as w:
        sim = drive.build(c, root)
        br = shadow.Bracket(sim)
        J = Judge(br, c)
        br.listeners.append(J)

        def perturb(i, old, mp):
            N = int(mp.N_mp)
            if not plan["bend"] or not N:
                return
            for k in np.flatnonzero(rng.rand(N) < plan["bend"])[:60]:
                kind = KINDS[plan["kinds"][rng.randint(len(plan["kinds"]))]]
                x0, y0, x1, y1 = target(rng, c, kind, float(old.x_mp[k]), float(old.y_mp[k]))
                if geom.inside_by(c, np.array([x0]), np.array([y0]))[0] < 1e-14:
                    continue
                old.x_mp[k], old.y_mp[k], mp.x_mp[k], mp.y_mp[k] = x0, y0, x1, y1
                fired["way bent: " + kind] = fired.get("way bent: " + kind, 0) + 1
        br.perturb = perturb
        steps = 0
        while drive.step(sim):
            steps += 1
            if not all(cl.MP_e.N_mp < 20000 for cl in sim.cloud_list):
                break
        br.close()
        if plan["probes"]:
            ch = copy.deepcopy(sim.cloud_list[0].impact_man.chamb)
            n = plan["probes"]
            S = J.scale
            x, y = 1.3 * S * (2 * rng.rand(4 * n) - 1), 1.3 * S * (2 * rng.rand(4 * n) - 1)
            J.sides(x, y, np.asarray(ch.is_outside(x, y), bool), "probe")
            ins = np.flatnonzero(geom.inside_by(c, x, y) > 1e-9)[:n]
            W = []
            for k in ins:
                W.append(target(rng, c, KINDS[rng.randint(len(KINDS))], x[k], y[k]))
            W = np.array(W).T.copy()
            g = (geom.inside_by(c, W[0], W[1]) > 1e-13) & np.asarray(ch.is_outside(W[2], W[3]), bool)
            W = np.ascontiguousarray(W[:, g])
            z0, z1 = rng.randn(W.shape[1]), rng.randn(W.shape[1])
            with np.errstate(all="ignore"):
                xi, yi, zi, nx, ny, seg = ch.impact_point_and_normal(W[0].copy(), W[1].copy(), z0.copy(), W[2].copy(), W[3].copy(), z1.copy())
            J.ways(W[0], W[1], z0, W[2], W[3], z1, xi, yi, zi, nx, ny, seg if seg is not None else np.full(len(xi), -1), "probe")
            fired["probed ways"] = int(W.shape[1])
        if plan["bad"] != "none":
            _bad(plan["bad"])
            fired["impossible chamber: " + plan["bad"]] = 1
        w.active = False
        common.check_escapes(w)
        return dict(steps=steps, states=sorted(J.states), n=J.n, skipped=J.skipped, fired=fired, tt=float(sim.beamtim.tt_curr))


def _bad(kind):
    from PyECLOUD import geom_impact_poly_fast_impact as g
    d = dict(Vx=np.array([.02, -.02, -.02, .02]), Vy=np.array([.015, .015, -.015, -.015]), x_sem_ellip_insc=.01, y_sem_ellip_insc=.01)
    kw = {}
    if kind == "clockwise":
        d["Vx"], d["Vy"] = d["Vx"][::-1], d["Vy"][::-1]
    elif kind == "short":
        d["Vx"], d["Vy"] = np.insert(d["Vx"], 1, .02 - 1e-11), np.insert(d["Vy"], 1, .015)
    else:
        d["Vx"], d["Vy"] = np.insert(d["Vx"], 1, 0.), np.insert(d["Vy"], 1, .008)
    try:
        g.polyg_cham_geom_object(d, False, **kw)
    except g.PyECLOUD_ChamberException:
        return
    raise Violation("a chamber that the code cannot deal with was accepted", chamber=kind)


def run(plan, emit):
    with proc.Scratch() as top:
        r = proc.raise_if_bad(proc.incarnation(_life, (plan, top)), "run")
    return dict(faults=r["fired"], probes={"impacts compared": r["n"], "impacts at corners or along the wall": r["skipped"]}, states=r["states"], sim_time=r["tt"],
                steps=r["steps"], nontrivial=r["n"] >= 20, sig=[common.feature_sig(plan["c"]), plan["kinds"], plan["bend"]],
                sample=dict(steps=r["steps"], impacts=r["n"], bent=r["fired"]))


def shrink(plan):
    if plan["bend"]:
        yield dict(plan, bend=0.)
    if plan["probes"]:
        yield dict(plan, probes=0)
    if plan["bad"] != "none":
        yield dict(plan, bad="none")
    yield from common.shrink_list(plan, "kinds") if len(plan["kinds"]) > 1 else ()
    yield from common.shrink_key(plan)
