"""Independent geometry: is a point inside the chamber the input file describes?"""
import numpy as np

from . import cfg


def polygon(c):
    m = c["mats"]["chm.mat"]
    d = cfg.chamber_mat(m) if m["kind"] == "chamber" else {k: np.array(v) for k, v in m["data"].items()}
    return np.asarray(d["Vx"], float).ravel(), np.asarray(d["Vy"], float).ravel()


def outside_by(c, x, y):
    """How far outside the chamber every point is [m]; 0 inside."""
    M = c["mach"]
    x, y = np.asarray(x, float), np.asarray(y, float)
    if M["chamb_type"] == "rect":
        return np.maximum(0., np.maximum(np.abs(x) - M["x_aper"], np.abs(y) - M["y_aper"]))
    if M["chamb_type"] == "ellip":
        r = np.hypot(x / M["x_aper"], y / M["y_aper"])
        return np.maximum(0., r - 1.) * min(M["x_aper"], M["y_aper"])
    vx, vy = polygon(c)
    x2, y2 = np.roll(vx, -1), np.roll(vy, -1)
    ins = np.zeros(x.shape, bool)
    d = np.full(x.shape, np.inf)
    for a, b, e, f in zip(vx, vy, x2, y2):
        cr = (b > y) != (f > y)
        with np.errstate(all="ignore"):
            xi = (e - a) * (y - b) / (f - b) + a
        ins ^= cr & (x < xi)
        L2 = (e - a) ** 2 + (f - b) ** 2
        t = np.clip(((x - a) * (e - a) + (y - b) * (f - b)) / L2, 0., 1.)
        d = np.minimum(d, np.hypot(x - a - t * (e - a), y - b - t * (f - b)))
    return np.where(ins, 0., d)


def vertices(c):
    """The corners of a chamber with straight walls, counter-clockwise."""
    M = c["mach"]
    if M["chamb_type"] == "rect":
        a, b = M["x_aper"], M["y_aper"]
        return np.array([a, -a, -a, a]), np.array([b, b, -b, -b])
    return polygon(c)


def inside_by(c, x, y):
    """Distance to the wall [m], positive inside (for an ellipse: in units of its shorter half axis)."""
    M = c["mach"]
    x, y = np.asarray(x, float), np.asarray(y, float)
    if M["chamb_type"] == "ellip":
        return (1. - np.hypot(x / M["x_aper"], y / M["y_aper"])) * min(M["x_aper"], M["y_aper"])
    vx, vy = vertices(c)
    ins = np.zeros(x.shape, bool)
    d = np.full(x.shape, np.inf)
    for a, b, e, f in zip(vx, vy, np.roll(vx, -1), np.roll(vy, -1)):
        cr = (b > y) != (f > y)
        with np.errstate(all="ignore"):
            xi = (e - a) * (y - b) / (f - b) + a
        ins ^= cr & (x < xi)
        t = np.clip(((x - a) * (e - a) + (y - b) * (f - b)) / ((e - a) ** 2 + (f - b) ** 2), 0., 1.)
        d = np.minimum(d, np.hypot(x - a - t * (e - a), y - b - t * (f - b)))
    return np.where(ins, d, -d)


def crossing(c, x0, y0, x1, y1):
    """Where the way from a point inside to a point outside first meets the wall.

    Returns t (fraction of the way), the segment (-1 for an ellipse), and the quality of the answer: the smallest distance
    of the way to a corner of the segments that matter, and the sine of the angle between the way and the wall."""
    M = c["mach"]
    dx, dy = x1 - x0, y1 - y0
    L = np.hypot(dx, dy)
    if M["chamb_type"] == "ellip":
        a, b = M["x_aper"], M["y_aper"]
        u, v, du, dv = x0 / a, y0 / b, dx / a, dy / b
        A, B, C = du * du + dv * dv, u * du + v * dv, u * u + v * v - 1.
        with np.errstate(all="ignore"):
            s = np.sqrt(B * B - A * C)
            t = np.where(B > 0, -C / (B + s), (s - B) / A)
            px, py = x0 + t * dx, y0 + t * dy
            gx, gy = px / a ** 2, py / b ** 2
            sine = np.abs(gx * dx + gy * dy) / np.hypot(gx, gy) / L
        return t, np.full(x0.shape, -1), np.full(x0.shape, np.inf), sine
    vx, vy = vertices(c)
    best = np.full(x0.shape, np.inf)
    seg = np.full(x0.shape, -1)
    corner = np.full(x0.shape, np.inf)
    sine = np.ones(x0.shape)
    for k, (a, b, e, f) in enumerate(zip(vx, vy, np.roll(vx, -1), np.roll(vy, -1))):
        ex, ey = e - a, f - b
        den = dx * ey - dy * ex
        with np.errstate(all="ignore"):
            t = ((a - x0) * ey - (b - y0) * ex) / den
            q = ((a - x0) * dy - (b - y0) * dx) / den
            s = np.abs(den) / L / np.hypot(ex, ey)
            hit = (den != 0) & (t >= 0) & (t <= 1) & (q >= 0) & (q <= 1)
            corner = np.minimum(corner, np.abs((a - x0) * dy - (b - y0) * dx) / L)
        new = hit & (t < best)
        best = np.where(new, t, best)
        seg = np.where(new, k, seg)
        sine = np.where(new, s, sine)
    return best, seg, corner, sine


def inward(c, x, y, seg):
    """Unit vector pointing from the wall into the chamber."""
    M = c["mach"]
    if M["chamb_type"] == "ellip":
        gx, gy = -x / M["x_aper"] ** 2, -y / M["y_aper"] ** 2
    else:
        vx, vy = vertices(c)
        gx, gy = -(np.roll(vy, -1) - vy)[seg], (np.roll(vx, -1) - vx)[seg]
    n = np.hypot(gx, gy)
    return gx / n, gy / n
