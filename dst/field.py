"""The field of a Gaussian beam in a conducting chamber, computed from the shape of the wall alone: closed formula in open space (Faddeeva function, Bassetti-Erskine) plus
the field of the charge induced on the wall (boundary elements), for comparison with the finite differences and the series of the code under test."""
import numpy as np

from . import geom

EPS0 = 8.8541878128e-12


def wall(c, n=480):
    """Panels of the wall: end points (n+1, 2), counterclockwise or not."""
    M = c["mach"]
    if M["chamb_type"] == "ellip":
        a = 2 * np.pi * np.arange(n + 1) / n
        return np.c_[M["x_aper"] * np.cos(a), M["y_aper"] * np.sin(a)]
    v = np.array(geom.vertices(c)).T
    w = np.vstack([v, v[:1]])
    L = np.hypot(*np.diff(w, axis=0).T)
    out = []
    for p, q, l in zip(w[:-1], w[1:], L):
        m = max(4, int(round(n * l / L.sum())))
        s = .5 - .5 * np.cos(np.pi * np.arange(m) / m) if m < 6 else (lambda u: u - .8 * np.sin(2 * np.pi * u) / (2 * np.pi))(np.arange(m) / m)      # finer at the corners
        out.append(p + np.outer(s, q - p))
    return np.vstack(out + [w[:1]])


def gauss(x, y, sx, sy):
    """Field of a unit line density (1 C/m) of Gaussian section at the origin."""
    from scipy.special import wofz
    x, y = np.asarray(x, float), np.asarray(y, float)
    r2 = x * x + y * y
    if abs(sx - sy) < 1e-9 * sx:
        f = -np.expm1(-r2 / (2 * sx * sx)) / (2 * np.pi * EPS0 * np.maximum(r2, 1e-30))
        return f * x, f * y
    if sx < sy:
        Ey, Ex = gauss(y, x, sy, sx)
        return Ex, Ey
    S = np.sqrt(2 * (sx * sx - sy * sy))
    ax, ay = np.abs(x), np.abs(y)
    v = (wofz((ax + 1j * ay) / S) - np.exp(-x * x / (2 * sx * sx) - y * y / (2 * sy * sy)) * wofz((ax * sy / sx + 1j * ay * sx / sy) / S)) / (2 * EPS0 * np.sqrt(np.pi) * S)
    return v.imag * np.sign(x), v.real * np.sign(y)


def gauss_pot(x, y, sx, sy):
    """Potential far from the centre (monopole and quadrupole)."""
    r2 = x * x + y * y
    return -(np.log(r2) / 2 - (sx * sx - sy * sy) * (x * x - y * y) / (2 * r2 * r2)) / (2 * np.pi * EPS0)


class Chamber:
    def __init__(self, c, n=480):
        w = wall(c, n)
        self.p, self.d = w[:-1], np.diff(w, axis=0)
        self.l = np.hypot(*self.d.T)
        self.t = self.d / self.l[:, None]
        self.c = .5 * (w[:-1] + w[1:])
        # potential of a uniformly charged panel at the centres of all, exactly
        self.A = self.pot(self.c[:, 0], self.c[:, 1])
        import scipy.linalg as sl
        self.lu = sl.lu_factor(self.A)
        self.sl = sl

    def local(self, x, y):
        dx, dy = x[:, None] - self.p[None, :, 0], y[:, None] - self.p[None, :, 1]
        u = dx * self.t[:, 0] + dy * self.t[:, 1]
        v = -dx * self.t[:, 1] + dy * self.t[:, 0]
        return u, v

    def pot(self, x, y):
        u, v = self.local(x, y)
        u2 = self.l - u

        def F(s):       # integral of ln sqrt(s^2 + v^2)
            r2 = s * s + v * v
            return .5 * s * np.log(np.maximum(r2, 1e-300)) - s + np.abs(v) * np.arctan2(s, np.abs(v) + 1e-300)
        return -(F(u2) + F(u)) / (2 * np.pi * EPS0)

    def field(self, x, y, x0, y0, sx, sy):
        """Field at interior points of the beam at (x0, y0)."""
        x, y = np.atleast_1d(x).astype(float), np.atleast_1d(y).astype(float)
        q = self.sl.lu_solve(self.lu, -gauss_pot(self.c[:, 0] - x0, self.c[:, 1] - y0, sx, sy))
        # the total potential on the wall is a constant, zero by convention
        u, v = self.local(x, y)
        u2 = self.l - u
        Eu = .5 * np.log((u * u + v * v) / (u2 * u2 + v * v))
        Ev = np.sign(v) * (np.arctan2(u2, np.abs(v)) + np.arctan2(u, np.abs(v)))
        k = 1 / (2 * np.pi * EPS0)
        Ex = k * ((Eu * self.t[:, 0] - Ev * self.t[:, 1]) @ q)
        Ey = k * ((Eu * self.t[:, 1] + Ev * self.t[:, 0]) @ q)
        gx, gy = gauss(x - x0, y - y0, sx, sy)
        return Ex + gx, Ey + gy
