ID='C26-skew-gradient-without-factorial'; PROP='C26'
EDITS=[('dynamics_Boris_multipole.py',"self.B_field_skew = np.array(B_skew, dtype=float) / factorial","self.B_field_skew = np.array(B_skew, dtype=float)")]
NEEDS='a skew sextupole or a higher skew component'
BREAKS='electrons move in a skew field that is too strong by the factorial of its order'
DEMO='''from kit import *
import types
from PyECLOUD.dynamics_Boris_multipole import pusher_Boris_multipole as P
u = np.random.RandomState(1)
n = 50
def cloud():
    u = np.random.RandomState(1)
    m = types.SimpleNamespace(N_mp=n, charge=-QE, mass=9.1e-31)
    for k in ("x", "y", "z"):
        setattr(m, k + "_mp", 1e-2 * u.randn(n))
    for k in ("x", "y", "z"):
        setattr(m, "v" + k + "_mp", 1e6 * u.randn(n) * (k == "z"))
    return m
def bend(order, normal):
    B = [0.] * order + [50. * 100 ** (order - 1)]
    m = cloud()
    if not normal:      # a skew multipole is a normal one turned by -90 degrees / (order + 1)
        a = np.pi / 2 / (order + 1)
    o = cloud()
    with quiet():
        p = P(1e-14, 1, B if normal else [0.] * (order + 1), [0.] * (order + 1) if normal else B)
        p.step(m, np.zeros(n), np.zeros(n))
    return np.hypot(m.vx_mp - o.vx_mp, m.vy_mp - o.vy_mp)
for order in (1, 2, 3):
    # |B| is the same for both at the same place, and so is the transverse acceleration vz x B
    a, b = bend(order, True), bend(order, False)
    check(np.all(np.abs(a - b) < 1e-3 * a.max()) and a.max() > 0, "order %d: a skew field of %g times the strength" % (order, np.median(b / a)))
'''
