ID='C12-empty-cloud-skips-the-exchange'; PROP='C12'
EDITS=[('space_charge_class.py',"            if self.comm is not None:\n                n_sims","            if self.comm is not None and MP_e.N_mp > 0:\n                n_sims")]
NEEDS='a participant whose (last) cloud has no electrons at a refresh while others have some'
BREAKS='that participant does not take part in the exchange: the others wait for ever, or the exchanges of different refreshes are mixed up'
DEMO='''from kit import *
import threading
from PyECLOUD.MP_system import MP_system
from PyECLOUD.space_charge_class import space_charge
from PyECLOUD.geom_impact_ellip import ellip_cham_geom_object
class Comm:
    bar = threading.Barrier(2, timeout=20)
    box = {}
    def __init__(self, r): self.r = r
    def Get_size(self): return 2
    def Get_rank(self): return self.r
    def Gather(self, s, d):
        self.box[self.r] = s.copy(); self.bar.wait()
        if self.r == 0: d[:] = np.concatenate([self.box[0], self.box[1]])
        self.bar.wait()
    def Bcast(self, a):
        if self.r == 0: self.box["b"] = a.copy()
        self.bar.wait()
        a[:] = self.box["b"]
        self.bar.wait()
with quiet():
    ch = ellip_cham_geom_object(.02, .015)
    sp = [space_charge(ch, 1e-3, Dt_sc=None) for _ in range(2)]
import types
def cloud(n):
    u = np.random.RandomState(4)
    return types.SimpleNamespace(N_mp=n, charge=-QE, x_mp=5e-3 * u.rand(n), y_mp=5e-3 * u.rand(n), nel_mp=1e6 * np.ones(n))
ref = None
with quiet():
    sp[0].recompute_spchg_efield(cloud(40)); ref = sp[0].efx.copy()
    for r in (0, 1): sp[r].comm = Comm(r)
err = []
def go(r):
    try:
        sp[r].recompute_spchg_efield(cloud(40 if r == 0 else 0))
    except BaseException as e:
        err.append(e)
th = [threading.Thread(target=go, args=(r,)) for r in (0, 1)]
[t.start() for t in th]; [t.join(60) for t in th]
check(not err, "the participants did not meet: %r" % err)
for r in (0, 1):
    check(np.allclose(sp[r].efx, ref / 2, rtol=1e-6, atol=1e-9 * np.abs(ref).max()), "participant %d has another field" % r)
'''
