HT='''from kit import *
import types, copy
for nme in ("PyHEADTAIL", "PyHEADTAIL.particles", "PyHEADTAIL.particles.slicing"):
    sys.modules[nme] = types.ModuleType(nme)
sys.modules["PyHEADTAIL"].particles = sys.modules["PyHEADTAIL.particles"]
sys.modules["PyHEADTAIL.particles"].slicing = sys.modules["PyHEADTAIL.particles.slicing"]
class Slicer:
    def __init__(self, n): self.n_slices = n
sys.modules["PyHEADTAIL.particles.slicing"].UniformBinSlicer = Slicer
CL = 299792458.
class Slices:
    def __init__(self, b, n):
        self.n_slices, self.z_bins = n, np.linspace(-.1, .1, n + 1)
        self.k = np.floor((b.z + .1) / .2 * n).astype(int)
        o = np.argsort(self.k, kind="stable")
        o = o[(self.k[o] >= 0) & (self.k[o] < n)]
        self.particle_indices_by_slice = o
        self.slice_positions = np.concatenate(([0], np.cumsum([np.sum(self.k == i) for i in range(n)])))
    def particle_indices_of_slice(self, i): return self.particle_indices_by_slice[self.slice_positions[i]:self.slice_positions[i + 1]]
class Beam:
    def __init__(self, seed=1, n=300, gamma=480., inten=1e11, ox=1e-3):
        u = np.random.RandomState(seed)
        self.x, self.y, self.z = ox + 5e-4 * u.randn(n), 4e-4 * u.randn(n), .04 * u.randn(n)
        self.xp, self.yp = np.zeros(n), np.zeros(n)
        self.charge, self.mass, self.gamma = QE, 1.67262e-27, gamma
        self.beta = np.sqrt(1 - 1 / gamma ** 2)
        self.p0 = self.mass * self.beta * gamma * CL
        self.particlenumber_per_mp = inten / n
        self.s = {}
    macroparticlenumber = property(lambda self: len(self.x))
    def get_slices(self, slicer):
        if slicer not in self.s: self.s[slicer] = Slices(self, slicer.n_slices)
        return self.s[slicer]
    def clean_slices(self): self.s = {}
    def pieces(self, n, i_bunch=None):
        s, out = Slices(self, n), []
        for k, i in enumerate(range(n - 1, -1, -1)):
            ix = s.particle_indices_of_slice(i)
            p = copy.copy(self)
            for q in ("x", "y", "xp", "yp", "z"): setattr(p, q, getattr(self, q)[ix].copy())
            p.slice_info = dict(z_bin_left=s.z_bins[i], z_bin_right=s.z_bins[i + 1])
            if i_bunch is not None: p.slice_info.update(info_parent_bunch=dict(i_bunch=i_bunch), i_slice=k)
            p.s, p.ix = {}, ix
            out.append(p)
        return out
def element(name="el", n=6, slicewise=False, seed=3, mod=None, L=10., save=None, **kw):
    c = base()
    c["sim"].update(Dt=2e-10, Dt_sc=None, nel_mp_ref_0=2e9 / 300)
    c["mach"].update(track_method="Boris", Nel_init_unif=2e9, N_sub_steps=1)
    if mod: mod(c)
    root = write(c, name)
    os.chdir(root)
    from PyECLOUD.PyEC4PyHT import Ecloud
    np.random.seed(seed)
    with quiet():
        return Ecloud(L, None if slicewise else Slicer(n), 2e-11, root + "/in", slice_by_slice_mode=slicewise, save_pyecl_outp_as=save, **kw)
def track(el, b, seed=7):
    np.random.seed(seed)
    with quiet():
        for x in (b if isinstance(b, list) else [b]): el.track(x)
'''
