ID='C27-overlapping-bunches-overwrite'; PROP='C27'
EDITS=[('beam_and_timing.py',"val[mask_to_be_updated] = val[mask_to_be_updated] + ppb / (sigmaz","val[mask_to_be_updated] = ppb / (sigmaz")]
NEEDS='bunches so long or so close that their tails overlap (spacing below twenty times the bunch length)'
BREAKS='the tail of a bunch removes that of the bunch before it from the line density'
DEMO='''from kit import *
from PyECLOUD.beam_and_timing import bunch_train4
t = np.arange(0, 40e-9, 2e-11)
s = .6
with quiet():
    v = bunch_train4(t, 5e-9, 8e-9, np.array([1., 2., 0., 1.5]), np.array([s, s, 0., s]))
w = 0 * t
for k, p in enumerate([1., 2., 0., 1.5]):
    w += p / (s * np.sqrt(2 * np.pi)) * np.exp(-.5 * ((t - 8e-9 - k * 5e-9) * 299792458. / s) ** 2)
check(np.max(np.abs(v - w)) < 1e-9 * w.max(), "line density is wrong by %g" % (np.max(np.abs(v - w)) / w.max()))
'''
