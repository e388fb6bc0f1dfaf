exec(open('/tmp/p/plant/b/ht.py').read())
ID='C23-kick-without-one-beta'; PROP='C23'
EDITS=[('PyEC4PyHT.py',"/ (slic.mass * slic.beta * slic.beta * slic.gamma * c * c)","/ (slic.mass * slic.beta * slic.gamma * c * c)")]
NEEDS='a beam that is not ultra-relativistic'
BREAKS='the cloud kicks the beam too weakly by a factor beta'
DEMO=HT+'''
el = element()
el.save_ele_field = True
with quiet(): el._reinitialize()
b = Beam(gamma=1.4)
track(el, b)
from PyPIC.PyPIC_Scatter_Gather import PyPIC_Scatter_Gather as G
g = G(xg=el.spacech_ele.xg, yg=el.spacech_ele.yg)
s = Slices(b, 6)
w = 0
for i in range(6):
    ix = s.particle_indices_of_slice(i)
    g.efx, g.efy = el.Ex_ele_last_track[i], el.Ey_ele_last_track[i]
    ex, ey = g.gather(b.x[ix], b.y[ix])
    f = QE / (b.mass * b.gamma * b.beta ** 2 * CL ** 2) * 10.
    w = max(w, np.max(np.abs(b.xp[ix] - f * ex)) / np.max(np.abs(b.xp)))
check(np.max(np.abs(b.xp)) > 0 and w < 1e-6, "kicks differ from the Lorentz force by %g" % w)
'''
