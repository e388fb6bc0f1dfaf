exec(open('/tmp/p/plant/b/ht.py').read())
ID='C21-slices-of-the-first-bunch'; PROP='C21'
EDITS=[('Transverse_Efield_map_for_frozen_cloud.py',"""        slices = beam.get_slices(self.slicer)

        for sid in range(slices.n_slices - 1, -1, -1):

            # select particles in the slice
            pid = slices.particle_indices_of_slice(sid)
""","""        if not hasattr(self, '_pids'):
            slices = beam.get_slices(self.slicer)
            self._pids = [slices.particle_indices_of_slice(sid)
                          for sid in range(slices.n_slices)]

        for sid in range(len(self._pids) - 1, -1, -1):

            # select particles in the slice
            pid = self._pids[sid]
""")]
NEEDS='a second passage through the replaced element, of a bunch whose particles moved to other slices'
BREAKS='particles get the kick of the slice they were in at the first passage'
DEMO=HT+'''
el = element()
with quiet(): el.track_once_and_replace_with_recorded_field_map(Beam(), delete_ecloud_data=False)
a = Beam(); track(el, a)
b = Beam(); b.z = -b.z; b.x[:] = a.x; track(el, b)
from PyPIC.PyPIC_Scatter_Gather import PyPIC_Scatter_Gather as G
g = G(xg=el.spacech_ele.xg, yg=el.spacech_ele.yg)
s = Slices(b, 6)
for i in range(6):
    ix = s.particle_indices_of_slice(i)
    g.efx, g.efy = el.efieldmap.Ex[i], el.efieldmap.Ey[i]
    ex, ey = g.gather(b.x[ix], b.y[ix])
    f = QE / (b.p0 * b.beta * CL) * 10.
    check(np.allclose(b.xp[ix], f * ex, rtol=1e-6, atol=1e-9 * np.abs(b.xp).max()), "slice %d is not kicked by its field" % i)
'''
