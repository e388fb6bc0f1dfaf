ID='C05-probe-history-garbled-by-growth'; PROP='C05'
EDITS=[('pyecloud_saver.py',"""                self.el_dens_at_probes = np.concatenate(
                    (self.el_dens_at_probes, 0 * self.el_dens_at_probes), axis=1)
""","""                self.el_dens_at_probes = np.resize(
                    self.el_dens_at_probes, (self.N_el_dens_probes, len(self.t)))
""")]
NEEDS='several density probes and more recorded samples than the initial size of the buffers'
BREAKS='samples of one probe end up in the history of another when the buffers grow'
DEMO='''from kit import *
c = base()
c["sim"]["el_density_probes"] = [dict(x=0., y=0., r_obs=5e-3), dict(x=5e-3, y=2e-3, r_obs=4e-3)]
c["sim"]["Dt"] = 1e-11
c["beam"]["filling_pattern_file"] = [1.] * 5
sim = build(c)
s = sim.cloud_list[0].pyeclsaver
mp = sim.cloud_list[0].MP_e
ref = []
import inspect
while step(sim):
    n = mp.N_mp
    if s.i_last_save + 1 > len(ref):
        ref.append(float(s.el_dens_at_probes[1, s.i_last_save]))
n = len(ref)
check(n > 1000, "only %d samples" % n)
check(np.array_equal(np.array(ref), s.el_dens_at_probes[1, :n]), "history of the second probe changed afterwards")
'''
