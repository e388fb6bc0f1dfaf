ID='C19-passage-counted-late'; PROP='C19'
EDITS=[('beam_and_timing.py',"""            self._pass_numb_old = self.pass_numb
""","""            self._pass_numb_old += 1
""")]
NEEDS='a beam profile from file with a time step longer than the bunch spacing (e.g. an abort gap in one step)'
BREAKS='after a step that spans several passages, following steps are taken for the start of a new passage'
DEMO='''from kit import *
import scipy.io as sio
c = base()
t = [0.]
for n, dt in ((30, 5e-11), (1, 6e-9), (60, 5e-11)):
    for _ in range(n):
        t.append(t[-1] + dt)
t = np.array(t)
os.makedirs(TOP + "/run")
sio.savemat(TOP + "/run/prof.mat", dict(t=t, lam_t_array=0 * t + 1e9))
c["beam"].update(flag_bunched_beam=0, beam_long_prof_file=TOP + "/run/prof.mat", fact_beam=1., filling_pattern_file=-1, sigmaz=-1)
sim = build(c)
new = []
while step(sim):
    if sim.beamtim.flag_new_bunch_pass:
        new.append(int(sim.beamtim.pass_numb))
check(len(new) == len(set(new)), "passages %s" % new)
'''
