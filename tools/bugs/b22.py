exec(open('/tmp/p/plant/b/ht.py').read())
ID='C15-passage-number-kept'; PROP='C15'
EDITS=[('PyEC4PyHT.py',"        self._reset_space_charge_state()\n        self.i_curr_bunch = -1\n        self.i_reinit += 1","        self._reset_space_charge_state()\n        self.i_reinit += 1")]
NEEDS='slice-by-slice tracking of several turns with information on the parent bunch'
BREAKS='from the second turn on, no slice starts a new bunch passage: nothing is cleaned or recorded at the passages'
DEMO=HT+'''
el = element(slicewise=True, save=os.path.join(TOP, "pinch"), mod=lambda c: c["sim"].update(Dt=5e-10))
n = []
orig = el.cloudsim.sim_time_step
def spy(*a, **k):
    n[-1] += bool(k["beamtim_obj"].flag_new_bunch_pass)
    return orig(*a, **k)
el.cloudsim.sim_time_step = spy
for turn in range(2):
    n.append(0)
    for bunch in range(2):
        track(el, Beam(seed=bunch).pieces(4, bunch))
check(n[0] == n[1] and n[0] == 2, "bunch passages per turn: %r" % n)
'''
