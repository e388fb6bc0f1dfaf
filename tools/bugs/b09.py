ID='C17-refresh-schedule-on-grid'; PROP='C17'
EDITS=[('space_charge_class.py',"""        if flag_recompute:
            self.t_last_recom = t_curr

""","""        if flag_recompute:
            if self.flag_decimate:
                # avoid drifting with respect to the requested interval
                self.t_last_recom += self.Dt_sc
            else:
                self.t_last_recom = t_curr

""")]
NEEDS='a refresh interval that is not a multiple of the time step, or time steps longer than it'
BREAKS='the self-field is refreshed before the requested interval has elapsed since the last refresh'
DEMO='''from kit import *
c = base()
c["sim"]["Dt_sc"] = 1.3e-10
sim = build(c)
last, t = 0., []
while step(sim):
    if sim.spacech_ele.last_recomputation_check:
        t.append(float(sim.beamtim.tt_curr))
d = np.diff(t)
check(d.min() > 1.3e-10 - 1e-14, "refreshed after %g s" % d.min())
'''
