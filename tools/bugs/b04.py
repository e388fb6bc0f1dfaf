ID='C09-energy-histogram-limits-impact-energy'; PROP='C09'; ALSO=['C06']
EDITS=[('impact_management_class.py',"""                En_imp_hist = E_impact_eV.copy()
""","""                En_imp_hist = E_impact_eV
""")]
NEEDS='electrons hitting the wall with more energy than the upper edge of the energy histogram'
BREAKS='the upper edge of the energy histogram changes the impact energies used for the secondary emission'
DEMO='''from kit import *
res = []
for emax in (2000., 30.):
    c = base()
    c["sim"]["En_hist_max"] = emax
    sim = build(c, "r%d" % emax)
    while step(sim):
        pass
    mp = sim.cloud_list[0].MP_e
    res.append((mp.N_mp, nel(mp), mp.x_mp[:mp.N_mp].tobytes()))
check(res[0] == res[1], "the histogram settings change the simulation")
'''
