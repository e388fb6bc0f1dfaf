ID='C08-cleaned-charge-returns'; PROP='C08'
EDITS=[('MP_system.py',"""        self.nel_mp[0:self.N_mp] = self.nel_mp[flag_keep].copy()

        self.nel_mp[self.N_mp:] = 0.0

        if self.flag_lifetime_hist:
""","""        self.nel_mp[0:self.N_mp] = self.nel_mp[flag_keep].copy()

        if self.flag_lifetime_hist:
""")]
NEEDS='a cleaning that removes macroparticles, followed by a regeneration at the same passage'
BREAKS='a regeneration after a cleaning counts macroparticles that do not exist any more and increases the charge'
DEMO='''from kit import *
c = base()
sim = build(c)
mp = sim.cloud_list[0].MP_e
mp.nel_mp[:100] = 1e-9
with quiet():
    mp.clean_small_MPs()
    q = nel(mp)
    mp.perform_soft_regeneration(mp.N_mp // 2)
check(abs(nel(mp) - q) < 1e-6 * q, "charge %g -> %g" % (q, nel(mp)))
'''
