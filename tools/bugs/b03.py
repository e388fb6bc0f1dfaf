ID='C08-lifetime-mixed-up-by-soft-regeneration'; PROP='C08'; ALSO=['C05']
EDITS=[('MP_system.py',"""                self.nel_mp[self.N_mp:] = 0.0

                if self.flag_lifetime_hist:
                    self.t_last_impact[0:self.N_mp] = np.array(self.t_last_impact[flag_keep].copy())

                chrg_before = chrg
""","""                self.nel_mp[self.N_mp:] = 0.0

                chrg_before = chrg
""")]
NEEDS='lifetime histogram together with a soft or asynchronous regeneration'
BREAKS='after a soft regeneration the macroparticles carry the impact times of others, so the lifetime histogram is wrong'
DEMO='''from kit import *
c = base()
c["sim"].update(flag_lifetime_hist=True, Nbin_lifetime_hist=20, lifetime_hist_max=5e-9, Dt_lifetime_hist=1e-9)
sim = build(c)
for _ in range(40):
    step(sim)
mp = sim.cloud_list[0].MP_e
n = mp.N_mp
mp.t_last_impact[:n] = 1e3 + mp.x_mp[:n]
with quiet():
    mp.perform_soft_regeneration(n // 2)
m = mp.N_mp
check(m < n and np.array_equal(mp.t_last_impact[:m], 1e3 + mp.x_mp[:m]), "impact times do not belong to their macroparticles")
'''
