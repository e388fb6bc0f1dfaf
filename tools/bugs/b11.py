ID='C04-request-skipped-while-empty'; PROP='C04'
EDITS=[('pyecloud_saver.py',"""            if (MP_e.N_mp > 0) and (self.i_obs < self.N_obs):
                if (beamtim.tt_curr >= self.t_obs[self.i_obs]):
""","""            if self.i_obs < self.N_obs and beamtim.tt_curr >= self.t_obs[self.i_obs]:
                if MP_e.N_mp == 0:
                    print('No macroparticles to save')
                    self.i_obs = self.i_obs + 1
                else:
""")]
NEEDS='a snapshot requested at a time at which the cloud is empty'
BREAKS='the snapshot is not taken at the first time step at which it can be taken'
DEMO='''from kit import *
c = base()
c["mach"].update(gas_ion_flag=1, P_nTorr=3e5, sigma_ion_MBarn=2., Temp_K=300., unif_frac=0., E_init_ion=.1, init_unif_flag=0)
c["mach"].pop("Nel_init_unif")
c["sim"]["nel_mp_ref_0"] = 1e6
c["sim"]["save_mp_state_time_file"] = [0.]
sim = build(c)
check(sim.cloud_list[0].MP_e.N_mp == 0, "not empty")
while step(sim):
    pass
check(sim.cloud_list[0].MP_e.N_mp > 0, "empty")
check(any(f.startswith("MP_state_0") for f in os.listdir(TOP + "/run/out")), "snapshot missing")
'''
