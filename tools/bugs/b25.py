ID='C07-negative-energy-drawn-again-once'; PROP='C07'
EDITS=[('electron_emission.py',"""        flag_negat = (En_gen < 0.)
        N_neg = np.sum(flag_negat)
        while(N_neg > 0):
            En_gen[flag_negat] = random.randn(N_neg) * self.e_pe_sigma + self.e_pe_max  # in eV
            flag_negat = (En_gen < 0.)
            N_neg = np.sum(flag_negat)
        return En_gen
""","""        flag_negat = (En_gen < 0.)
        N_neg = np.sum(flag_negat)
        if N_neg > 0:
            En_gen[flag_negat] = random.randn(N_neg) * self.e_pe_sigma + self.e_pe_max  # in eV
        return En_gen
""")]
NEEDS='a photoelectron whose energy is drawn negative twice in a row'
BREAKS='the velocity of the photoelectron is not a number'
DEMO='''from kit import *
c = base()
c["mach"].update(photoem_flag=1, inv_CDF_refl_photoem_file="unif_no_file", k_pe_st=2e-3, refl_frac=.5, alimit=.05, e_pe_sigma=5., e_pe_max=1.,
                 x0_refl=0., y0_refl=0., out_radius=0.0305, phem_resc_fac=.99, photoelectron_angle_distribution="cosine_3D",
                 energy_distribution="gaussian", flag_continuous_emission=False)
sim = build(c)
while step(sim):
    mp = sim.cloud_list[0].MP_e
    n = mp.N_mp
    check(np.all(np.isfinite(mp.vx_mp[:n] + mp.vy_mp[:n] + mp.vz_mp[:n])), "a velocity is not a number at step %d" % sim.beamtim.ii_curr)
'''
