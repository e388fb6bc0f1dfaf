ID='C25-beyond-table-mask-not-recomputed'; PROP='C25'
EDITS=[('sec_emission_model_from_file.py',"""            E_impact_eV_scaled = E_impact_eV / (1. + 0.7 * (1. - costheta_impact))

            mask_fit = (E_impact_eV_scaled > self.energy_eV_max)
            mask_regular = ~mask_fit

""","""            E_impact_eV_scaled = E_impact_eV / (1. + 0.7 * (1. - costheta_impact))

""")]
NEEDS='a surface from file with flag_costheta_Emax_shift, and an impact at grazing incidence whose energy is beyond the end of the table by less than the shift'
BREAKS='the yield of such an impact is taken from the extrapolation instead of the table'
DEMO='''from kit import *
import scipy.io as sio
e = np.arange(0., 401., 5.)
x = np.maximum(e, 1e-9) / 332.
t = 1.9 * 1.35 * x / (.35 + x ** 1.35)
os.makedirs(TOP + "/run/in")
sio.savemat(TOP + "/run/in/s.mat", dict(energy_eV=e, sey_true=t, sey_elast=0 * e, extrapolate_grad_true=0., extrapolate_const_true=.3,
                               extrapolate_grad_elast=0., extrapolate_const_elast=0.))
c = base()
c["sey"].update(switch_model="from_file", sey_file=TOP + "/run/in/s.mat", flag_costheta_delta_scale=False, flag_costheta_Emax_shift=True)
sim = build(c)
sey = sim.cloud_list[0].impact_man.sey_mod
E, ct = np.array([100., 390., 410., 500., 900.]), np.array([.5, .2, .1, .2, .3])
got = sey.SEY_process(np.ones(5), E, ct, None)[0]
s = E / (1 + .7 * (1 - ct))
want = np.where(s > 400., .3, np.interp(s, e, t))
check(np.allclose(got, want), "yields %s instead of %s" % (got, want))
'''
