ID='C22-one-impact-per-segment-charges'; PROP='C22'
EDITS=[('sec_emission_model_ECLOUD_nunif.py',"""        for i_edg, flag_Q in enumerate(self.flag_charging):

            if flag_Q:
                mask_impact_here = (i_impact == i_edg)
                n_impact_here = np.sum(nel_impact[mask_impact_here])
                n_emit_here = np.sum(nel_emit[mask_impact_here])

                self.Q_segments[i_edg] += (n_impact_here - n_emit_here)*(-qe)/self.chamb.L_edg[i_edg]
""","""        if np.any(mask_charging):
            i_charging = i_impact[mask_charging]
            self.Q_segments[i_charging] += (nel_impact - nel_emit)[mask_charging] * (-qe) / self.chamb.L_edg[i_charging]
""")]
NEEDS='two or more electrons hitting the same insulating segment in the same time step'
BREAKS='only one of the impacts of a time step charges the segment'
DEMO='''from kit import *
import types
from PyECLOUD.sec_emission_model_ECLOUD_nunif import SEY_model_ECLOUD_non_unif_charging as M
n = 4
ch = types.SimpleNamespace(chamb_type="polyg", del_max_segments=-np.ones(n), R0_segments=-np.ones(n), Emax_segments=-np.ones(n), flag_charging=np.array([1, 0, 1, 0]),
                           Q_max_segments=1e-3 * np.ones(n), EQ_segments=20. * np.ones(n), tau_segments=-np.ones(n), L_edg=.02 * np.ones(n), N_vert=n)
with quiet():
    m = M(ch, 332., 1.7, .7, E_th=35., sigmafit=1.0828, mufit=1.6636, secondary_angle_distribution="cosine_3D")
i = np.array([0, 0, 2, 1, 0, 2])
nel = np.array([1e6, 2e6, 3e6, 4e6, 5e6, 6e6])
E = np.array([10., 100., 300., 50., 900., 30.])
out = m.SEY_process(nel, E, np.ones(6), i)
em = out[0]
for s in (0, 2):
    want = np.sum((nel - em)[i == s]) * -QE / .02
    check(abs(m.Q_segments[s] - want) < 1e-6 * abs(want), "segment %d: %g instead of %g" % (s, m.Q_segments[s], want))
check(m.Q_segments[1] == 0, "a conducting segment was charged")
'''
