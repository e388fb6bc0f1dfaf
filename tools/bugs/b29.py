ID='C25-counts-piled-up-at-M-cut'; PROP='C25'
EDITS=[('sec_emission_model_furman_pivi.py',"""            i_attempt = 0
            while Nabove_th > 0:
                n_emit_truesec_MPs_flag_true_sec[flag_above_th] = self.get_number_true_sec(delta_ts_prime[flag_above_th])
                if i_attempt>10:
""","""            i_attempt = 0
            while Nabove_th > 0:
                if i_attempt>10:
                    n_emit_truesec_MPs_flag_true_sec[flag_above_th] = self.get_number_true_sec(delta_ts_prime[flag_above_th])
                else:
""")]
NEEDS='a Furman-Pivi surface with Poisson counts, an event drawn above M_cut'
BREAKS='events with more than M_cut secondaries are turned into events with M_cut instead of being drawn again'
DEMO='''from kit import *
c = base()
f = dict(use_modified_sigmaE=False, use_ECLOUD_theta0_dependence=False, use_ECLOUD_energy=False, conserve_energy=False, choice="poisson", M_cut=4,
         p_n=np.full(4, 2.), eps_n=np.full(4, 3.), exclude_rediffused=True, p1EInf=.02, p1Ehat=.5, eEHat=0., w=60.86, p=1., e1=.26, e2=2., sigmaE=2.,
         p1RInf=.2, eR=.041, r=.104, q=.5, r1=.26, r2=2., deltaTSHat=2., eHat0=276.8, s=1.54, t1=.66, t2=.8, t3=.7, t4=1.)
c["sey"].update(switch_model="furman_pivi", furman_pivi_surface=f)
np.set_printoptions(threshold=10**6)
import builtins
class D(dict):
    def __repr__(self): return "dict(" + ", ".join("%s=%s" % (k, "__import__('numpy').array(%r)" % v.tolist() if hasattr(v, "tolist") else repr(v)) for k, v in self.items()) + ")"
c["sey"]["furman_pivi_surface"] = D(f)
sim = build(c)
sey = sim.cloud_list[0].impact_man.sey_mod
n = 200000
o, z = np.ones(n), np.zeros(n)
E = 277. * o
np.random.seed(5)
out = sey.impacts_on_surface(9.10938e-31, o, z, z, z, -o * 9.8e6, z, z, o, z, None, -o * 9.8e6, E, o, 1e99, False)
k = np.round(out[0]).astype(int)
from math import factorial, exp
de, _, dt = sey.yield_fun_furman_pivi(E[:1], o[:1])[0], 0, sey.delta_ts(E[:1], o[:1])
de, l = float(de[0]), float(dt[0] / (1 - de[0]))
p = np.array([l ** i / factorial(i) for i in range(5)]); p /= p.sum()
want = (1 - de) * p + de * np.eye(5)[1]
got = np.bincount(k, minlength=5)[:5] / n
check(np.all(abs(got - want) < 6 * np.sqrt(want / n)), "counts %s instead of %s" % (got, want))
'''
