ID='C10-cached-sey-file'; PROP='C10'
EDITS=[('sec_emission_model_from_file.py',"""from .sec_emission_model_ECLOUD import SEY_model_ECLOUD

""","""from .sec_emission_model_ECLOUD import SEY_model_ECLOUD


_loaded_files = {}

"""),('sec_emission_model_from_file.py',"""        energy_eV = sey_properties['energy_eV'].squeeze()
        sey_true = sey_properties['sey_true'].squeeze()
        sey_elast = sey_properties['sey_elast'].squeeze()
""","""        if type(sey_file) is not dict:
            sey_properties = _loaded_files.setdefault(sey_file, sey_properties)

        energy_eV, sey_true, sey_elast = [
            sey_properties[kk].squeeze() for kk in ('energy_eV', 'sey_true', 'sey_elast')]
""")]
NEEDS='two simulations in one process whose surface file has the same (e.g. relative) name but another content'
BREAKS='the second simulation uses the secondary emission yield of the first one'
DEMO='''from kit import *
import scipy.io as sio


def run(name, dmax):
    os.makedirs(TOP + "/" + name + "/in")
    os.chdir(TOP + "/" + name)
    e = np.arange(0., 1500., 5.)
    x = np.maximum(e, 1e-9) / 332.
    sio.savemat("sey.mat", dict(energy_eV=e, sey_true=dmax * 1.35 * x / (0.35 + x ** 1.35), sey_elast=0.7 * np.exp(-e / 60.), extrapolate_grad_true=0.,
                                extrapolate_const_true=0.3, extrapolate_grad_elast=0., extrapolate_const_elast=0.))
    c = base()
    c["sey"] = dict(switch_model="from_file", sey_file="sey.mat", E_th=35., sigmafit=1.0828, mufit=1.6636, switch_no_increase_energy=0, thresh_low_energy=-1,
                    scrub_en_th=20., secondary_angle_distribution="cosine_3D", flag_costheta_delta_scale=True, flag_costheta_Emax_shift=True)
    sim = build(c, name)
    for _ in range(100):
        step(sim)
    mp = sim.cloud_list[0].MP_e
    return mp.N_mp, nel(mp)


if os.fork() == 0:
    r = run("a", 2.2)
    with open(TOP + "/alone", "w") as f:
        f.write(repr(r))
    os._exit(0)
os.wait()
run("b", 1.2)
shutil.rmtree(TOP + "/a")
r = run("a", 2.2)
check(repr(r) == open(TOP + "/alone").read(), "a simulation depends on one run before in the same process")
'''
