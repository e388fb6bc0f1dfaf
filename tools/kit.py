"""Small stand-alone set-ups of PyECLOUD in a scratch folder."""
import contextlib
import io
import os
import shutil
import sys
import tempfile

import numpy as np

TOP = tempfile.mkdtemp(prefix="pyecl-demo-")
os.symlink(os.getcwd(), os.path.join(TOP, "PyECLOUD"))
sys.path.insert(0, TOP)
sys.dont_write_bytecode = True
import atexit
atexit.register(shutil.rmtree, TOP, True)

QE = 1.602176565e-19


def base():
    sim = dict(machine_param_file="machine_parameters.input", secondary_emission_parameters_file="secondary_emission_parameters.input",
               beam_parameters_file="beam.beam", logfile_path=None, progress_path=None, Dt=5e-11, t_end=1e-9, lam_th=1e2, Dx_hist=1e-3,
               r_center=2e-3, Dt_En_hist=2.5e-9, Nbin_En_hist=50, En_hist_max=2000., t_ion=100., N_mp_max=50000, N_mp_regen=100000,
               N_mp_regen_low=1, N_mp_after_regen=500, t_ON_regen_low=10., fact_split=1.5, fact_clean=1e-4, regen_hist_cut=1e-4,
               N_mp_soft_regen=None, N_mp_after_soft_regen=None, nel_mp_ref_0=2e8 / 300, Nx_regen=21, Ny_regen=21, Nvx_regen=21, Nvy_regen=21,
               Nvz_regen=21, Dt_sc=0.2e-9, Dh_sc=2e-3, t_sc_ON=0., extract_sey=False, dec_fact_out=1)
    mach = dict(chamb_type="rect", x_aper=2.3e-2, y_aper=1.8e-2, track_method="Boris", B0x=0., B0y=0.1, B0z=0., N_sub_steps=3, betafx=85., betafy=90.,
                init_unif_flag=1, Nel_init_unif=2e8, E_init_unif=.01, x_max_init_unif=2.2e-2, x_min_init_unif=-2.2e-2,
                y_max_init_unif=1.7e-2, y_min_init_unif=-1.7e-2)
    beam = dict(energy_eV=450e9, nemittx=2.5e-6, nemitty=2.5e-6, Dp_p=0., beam_field_file="computeFD", Dh_beam_field=1e-3,
                Nx=None, Ny=None, nimag=None, b_spac=2.5e-9, fact_beam=2.5e11, coast_dens=0., flag_bunched_beam=1,
                sigmaz=0.3e-9 / 4 * 299792458., t_offs=0.6e-9, filling_pattern_file=[1., 1., 1., 0.], beam_long_prof_file=-1)
    sey = dict(Emax=332., del_max=1.9, R0=.7, switch_model=0, E_th=35., sigmafit=1.0828, mufit=1.6636,
               switch_no_increase_energy=0, thresh_low_energy=-1, scrub_en_th=20., secondary_angle_distribution="cosine_3D")
    return dict(sim=sim, mach=mach, beam=beam, sey=sey, clouds={})


def cloud(name, **kw):
    d = dict(cloud_name=name, N_mp_max=20000, N_mp_regen=100000, N_mp_regen_low=1, N_mp_after_regen=500, nel_mp_ref_0=1e8 / 200, cloud_mass=9.10938e-31,
             cloud_charge=-QE, gas_ion_flag=0, photoem_flag=0, init_unif_flag=1, init_unif_edens_flag=0, Nel_init_unif=1e8, E_init_unif=0.01,
             switch_model=0, logfile_path=None, progress_path=None)
    d.update(kw)
    return d


def write(c, name="run"):
    root = os.path.join(TOP, name)
    for s in ("in", "out"):
        os.makedirs(os.path.join(root, s), exist_ok=True)
    sim = dict(c["sim"])
    sim.setdefault("filen_main_outp", root + "/out/Pyecltest.mat")
    sim.setdefault("stopfile", root + "/stop")
    if c["clouds"]:
        sim["additional_clouds_file_list"] = [k + ".cloud" for k in c["clouds"]]
    files = dict(simulation_parameters=sim, machine_parameters=c["mach"], secondary_emission_parameters=c["sey"])
    files = {k + ".input": v for k, v in files.items()}
    files["beam.beam"] = c["beam"]
    files.update({k + ".cloud": v for k, v in c["clouds"].items()})
    for f, d in files.items():
        with open(os.path.join(root, "in", f), "w") as fid:
            for k, v in d.items():
                fid.write("%s = %r\n" % (k, v))
    return root


def build(c, name="run", seed=1, **kw):
    root = write(c, name)
    os.chdir(root)
    from PyECLOUD.buildup_simulation import BuildupSimulation
    np.random.seed(seed)
    with quiet():
        return BuildupSimulation(pyecl_input_folder=root + "/in", **kw)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        yield


def step(sim):
    b = sim.beamtim
    if b.end_simulation():
        return False
    with quiet():
        sim.run(t_end_sim=b.t[b.ii_curr + 1])
    return True


def nel(mp):
    return float(np.sum(mp.nel_mp[:mp.N_mp]))


def mat(path):
    import scipy.io as sio
    return {k: v for k, v in sio.loadmat(path).items() if not k.startswith("__")}


def check(ok, what):
    if not ok:
        print("WRONG:", what)
        sys.exit(1)
