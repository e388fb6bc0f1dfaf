ID='C18-equal-products-of-the-initial-size'; PROP='C18'
EDITS=[('cross_ionization.py','nel_mp_ref_products += MP_e_gen.nel_mp_ref / N_products','nel_mp_ref_products += MP_e_gen.nel_mp_ref_0 / N_products')]
NEEDS='a process with generate_equally whose product clouds changed the size of their macroparticles in a regeneration'
BREAKS='after a regeneration the products have the size of the start of the simulation (the number of macroparticles explodes) instead of the current reference size'
DEMO='''from kit import *
import types
import scipy.io as sio
e = np.logspace(0, 4, 100)
sio.savemat(os.path.join(TOP, "cs.mat"), dict(energy_eV=e, cross_section_cm2=1e-16 * np.ones(100)), oned_as="row")
from PyECLOUD.cross_ionization import Ionization_Process
def cl(ref, ref0):
    return types.SimpleNamespace(MP_e=types.SimpleNamespace(nel_mp_ref=ref, nel_mp_ref_0=ref0, mass=9.1e-31))
cd = {"a": cl(4e4, 1e3), "b": cl(2e4, 1e3)}
with quiet():
    p = Ionization_Process(TOP, "p", dict(target_density=1e20, E_eV_init=.01, products=["a", "b"], cross_section="cs.mat", extract_sigma=False, generate_equally=True), cd, 1e-3)
n = 10
z = np.zeros(n)
new, dn = p.generate(1e-8, cd, 9.1e-31, n, 1e6 * np.ones(n), z, z, z, 5e6 * np.ones(n))
for k in cd:
    check(new[k]["N_new_MPs"] > 0 and np.all(new[k]["nel_new_MPs"] == 3e4), "products of size %s" % set(new[k]["nel_new_MPs"]))
'''
