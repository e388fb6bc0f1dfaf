ID='C20-secondary-beam-ionizes-elsewhere'; PROP='C20'
EDITS=[('buildup_simulation.py',"""                        x_beam_pos=sec_beam.x_beam_pos,
                        y_beam_pos=sec_beam.y_beam_pos,
""","""                        x_beam_pos=beamtim.x_beam_pos,
                        y_beam_pos=beamtim.y_beam_pos,
""")]
NEEDS='residual gas ionization with two beams at different transverse positions'
BREAKS='electrons ionized by the secondary beam start at the position of the main beam'
DEMO='''from kit import *
c = base()
c["mach"].update(gas_ion_flag=1, P_nTorr=3e5, sigma_ion_MBarn=2., Temp_K=300., unif_frac=0., E_init_ion=.1, init_unif_flag=0)
c["mach"].pop("Nel_init_unif")
c["sim"]["nel_mp_ref_0"] = 1e5
root = write(c)
b = dict(c["beam"], x_beam_pos=8e-3, y_beam_pos=0., t_offs=.6e-9)
with open(root + "/in/b2.beam", "w") as f:
    for k, v in b.items():
        f.write("%s = %r\\n" % (k, v))
c["sim"]["secondary_beams_file_list"] = ["b2.beam"]
sim = build(c)
g = sim.cloud_list[0].resgasion
seen = []
real = type(g).generate


def generate(self, MP_e, *a, **k):
    n = MP_e.N_mp
    r = real(self, MP_e, *a, **k)
    seen.extend(MP_e.x_mp[n:MP_e.N_mp])
    return r


type(g).generate = generate
for _ in range(30):
    step(sim)
seen = np.array(seen)
check(len(seen) > 20 and np.mean(seen > 4e-3) > .2, "no ionization at the secondary beam (%d electrons)" % len(seen))
'''
