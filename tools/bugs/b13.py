ID='C02-secondary-beam-not-resumed'; PROP='C02'
EDITS=[('buildup_simulation.py',"""        self.sec_beams_list = dict_state["sec_beams_list"]
""","")]
NEEDS='a simulation with a secondary beam resumed from a checkpoint'
BREAKS='after a restart the secondary beam starts again from the beginning of its profile'
DEMO='''from kit import *
c = base()
c["sim"].update(checkpoint_DT=2.4e-9, checkpoint_folder=TOP + "/run/ckpt/")
root = write(c)
with open(root + "/in/b2.beam", "w") as f:
    for k, v in dict(c["beam"], filling_pattern_file=[1., 0., 1., 1.]).items():
        f.write("%s = %r\\n" % (k, v))
c["sim"]["secondary_beams_file_list"] = ["b2.beam"]
sim = build(c)
for _ in range(80):
    step(sim)
sim = build(c)
check(sim.beamtim.ii_curr > 0, "not resumed")
while step(sim):
    b = sim.sec_beams_list[0]
    check(b.ii_curr == sim.beamtim.ii_curr, "step %d of the secondary beam at step %d" % (b.ii_curr, sim.beamtim.ii_curr))
'''
