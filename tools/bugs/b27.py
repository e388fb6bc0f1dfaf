ID='C03-histogram-due-after-every-restart'; PROP='C03'
EDITS=[('pyecloud_saver.py',"""        self.t_last_En_hist = -1.
""","""        self.t_last_En_hist = -1.
        self.t_next_En_hist = -1.
"""),('pyecloud_saver.py',"""        if beamtim.tt_curr >= self.t_last_En_hist + self.Dt_En_hist or np.isclose(beamtim.tt_curr, self.t_last_En_hist + self.Dt_En_hist, rtol=1.e-10, atol=0.0):
""","""        if beamtim.tt_curr >= self.t_next_En_hist or np.isclose(beamtim.tt_curr, self.t_next_En_hist, rtol=1.e-10, atol=0.0):
"""),('pyecloud_saver.py',"""            self.t_last_En_hist = beamtim.tt_curr
""","""            self.t_last_En_hist = beamtim.tt_curr
            self.t_next_En_hist = beamtim.tt_curr + self.Dt_En_hist
""")]
NEEDS='a restart from a checkpoint taken between two rows of the energy histograms'
BREAKS='after the restart an additional row of the energy histogram is recorded and all the following are at other times'
DEMO='''from kit import *
import shutil
def conf():
    c = base()
    c["sim"].update(Dt_En_hist=4e-9, checkpoint_DT=2.4e-9, checkpoint_folder=TOP + "/run/ckpt/")
    return c
sim = build(conf())
while step(sim): pass
ref = mat(TOP + "/run/out/Pyecltest.mat")
shutil.rmtree(TOP + "/run")
sim = build(conf())
while step(sim):
    if sim.beamtim.pass_numb == 2 and sim.beamtim.ii_curr % 10 == 5: break      # killed here
sim = build(conf())
while step(sim): pass
got = mat(TOP + "/run/out/Pyecltest.mat")
check(ref["t_En_hist"].shape == got["t_En_hist"].shape and np.allclose(ref["t_En_hist"], got["t_En_hist"]), "rows at %s instead of %s" % (got["t_En_hist"], ref["t_En_hist"]))
'''
