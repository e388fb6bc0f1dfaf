ID='C01-old-checkpoint-removed-first'; PROP='C01'
EDITS=[('pyecloud_saver.py',"""                if self.i_checkp > 0:
                    if self.flag_last_cloud:
                        prevpath = os.path.join(self.checkpoint_folder, 'simulation_checkpoint_%d.pkl'%(self.i_checkp - 1))
                        os.remove(prevpath)
                        print('Removed simulation checkpoint in: ' + prevpath)

""",""),('pyecloud_saver.py',"""                outpath = os.path.join(self.checkpoint_folder, 'simulation_checkpoint_%d.pkl'%(self.i_checkp))

""","""                outpath = os.path.join(self.checkpoint_folder, 'simulation_checkpoint_%d.pkl'%(self.i_checkp))

                # make room for the new checkpoint
                if self.i_checkp > 0:
                    if self.flag_last_cloud:
                        prevpath = os.path.join(self.checkpoint_folder, 'simulation_checkpoint_%d.pkl'%(self.i_checkp - 1))
                        os.remove(prevpath)
                        print('Removed simulation checkpoint in: ' + prevpath)

""")]
NEEDS='the process is killed while the second or a later checkpoint is being written'
BREAKS='no completed checkpoint exists while a new one is being written: after a kill at that point the simulation starts over from the beginning'
DEMO='''from kit import *
import pickle
c = base()
c["sim"].update(checkpoint_DT=2.4e-9, checkpoint_folder=TOP + "/run/ckpt/")
sim = build(c)
real, n = pickle.dump, [0]


def dump(*a, **k):
    n[0] += 1
    if n[0] == 2:
        raise KeyboardInterrupt      # killed here
    return real(*a, **k)


pickle.dump = dump
try:
    while step(sim):
        pass
except KeyboardInterrupt:
    pass
pickle.dump = real
check(n[0] == 2, "second checkpoint not reached")
sim = build(c)
check(sim.beamtim.ii_curr > 0, "the interrupted simulation restarts from the beginning although a checkpoint had been completed")
'''
