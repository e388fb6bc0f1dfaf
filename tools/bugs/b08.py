ID='C13-snapshot-error-swallowed'; PROP='C13'
EDITS=[('pyecloud_saver.py',"""        self._MP_state_save(MP_e, beamtim)

""","""        try:
            self._MP_state_save(MP_e, beamtim)
        except IOError as err:
            print('Got: ', err)

""")]
NEEDS='the disk is full when a macroparticle snapshot is written'
BREAKS='the simulation ends normally with a missing or truncated snapshot'
DEMO='''from kit import *
import errno
import scipy.io as sio
c = base()
c["sim"]["save_mp_state_time_file"] = [1e-9]
sim = build(c)
real = sio.savemat


def savemat(f, *a, **k):
    if "MP_state" in str(getattr(f, "name", f)):
        raise OSError(errno.ENOSPC, "No space left on device", str(f))
    return real(f, *a, **k)


sio.savemat = savemat
try:
    while step(sim):
        pass
except OSError:
    sys.exit(0)
check(any(f.startswith("MP_state_0") for f in os.listdir(TOP + "/run/out")), "snapshot missing and no error")
'''
