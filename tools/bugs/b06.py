ID='C11-stop-before-saving'; PROP='C11'
EDITS=[('pyecloud_saver.py',"""        if beamtim.flag_new_bunch_pass:

            self._pass_by_pass_data_save(MP_e, impact_man, beamtim, buildup_sim)
""","""        if beamtim.flag_new_bunch_pass:

            self._logfile_progressfile_stofile(beamtim, MP_e)

            self._pass_by_pass_data_save(MP_e, impact_man, beamtim, buildup_sim)
"""),('pyecloud_saver.py',"""            self._copy_main_outp_save(beamtim)

        if beamtim.flag_new_bunch_pass:
            self._logfile_progressfile_stofile(beamtim, MP_e)

""","""            self._copy_main_outp_save(beamtim)

""")]
NEEDS='a stop file that appears while the simulation runs'
BREAKS='the passage at which the simulation is stopped is missing in the output'
DEMO='''from kit import *
c = base()
sim = build(c)
try:
    while step(sim):
        if sim.beamtim.ii_curr == 60:
            open(TOP + "/run/stop", "w").close()
    check(False, "not stopped")
except ValueError:
    pass
d = mat(TOP + "/run/out/Pyecltest.mat")
check(d["t_hist"].size == sim.beamtim.pass_numb + 1, "%d passages in the output, stopped at passage %d" % (d["t_hist"].size, sim.beamtim.pass_numb))
'''
