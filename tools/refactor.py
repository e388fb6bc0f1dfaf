"""refactor.py DIR: behaviour-preserving edits in a scratch clone, to see that the checks stay quiet."""
import re, sys, os
D = sys.argv[1]


def ed(f, *pairs):
    p = os.path.join(D, f)
    s = open(p).read()
    for a, b in pairs:
        assert s.count(a) >= 1, (f, a)
        s = s.replace(a, b, 1)
    open(p, "w").write(s)


ed("MP_system.py",
   ("""        flag_clean = (self.nel_mp < self.nel_mp_cl_th)
        flag_keep = ~(flag_clean)
        flag_keep[self.N_mp:] = False
        self.N_mp = np.sum(flag_keep)

        self.x_mp[0:self.N_mp] = self.x_mp[flag_keep].copy()
        self.y_mp[0:self.N_mp] = self.y_mp[flag_keep].copy()
        self.z_mp[0:self.N_mp] = self.z_mp[flag_keep].copy()
        self.vx_mp[0:self.N_mp] = self.vx_mp[flag_keep].copy()
        self.vy_mp[0:self.N_mp] = self.vy_mp[flag_keep].copy()
        self.vz_mp[0:self.N_mp] = self.vz_mp[flag_keep].copy()
        self.nel_mp[0:self.N_mp] = self.nel_mp[flag_keep].copy()

        self.nel_mp[self.N_mp:] = 0.0

        if self.flag_lifetime_hist:
            self.t_last_impact[0:self.N_mp] = np.array(self.t_last_impact[flag_keep].copy())

        print("Cloud %s: Done clean""",
    """        keep = np.flatnonzero(self.nel_mp[:self.N_mp] >= self.nel_mp_cl_th)
        self._compact(keep)

        print("Cloud %s: Done clean"""),
   ("""    def set_nel_mp_ref(self, val):""",
    """    def _compact(self, keep):
        n_keep = len(keep)
        arrays = [self.nel_mp, self.vz_mp, self.vy_mp, self.vx_mp, self.z_mp, self.y_mp, self.x_mp]
        if self.flag_lifetime_hist:
            arrays.append(self.t_last_impact)
        for arr in arrays:
            arr[:n_keep] = arr[keep]
        self.N_mp = n_keep
        self.nel_mp[n_keep:] = 0.0

    def set_nel_mp_ref(self, val):"""),
   ("correct_fact = chrg_before / chrg_after", "correct_fact = 1. / (chrg_after / chrg_before)"))
ed("buildup_simulation.py",
   ("""        while not beamtim.end_simulation():

            if t_end_sim is not None and beamtim.tt_curr is not None:
                if beamtim.tt_curr >= t_end_sim:
                    print("Reached user defined t_end_sim --> Ending simulation")
                    break
""", """        def reached():
            if t_end_sim is None or beamtim.tt_curr is None:
                return False
            return beamtim.tt_curr >= t_end_sim

        while True:
            if beamtim.end_simulation():
                break
            if reached():
                print("Reached user defined t_end_sim --> Ending simulation")
                break
"""),
   ("""        MP_e.vx_mp[: MP_e.N_mp] += Ex_n_kick * Dt_kick * MP_e.charge / MP_e.mass
        MP_e.vy_mp[: MP_e.N_mp] += Ey_n_kick * Dt_kick * MP_e.charge / MP_e.mass
""", """        fact = MP_e.charge / MP_e.mass * Dt_kick
        N = MP_e.N_mp
        MP_e.vy_mp[:N] = MP_e.vy_mp[:N] + fact * Ey_n_kick
        MP_e.vx_mp[:N] = MP_e.vx_mp[:N] + fact * Ex_n_kick
"""),
   ("""                cloud.rho = self.spacech_ele.rho - sum(
                    [cl.rho for cl in self.cloud_list[:i_cloud]]
                )
""", """                rho_previous = 0.
                for cl in self.cloud_list[:i_cloud]:
                    rho_previous = cl.rho + rho_previous
                cloud.rho = self.spacech_ele.rho - rho_previous
"""))
ed("impact_management_class.py",
   ("E_impact_eV = 0.5 * MP_e.mass / qe * v_impact_mod * v_impact_mod", "E_impact_eV = self._energy_eV(MP_e.mass, vx_impact, vy_impact, vz_impact)"),
   ("E_replace_eV = 0.5 * MP_e.mass / qe * v_replace_mod * v_replace_mod", "E_replace_eV = self._energy_eV(MP_e.mass, vx_replace, vy_replace, vz_replace)"),
   ("E_new_MPs_eV = 0.5 * MP_e.mass / qe * v_new_MPs_mod * v_new_MPs_mod", "E_new_MPs_eV = self._energy_eV(MP_e.mass, vx_new_MPs, vy_new_MPs, vz_new_MPs)"),
   ("""    def reset_En_hist_line(self):""", """    def _energy_eV(self, mass, vx, vy, vz):
        return 0.5 * mass / qe * (vx**2 + vy**2 + vz**2)

    def reset_En_hist_line(self):"""),
   ("self.Nel_impact_last_step = np.sum(nel_impact)", "self.Nel_impact_last_step = nel_impact[::-1].sum()"))


def lines(f, fn):
    p = os.path.join(D, f)
    s = open(p).read()
    t = fn(s)
    assert s != t, f
    open(p, "w").write(t)


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "refactor_more.py")).read())
