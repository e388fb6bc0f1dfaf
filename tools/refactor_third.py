"""refactor_third.py DIR: more behaviour-preserving edits (surfaces, emission, wall geometry, motion, beams)."""
import sys, os
D = sys.argv[1]


def ed(f, *pairs):
    p = os.path.join(D, f)
    s = open(p).read()
    for a, b in pairs:
        assert s.count(a) >= 1, (f, a)
        s = s.replace(a, b, 1)
    open(p, "w").write(s)


ed("sec_emission_model_ECLOUD.py",
   ("""    def impacts_on_surface(self, mass,""", """    def _number_to_add(self, nel, flag_truesec, nel_mp_th):
        n_add = np.zeros_like(flag_truesec, dtype=int)
        n_add[flag_truesec] = np.ceil(nel[flag_truesec] / nel_mp_th) - 1
        return np.maximum(n_add, 0)

    def _draw_energies(self, E_impact_eV):
        return ee.sec_energy_hilleret_model2(
            self.switch_no_increase_energy, len(E_impact_eV), self.sigmafit, self.mufit,
            self.E_th, E_impact_eV, self.thresh_low_energy)

    def impacts_on_surface(self, mass,"""),
   ("""            n_add = np.zeros_like(flag_truesec, dtype=int)
            n_add[flag_truesec] = np.ceil(nel_replace[flag_truesec] / nel_mp_th) - 1
            n_add[n_add < 0] = 0.  # in case of underflow
""", """            n_add = self._number_to_add(nel_replace, flag_truesec, nel_mp_th)
"""),
   ("""            En_truesec_eV = ee.sec_energy_hilleret_model2(
                self.switch_no_increase_energy, N_true_sec, self.sigmafit, self.mufit,
                self.E_th, E_impact_eV[flag_truesec], self.thresh_low_energy)
""", """            En_truesec_eV = self._draw_energies(E_impact_eV[flag_truesec])
"""),
   ("""                En_truesec_eV_add = ee.sec_energy_hilleret_model2(
                    self.switch_no_increase_energy, n_add_total, self.sigmafit, self.mufit,
                    self.E_th, E_impact_eV_add, self.thresh_low_energy)
""", """                En_truesec_eV_add = self._draw_energies(E_impact_eV_add)
"""))
ed("sec_emission_model_furman_pivi.py",
   ("""            eps_vec = np.array([eps_n[int(ii - 1)] for ii in nn])
            p_n_vec = np.array([p_n[int(ii - 1)] for ii in nn])
            _, area""", """            index = np.asarray(nn).astype(int) - 1
            eps_vec = np.asarray(eps_n)[index]
            p_n_vec = np.asarray(p_n)[index]
            _, area"""),
   ("""            normalisation = 1. / area
            uu = random.rand(len(E_0))
            xx = uu / (normalisation)
""", """            xx = random.rand(len(E_0)) * area
"""))
ed("electron_emission.py",
   ("""    phi_p = random.rand(N_new_MP) * 2 * np.pi
    sin_phi_p = np.sin(phi_p)
    cos_phi_p = np.cos(phi_p)

    cos_theta_p = np.sqrt(1 - sin_theta_p**2)

    vx_gen = v_gen_mod * (cos_theta_p * Norm_x + sin_theta_p * sin_phi_p * Norm_y)
    vy_gen = v_gen_mod * (cos_theta_p * Norm_y - sin_theta_p * sin_phi_p * Norm_x)
    vz_gen = v_gen_mod * (sin_theta_p * cos_phi_p)
""", """    phi_p = 2 * np.pi * random.rand(N_new_MP)

    v_normal = v_gen_mod * np.sqrt((1 - sin_theta_p) * (1 + sin_theta_p))
    v_parallel = v_gen_mod * sin_theta_p
    v_tangential = v_parallel * np.sin(phi_p)

    vx_gen = v_normal * Norm_x + v_tangential * Norm_y
    vy_gen = v_normal * Norm_y - v_tangential * Norm_x
    vz_gen = v_parallel * np.cos(phi_p)
"""),
   ("""        flag_negat = (En_gen < 0.)
        N_neg = np.sum(flag_negat)
        while(N_neg > 0):
            En_gen[flag_negat] = random.randn(N_neg) * self.e_pe_sigma + self.e_pe_max  # in eV
            flag_negat = (En_gen < 0.)
            N_neg = np.sum(flag_negat)
        return En_gen
""", """        while True:
            flag_negat = (En_gen < 0.)
            N_neg = np.count_nonzero(flag_negat)
            if N_neg == 0:
                return En_gen
            En_gen[flag_negat] = random.randn(N_neg) * self.e_pe_sigma + self.e_pe_max  # in eV
"""))
ed("geom_impact_ellip.py",
   ("""        x_int = t0 * x_out + (1 - t0) * x_in
        y_int = t0 * y_out + (1 - t0) * y_in
        z_int = t0 * z_out + (1 - t0) * z_in

        if flag_robust""", """        x_int = x_in + t0 * (x_out - x_in)
        y_int = y_in + t0 * (y_out - y_in)
        z_int = z_in + t0 * (z_out - z_in)

        if flag_robust"""))
ed("dynamics_Boris_f2py.py",
   ("""            MP_e.x_mp[0:MP_e.N_mp] = xn1
            MP_e.y_mp[0:MP_e.N_mp] = yn1
            MP_e.z_mp[0:MP_e.N_mp] = zn1
            MP_e.vx_mp[0:MP_e.N_mp] = vxn1
""", """            n_mp = MP_e.N_mp
            MP_e.x_mp[:n_mp], MP_e.y_mp[:n_mp], MP_e.z_mp[:n_mp] = xn1, yn1, zn1
            MP_e.vx_mp[:n_mp] = vxn1
"""))
ed("sec_emission_model_from_file.py",
   ("""        index_float = (energy_eV - self.energy_eV_min) / self.delta_e
        index_remainder, index_int = np.modf(index_float)
        index_int = index_int.astype(int)
        return self.sey_true[index_int] + index_remainder * self.sey_true_diff[index_int], self.sey_elast[index_int] + index_remainder * self.sey_elast_diff[index_int]
""", """        position = (energy_eV - self.energy_eV_min) / self.delta_e
        ii = position.astype(int)
        frac = position - ii
        curves = [(self.sey_true, self.sey_true_diff), (self.sey_elast, self.sey_elast_diff)]
        true, elast = [values[ii] + frac * steps[ii] for values, steps in curves]
        return true, elast
"""))
ed("sec_emission_model_ECLOUD_nunif.py",
   ("""            Emax_mp = take(self.Emax_segments, i_impact)
            del_max_mp = take(self.del_max_segments, i_impact)
            R0_mp = take(self.R0_segments, i_impact)

            yiel""", """            Emax_mp, del_max_mp, R0_mp = [
                par[i_impact] for par in (self.Emax_segments, self.del_max_segments, self.R0_segments)]

            yiel"""))
ed("Transverse_Efield_map_for_frozen_cloud.py",
   ("""        for sid in range(slices.n_slices - 1, -1, -1):
""", """        for sid in reversed(range(slices.n_slices)):
"""))
