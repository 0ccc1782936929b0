"""Required behaviour of the physical model, written as equations.

These texts are *specifications*: they are turned into value graphs by the
analyser and compared with the value graphs of the analysed source; they are
never executed."""

FLUID = '''
def w_rho(T):
    return (999.8878571313621 + 4.96044549905296e-02 * T
            - 7.472266645346072e-03 * T ** 2 + 4.1094484438154484e-05 * T ** 3
            - 1.2915789546323614e-07 * T ** 4)
def w_cp(T):
    return (4215.402357417999 - 2.8853943283519348 * T
            + 0.07490580684801168 * T ** 2 - 0.0007780714344170032 * T ** 3
            + 3.2109328970410432e-06 * T ** 4)
def w_lam(T):
    return (0.5698791285322954 + 1.7878370402545738e-03 * T
            - 5.9998217273879795e-06 * T ** 2 - 8.69645771150934e-09 * T ** 3)
def w_ny(T):
    return (1.7764473380494155e-06 - 5.5640275781265404e-08 * T
            + 1.0243072887494426e-09 * T ** 2 - 9.795446013698117e-12 * T ** 3
            + 3.6460468745062724e-14 * T ** 4)
def w_Pr(T):
    return (12.578010819937905 - 0.3512468057176751 * T
            + 0.0043225480444706085 * T ** 2
            - 1.9174193923188898e-05 * T ** 3)
def w_beta(T):
    return (-5.87985364766666e-05 + 1.5641955219950547e-05 * T
            - 1.3587684743777981e-07 * T ** 2 + 6.122050330814909e-10 * T ** 3)
def a_ny(T):
    return (1.3500069264069257e-05 + 8.881038961038946e-08 * T
            + 1.0974025974025443e-10 * T ** 2)
def a_lam(T):
    return (0.02435867099567099 + 7.653398268398256e-05 * T
            - 4.20995670995722e-08 * T ** 2)
def a_rho(T):
    return (1.2767987012987012 - 0.00469686147186147 * T
            + 1.4296536796536256e-05 * T ** 2)
'''

CORR = FLUID + '''
def nu_turb(Re, Pr, dx, c):
    f = (1.8 * np.log10(Re) - 1.5) ** (-2)
    return (f / 8 * Re * Pr / (1 + 12.7 * (Pr ** (2 / 3) - 1)
            * (f / 8) ** 0.5) * (1 + dx ** (2 / 3) * c))
def al_pipe(dm, T, rho, ny, lam, A, d, x):
    """heat transfer coefficient fluid-wall; inlet distance counted from the
    end the flow enters"""
    Re = np.abs(dm / (rho * A)) * d / ny
    Pr = w_Pr(T)
    if dm[0] < 0:
        xi = x[::-1]
    else:
        xi = x
    lamn = (49.371 + (1.077 * (Re * Pr * d / xi) ** (1 / 3) - 0.7) ** 3
            ) ** (1 / 3)
    return np.where(Re > 2300, nu_turb(Re, Pr, d / xi, 1 / 3), lamn) * lam / d
def al_plate(dm, T, Tw, rho, ny, lam, A, d, x, corr):
    Re = np.abs(dm / (rho * A)) * d / ny + corr
    Pr = w_Pr(T)
    K = (Pr / w_Pr(Tw)) ** 0.11
    z = Re * Pr * d / x
    lamn = (49.371 + (1.615 * z ** (1 / 3) - 0.7) ** 3
            + ((2 / (1 + 22 * Pr)) ** (1 / 6) * z ** 0.5) ** 3) ** (1 / 3)
    return (np.where(Re > 2300, nu_turb(Re, Pr, d / x, 1), lamn)
            * K * lam / d)
def rayl(Ts, Ti, L):
    return (np.abs(Ts - Ti) * 9.81 * L ** 3 * 0.708
            / ((Ti + 273.15) * a_ny((Ti + Ts) / 2) ** 2))
def al_cyl(Ts, Ti, L, vertical, r):
    Ra = rayl(Ts, Ti, L)
    if vertical:
        Nu = ((0.825 + 0.387 * (Ra * 0.3466023585520853) ** (1 / 6)) ** 2
              + 0.435 * L / (2 * r))
    else:
        Nu = (0.752 + 0.387 * (Ra * 0.3269207911296459) ** (1 / 6)) ** 2
    return Nu * a_lam((Ti + Ts) / 2) / L
'''

# internal distribution of one through-flow (positive = entering at port 0)
FLOW1 = '''
def flow_through(self):
    q = self._dm_io[0]
    if self._process_flows[0]:
        if q < 0:
            self._dm_bot[:-1] = -q
            self._dm_top[1:] = 0.0
            self._dm_port[0] = 0.0
            self._dm_port[-1] = -q
        else:
            self._dm_bot[:-1] = 0.0
            self._dm_top[1:] = q
            self._dm_port[0] = q
            self._dm_port[-1] = 0.0
        self.res_dm[self.stepnum[0]] = q
    self._process_flows[0] = False
'''

# distribution of several in/outflows along the cells: cell i passes on the
# sum of everything that entered at ports located at or before it
FLOWN = '''
def flow_branched(self):
    if self._process_flows[0]:
        self.dm[:] = 0.0
        cs = np.cumsum(self._dm_io)
        for i in range(self._port_own_idx.size - 1):
            self.dm[self._port_own_idx[i]:self._port_own_idx[i + 1]] += cs[i]
        self._dm_port[:] = np.where(self._dm_io < 0, 0.0, self._dm_io)
        self._dm_top[1:] = self.dm[:-1]
        self._dm_bot[:-1] = -self.dm[:-1]
        self._dm_top[:] = np.where(self._dm_top < 0, 0.0, self._dm_top)
        self._dm_bot[:] = np.where(self._dm_bot < 0, 0.0, self._dm_bot)
        self.dm[-1] = self.dm[-2]
        self.res_dm[self.stepnum[0]] = self.dm
    self._process_flows[0] = False
'''

PIPE_LIMIT = '''
def limit_step(self, dev, timestep):
    """dev: largest stability number; the admissible step is timestep/dev"""
    if dev > 1:
        self._step_stable[0] = False
        self._stability_breaches += 1
        lim = timestep / dev * 0.95
        if lim < self._vN_max_step[0]:
            self._vN_max_step[0] = lim
        if self._max_factor[0] > 1.05:
            self._max_factor[0] = max(self._max_factor[0] ** 0.99, 1.05)
'''

PIPE = CORR + PIPE_LIMIT + '''
def mat_props(self):
    T = self._T_ext[1:-1]
    self._cp_T[:] = w_cp(self._T_ext)
    self._lam_T[:] = w_lam(T)
    self._rho_T[:] = w_rho(T)
    self._ny_T[:] = w_ny(T)
    self._rhocp[:] = w_rho(T) * self._cp_T[1:-1]
    self._mcp[:] = self.V_cell * self._rhocp + self._mcp_wll
    self._ui[:] = self._cp_T[1:-1] * T
def axial(self):
    l = self._lam_T
    self._lam_mean[:] = 2 / (1 / l[:-1] + 1 / l[1:])
    self._UA_tb[1:-1] = (self.A_cell / self.grid_spacing * self._lam_mean
                         + self._UA_tb_wll)
def shell(self, q):
    T = self._T_ext[1:-1]
    self._T_s[:] = (self._T_amb[0] + (T - self._T_amb[0]) * self._UA_amb_shell
                    / (self._alpha_inf * self._A_shell_ins))
    self._alpha_i[:] = al_pipe(q, T, self._rho_T, self._ny_T, self._lam_T,
                               self.A_cell, self._d_i, self._cell_dist)
    self._alpha_inf[:] = al_cyl(self._T_s, self._T_amb[0], self._flow_length,
                                self._vertical, self._r_total)
    self._UA_amb_shell[:] = self._A_shell_i / (
        1 / self._alpha_i + self._r_ln_wll / self._lam_wll
        + self._r_ln_ins / self._lam_ins + self._r_rins / self._alpha_inf)
def port_exchange(self):
    out = np.zeros(self._port_own_idx.shape)
    for i in range(self._port_link_idx.size):
        v = self.ports_all[self._port_link_idx[i]]
        k = self._port_own_idx[i]
        self._T_port.flat[i] = v
        self._cp_port.flat[i] = w_cp(v)
        self._lam_port_fld.flat[i] = w_lam(v)
        self._UA_port.flat[i] = (
            self._A_p_fld_mean[i] / (
                self._port_gsp[i] / (2 * self._lam_port_fld[i])
                + self.grid_spacing / (2 * self._lam_T.flat[k]))
            + self._UA_port_wll[i])
        out.flat[i] = (self._UA_port.flat[i] * (v - self._T_ext[1:-1].flat[k])
                       / self._mcp.flat[k])
    return out
def balance(self, dTp):
    T = self._T_ext
    self.dT_cond[:] = (
        self._UA_tb[:-1] * (T[:-2] - T[1:-1])
        + self._UA_tb[1:] * (T[2:] - T[1:-1])
        + self._UA_amb_shell * (self._T_amb[0] - T[1:-1])) / self._mcp
    self.dT_adv[:] = (
        self._dm_top * (self._cp_T[:-2] * T[:-2] - self._ui)
        + self._dm_bot * (self._cp_T[2:] * T[2:] - self._ui)) / self._mcp
    for i in range(self._port_own_idx.size):
        k = self._port_own_idx[i]
        self.dT_cond[k] += dTp[i]
        self.dT_adv[k] += (self._dm_port[i] * (
            self._cp_port[i] * self._T_port[i] - self._ui[k]) / self._mcp[k])
def vN_pipe(self, timestep, q):
    n = np.empty(3)
    n[0] = (np.max(self._UA_tb[1:-1] / self._rhocp[1:]) * timestep
            / (self.A_cell * self.grid_spacing))
    n[1] = (np.max(self._UA_port / (self._A_p_fld_mean * self._port_subs_gsp))
            * timestep / self._rhocp.max())
    n[2] = (np.max(self._UA_amb_shell / self._rhocp) * timestep
            / (self._A_shell_ins * self._r_total))
    adv = q * timestep / (self.V_cell * self._rho_T.max())
    limit_step(self, max(n.max() / 0.5, adv), timestep)
'''

PIPE_STATE = ['self._T_s', 'self._alpha_i', 'self._alpha_inf',
              'self._UA_amb_shell', 'self._UA_tb', 'self._UA_port',
              'self._T_port', 'self._cp_port', 'self._cp_T', 'self._mcp',
              'self._ui', 'self._rhocp', 'self._rho_T']
PIPE_SCALARS = ['grid_spacing', 'A_cell', 'V_cell', '_d_i', '_flow_length',
                '_r_total', '_r_ln_wll', '_r_ln_ins', '_r_rins', '_A_shell_i',
                '_A_shell_ins', '_lam_wll', '_lam_ins', 'timestep',
                '_vertical', 'emergency_shutdown']

TES = '''
def buoyancy(self):
    """a colder cell above a warmer one mixes: the conductivity between them is
    raised by the Nusselt number of free convection"""
    T = self._T_ext[1:-1]
    d = T[1:] - T[:-1]
    if not np.all(d <= 0):
        Pr = w_Pr(T[1:])
        be = w_beta(T[1:])
        be = np.where(be < 0, -be, be)
        Ra = (Pr * 9.81 * (self._d_i / 4) ** 3 * be
              * np.where(d < 0, 0, d) / self._ny_T[1:] ** 2
              * (1 + (0.322 / Pr) ** (11 / 20)) ** (-20 / 11))
        Nu = np.where(Ra > 70000.0, 0.15 * Ra ** (1 / 3), 0.766 * Ra ** 0.2)
        self._lam_mean[:] = np.where(Nu >= 1, self._lam_mean * Nu * 20,
                                     self._lam_mean)
def lids(self):
    Ta = self._T_amb[0]
    Ts = self._T_s_lid
    L = self._flow_length_lid
    Ra = rayl(Ts, Ta, L)
    if self._vertical_lid:
        Nu = (0.825 + 0.387 * (Ra * 0.3466023585520853) ** (1 / 6)) ** 2
    else:
        Nu = np.empty(((Ta + Ts) / 2).shape)
        for i in range(Ts.shape[0]):
            up = (self._lid_top[i] and Ts[i] >= Ta) or (
                not self._lid_top[i] and Ts[i] < Ta)
            if up:
                r = Ra[i] * 0.40306002707296223
                if r <= 70000.0:
                    Nu[i] = 0.766 * r ** (1 / 5)
                else:
                    Nu[i] = 0.15 * r ** (1 / 3)
            else:
                Nu[i] = 0.6 * (Ra[i] * 0.3466023585520853) ** (1 / 5)
    al = Nu * a_lam((Ta + Ts) / 2) / L
    self._UA_amb_lid[:] = self.A_cell / (
        1 / self._alpha_i[::self._alpha_i.size - 1]
        + self._s_wll / self._lam_wll + self._s_ins / self._lam_ins + 1 / al)
def tes_balance(self):
    T = self._T_ext
    self.dT_cond[:] = (
        self._UA_tb[:-1] * (T[:-2] - T[1:-1])
        + self._UA_tb[1:] * (T[2:] - T[1:-1])
        + self._UA_amb_shell * (self._T_amb[0] - T[1:-1])) / self._mcp
    self.dT_cond[0] += (self._UA_amb_lid[0] * (self._T_amb[0] - T[1])
                        / self._mcp[0])
    self.dT_cond[-1] += (self._UA_amb_lid[-1] * (self._T_amb[0] - T[-2])
                         / self._mcp[-1])
    self.dT_adv[:] = (
        self._dm_top * (self._cp_T[:-2] * T[:-2] - self._ui)
        + self._dm_bot * (self._cp_T[2:] * T[2:] - self._ui)) / self._mcp
    for i in range(self._T_port.size):
        k = self._port_own_idx[i]
        self.dT_cond[k] += (self._UA_port[i] * (self._T_port[i] - T[k + 1])
                            / self._mcp[k])
        self.dT_adv[k] += (self._dm_port.flat[i] * (
            self._cp_port[i] * self._T_port[i] - self._ui[k]) / self._mcp[k])
'''
