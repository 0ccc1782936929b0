"""Numerically solved parts: code and required behaviour of the differential"""
from sa import vg
from . import model as M
from .common import star
from .c09 import STEP as CHP_STEP, CH as CHP_CURVES

SPEC_PIPE = M.PIPE + M.FLOW1 + '''
def get_diff(self, timestep):
    flow_through(self)
    mat_props(self)
    axial(self)
    shell(self, self._dm_io)
    dTp = port_exchange(self)
    vN_pipe(self, timestep, np.abs(self._dm_io).max())
    balance(self, dTp)
    self.dT_total[:] = self.dT_cond + self.dT_adv
    return self.dT_total
'''

SPEC_BRANCHED = M.PIPE + M.FLOWN + '''
def get_diff(self, timestep):
    flow_branched(self)
    mat_props(self)
    axial(self)
    shell(self, self.dm)
    dTp = port_exchange(self)
    vN_pipe(self, timestep, np.abs(self._dm_io).max())
    balance(self, dTp)
    self.dT_total[:] = self.dT_cond + self.dT_adv
    return self.dT_total
'''
SPEC_HEATED = M.PIPE + M.FLOW1 + '''
def get_diff(self, timestep):
    if np.any(self._T_ext >= 110.0):
        self._dQ_heating[:] = 0.0
    if self._process_flows[0]:
        self.res_dQ[self.stepnum] = self._dQ_heating
    flow_through(self)
    mat_props(self)
    axial(self)
    shell(self, self._dm_io)
    dTp = port_exchange(self)
    vN_pipe(self, timestep, np.abs(self._dm_io).max())
    self._dT_heated[:] = self._dQ_heating * self._heat_mult / self._mcp_heated
    balance(self, dTp)
    self.dT_total = self.dT_cond + self.dT_adv + self.dT_heat
    return self.dT_total
'''

SPEC_CHP = M.PIPE + M.FLOW1 + CHP_STEP.replace(
    'def get_diff(', 'def control(') + '''
def get_diff(self, timestep):
    control(self, timestep)
    flow_through(self)
    mat_props(self)
    axial(self)
    shell(self, self._dm_io)
    dTp = port_exchange(self)
    vN_pipe(self, timestep, np.abs(self._dm_io).max())
    self._dT_heated[:] = self._dQ_heating * self._heat_mult / self._mcp_heated
    balance(self, dTp)
    self.dT_total = self.dT_cond + self.dT_adv + self.dT_heat
    return self.dT_total
'''

SPEC_TES = M.PIPE + M.FLOWN + M.TES + '''
def get_diff(self, timestep):
    flow_branched(self)
    mat_props(self)
    l = self._lam_T
    self._lam_mean[:] = 2 / (1 / l[:-1] + 1 / l[1:])
    buoyancy(self)
    self._UA_tb[1:-1] = (self.A_cell / self.grid_spacing * self._lam_mean
                         + self._UA_tb_wll)
    shell(self, self.dm)
    lids(self)
    port_exchange(self)
    vN_pipe(self, timestep, max(self._dm_top.max(), self._dm_bot.max(),
                                np.abs(self._dm_port).max()))
    tes_balance(self)
    self.dT_total[:] = self.dT_cond + self.dT_adv
    return self.dT_total
'''

SPEC_HEXNUM = M.CORR + M.PIPE_LIMIT + '''
def get_diff(self, timestep):
    q = self._dm_io
    T = self._T_ext
    if self._process_flows[0]:
        for i in range(q.size):
            if q[i] >= 0.0:
                self._dm_top[1:, i] = q[i]
                self._dm_bot[:-1, i] = 0.0
                self._dm_port[i * 2] = q[i]
                self._dm_port[i * 2 + 1] = 0.0
            else:
                self._dm_bot[:-1, i] = -q[i]
                self._dm_top[1:, i] = 0.0
                self._dm_port[i * 2] = 0.0
                self._dm_port[i * 2 + 1] = -q[i]
        self.res_dm[self.stepnum[0]] = q
    self._process_flows[0] = False
    F = T[:, 1::2]
    self._cp_T[:] = w_cp(F)
    self._lam_fld[:] = w_lam(F[1:-1])
    self._rho_T[:] = w_rho(F[1:-1])
    self._ny_T[:] = w_ny(F[1:-1])
    l = self._lam_fld
    self._lam_mean[:] = 2 / (1 / l[:-1] + 1 / l[1:])
    self._UA_dim1[:, ::2][1:-1] = (self.A_channel / self.grid_spacing
                                   * self._lam_mean)
    self._UA_dim1[:, 1][1:-1] = self._UA_dim1_wll
    self._alpha_i[:, 0] = al_plate(
        q[:1] / self._channel_divisor[0], T[1:-1, 1], T[1:-1, 1],
        self._rho_T[:, 0], self._ny_T[:, 0], self._lam_fld[:, 0],
        self.A_channel, self._d_h, self._cell_dist, self._corr_Re)
    self._alpha_i[:, 1] = al_plate(
        q[1:] / self._channel_divisor[1], T[1:-1, 3], T[1:-1, 3],
        self._rho_T[:, 1], self._ny_T[:, 1], self._lam_fld[:, 1],
        self.A_channel, self._d_h, self._cell_dist, self._corr_Re)
    self._UA_dim2[:, 1:3] = self.A_plate_eff / (
        1 / self._alpha_i + self._s_plate / 2 / self._lam_wll)
    self._rhocp[:, ::2] = self._rho_T * self._cp_T[1:-1]
    self._mcp[:, ::2] = self.V_cell_fld * self._rhocp[:, ::2]
    self._ui[:, ::2] = self._cp_T[1:-1] * F[1:-1]
    self._ui[:, 1] = self._cp_wll * T[1:-1, 2]
    L = np.zeros(self._mcp.shape)
    L[:, ::2] = self._lam_fld
    dTp = np.zeros(self._port_own_idx.shape)
    for i in range(self._port_link_idx.size):
        v = self.ports_all[self._port_link_idx[i]]
        k = self._port_own_idx[i]
        self._T_port.flat[i] = v
        self._cp_port.flat[i] = w_cp(v)
        self._lam_port_fld.flat[i] = w_lam(v)
        self._UA_port.flat[i] = (
            self._A_p_fld_mean[i] / (
                self._port_gsp[i] / (2 * self._lam_port_fld[i])
                + self.grid_spacing / (2 * L.flat[k]))
            + self._UA_port_wll[i])
        dTp.flat[i] = (self._UA_port.flat[i]
                       * (v - T[1:-1, 1:-1].flat[k]) / self._mcp.flat[k])
    n = np.empty(3)
    rc = self._rhocp.max()
    n[0] = self._UA_dim1.max() / rc * timestep / (
        self.A_channel * self.grid_spacing)
    n[1] = self._UA_dim2.max() / rc * timestep / (
        self.A_plate_eff * self.grid_spacing)
    n[2] = ((self._UA_port / (self._A_p_fld_mean * self._port_subs_gsp)).max()
            / rc * timestep)
    adv = (np.abs(q / self._channel_divisor).max() * timestep
           / (self.V_cell_fld * self._rho_T.max()))
    limit_step(self, max(n.max() / 0.5, adv), timestep)
    C = T[1:-1, 1:-1]
    self.dT_cond[:] = (
        self._UA_dim1[:-1] * (T[:-2, 1:-1] - C)
        + self._UA_dim1[1:] * (T[2:, 1:-1] - C)
        + self._UA_dim2[:, :-1] * (T[1:-1, :-2] - C)
        + self._UA_dim2[:, 1:] * (T[1:-1, 2:] - C)) / self._mcp
    self.dT_adv[:, ::2] = (
        self._dm_top * (self._cp_T[:-2] * T[:-2, 1::2] - self._ui[:, ::2])
        + self._dm_bot * (self._cp_T[2:] * T[2:, 1::2] - self._ui[:, ::2])
        ) / self._mcp[:, ::2]
    for i in range(self._port_own_idx.size):
        k = self._port_own_idx[i]
        self.dT_cond.flat[k] += dTp[i]
        self.dT_adv.flat[k] += (self._dm_port[i] * (
            self._cp_port[i] * self._T_port[i] - self._ui.flat[k])
            / self._mcp.flat[k])
    self.dT_adv[:, ::2] /= self._channel_divisor
    self.dT_total[:] = self.dT_cond + self.dT_adv
    return self.dT_total
'''

def models_env(text):
    """the environment-wide arrays live on the shared environment object"""
    for a in ('ports_all', '_step_stable', '_vN_max_step', '_max_factor'):
        text = text.replace('self.' + a, 'self._models.' + a)
    return text


HEX_SCALARS = ['grid_spacing', 'A_channel', 'V_cell_fld', 'A_plate_eff', '_d_h',
      '_s_plate', '_lam_wll', '_cp_wll', 'timestep', '_UA_dim1_wll']
TES_SCALARS = M.PIPE_SCALARS + ['_flow_length_lid', '_s_wll', '_s_ins',
                                '_vertical_lid']

# name -> (class, required behaviour, uses the argument list, scalars, preset)
TABLE = {
    'Pipe': ('parts.pipe:Pipe', SPEC_PIPE, True, M.PIPE_SCALARS, None),
    'PipeWithPump': ('parts.pipe_with_pump:PipeWithPump', SPEC_PIPE, True,
                     M.PIPE_SCALARS, None),
    'PipeBranched': ('parts.pipe_branched:PipeBranched', SPEC_BRANCHED, True,
                     M.PIPE_SCALARS, None),
    'PipeWith3wValve': ('parts.pipe_with_valve:PipeWith3wValve',
                        SPEC_BRANCHED, True, M.PIPE_SCALARS, None),
    'HeatedPipe': ('parts.heated_pipe:HeatedPipe', models_env(SPEC_HEATED),
                   False, M.PIPE_SCALARS, None),
    'CHPPlant': ('parts.chp_plant:CHPPlant', models_env(SPEC_CHP), False,
                 M.PIPE_SCALARS, None),
    'Tes': ('parts.tes:Tes', SPEC_TES, True, TES_SCALARS, None),
    'HexNum': ('parts.hex_num:HexNum', SPEC_HEXNUM, True, HEX_SCALARS,
               {'solve_explicitly': vg.TRUE}),
}


def pair(ctx, name):
    """(code, required) value graphs of a part's differential"""
    cls, text, st, sc, pre = TABLE[name]
    h = star(ctx, cls, preset=pre) if st else None
    o = dict(scalars=sc)
    if name == 'CHPPlant':
        o['no_inline'] = CHP_CURVES
    R = ctx.run(cls + '.get_diff', star_hook=h, **o)
    S = ctx.spec(text, like=R, **o)
    return R, S


def env(name, attr):
    """where the environment-wide array is reached from"""
    return ('self._models.' if name in ('HeatedPipe', 'CHPPlant')
            else 'self.') + attr


def parts(check, names=None):
    """PARTS list: one entry per numerically solved part"""
    def mk(n):
        def part(ctx):
            R, S = pair(ctx, n)
            check(ctx, n, R, S)
        return part
    return [(n, mk(n)) for n in (names or TABLE)]
