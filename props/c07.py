"""C07 stationary plate heat exchanger"""
from . import model as M

LEVEL = 'other'
RULE = ('gated value-graph equality: the outlet temperatures of both sides '
        'follow from the counter-flow effectiveness (NTU method) of the '
        'current flows and material properties for every flow direction, and '
        'the side without flow is passed through')
ASSUMPTIONS = []
FLOOR = 8
SCALARS = ['A_plate_eff', 'A_channel', '_d_h', '_s_plate', '_num_A',
           '_num_channels_sup', '_num_channels_dmd', '_cell_dist', '_corr_Re']

SPEC = M.CORR + '''
def solve(self, timestep):
    for i in range(self._port_link_idx.size):
        self._T_port.flat[i] = self.ports_all[self._port_link_idx[i]]
    p = self._T_port
    q = self._dm_io
    fs = q[0] >= 0
    fd = q[1] >= 0
    ms = abs(q[0])
    md = abs(q[1])
    si, so = (p[0], p[1]) if fs else (p[1], p[0])
    di, do = (p[2], p[3]) if fd else (p[3], p[2])
    self._dm_port[0] = ms if fs else 0.0
    self._dm_port[1] = 0.0 if fs else ms
    self._dm_port[2] = md if fd else 0.0
    self._dm_port[3] = 0.0 if fd else md
    if ms != 0 and md != 0:
        self._T_mean[0] = (si + so) / 2
        self._T_mean[1] = (di + do) / 2
        Tm = self._T_mean
        self._cp_mean[:] = w_cp(Tm)
        self._lam_mean[:] = w_lam(Tm)
        self._rho_mean[:] = w_rho(Tm)
        self._ny_mean[:] = w_ny(Tm)
        for k, m, n in ((0, ms, self._num_channels_sup),
                        (1, md, self._num_channels_dmd)):
            self._alpha_i[k:k + 1] = al_plate(
                m / n, Tm[k], Tm[k], self._rho_mean[k], self._ny_mean[k],
                self._lam_mean[k], self.A_channel, self._d_h,
                self._cell_dist, self._corr_Re)
        self._UA_fld_wll[:] = self.A_plate_eff / (
            1 / self._alpha_i + self._s_plate / 2 / self._lam_plate[0])
        u = self._UA_fld_wll
        self._UA_fld_wll_fld[0] = u[0] * u[1] / (u[0] + u[1]) * self._num_A
        Cs = ms * self._cp_mean[0]
        Cd = md * self._cp_mean[1]
        N = self._UA_fld_wll_fld[0] / Cs if Cs != 0 else np.inf
        R = Cs / Cd if Cd != 0 else np.inf
        x = (R - 1) * N
        if R != 1 and x < 100:
            P = (1 - np.exp(x)) / (1 - R * np.exp(x))
        elif x > 100:
            P = 1 / R
        else:
            P = N / (1 + N)
        Q = P * R
        if np.isnan(P):
            P = 0
            Q = 0
        so = si - P * (si - di)
        do = di + Q * (si - di)
    elif ms != 0:
        so = si
    elif md != 0:
        do = di
    if fs:
        self.T[0] = si
        self.T[1] = so
    else:
        self.T[1] = si
        self.T[0] = so
    if fd:
        self.T[2] = di
        self.T[3] = do
    else:
        self.T[3] = di
        self.T[2] = do
    self.res[self.stepnum[0]] = self.T
'''


T = 'parts.heatexchanger:HeatExchanger.solve'


def solve(ctx):
    for lab in ctx.signs(T, ['self._dm_io[0]', 'self._dm_io[1]']):
        R = ctx.run(T, scalars=SCALARS)
        S = ctx.spec(SPEC, like=R, scalars=SCALARS)
        ctx.same(R, S, ['self.T', 'self.res', 'self._dm_port',
                        'self._alpha_i', 'self._UA_fld_wll',
                        'self._UA_fld_wll_fld', 'self._T_mean'])
        ctx.unchanged(R, ['self._dm_io', 'self.ports_all', 'self.stepnum'])


PARTS = [('solve', solve)]
