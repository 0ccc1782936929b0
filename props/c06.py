"""C06 zero-volume parts: mixing, splitting, pumping"""
from . import model as M

LEVEL = 'other'
RULE = ('gated value-graph equality: outlet temperatures of volume-free parts '
        'are the enthalpy-weighted mix of the inlets (mixing), the inlet '
        'temperature (splitting, pumping) or the mean of the neighbours (no '
        'flow), for every input; results are recorded in the current row')
ASSUMPTIONS = []
FLOOR = 10

CONN = M.FLUID + '''
def solve(self, timestep):
    for i in range(self._port_link_idx.size):
        self.T.flat[i] = self._models.ports_all[self._port_link_idx[i]]
    self._cp_T[:] = w_cp(self.T)
    T = self.T
    m = self.dm
    src = m > 0
    snk = m < 0
    if src.sum() == 2:
        # outflow carries the enthalpy of both inflows
        mix = ((m[src] * self._cp_T[src] * T[src]).sum()
               / (-w_cp(T[src].sum() / 2) * m[snk]))
        T[src] = T[snk]
        T[snk] = mix
    elif snk.sum() == 2:
        back = T[snk].sum() / 2
        T[snk] = T[src]
        T[src] = back
    elif src.sum() == 1:
        idle = m == 0
        T[idle] = T[~idle].sum() / 2
        T[snk] = T[src]
        T[src] = T[~src].sum() / 2
    else:
        a, b, c = (T[1] + T[2]) / 2, (T[0] + T[2]) / 2, (T[0] + T[1]) / 2
        T[0] = a
        T[1] = b
        T[2] = c
    self.res[self.stepnum[0]] = T
'''

VALVE = M.FLUID + '''
def solve(self, timestep):
    self.res_dm[self.stepnum] = self._dm_io
    m = self._dm_io
    T = self.T
    T[:] = self._models.ports_all[self._port_link_idx]
    if self.kind == 'mix':
        a, b = T[0], T[1]
        if m[2] != 0:
            ab = ((m[0] * w_cp(a) * a + m[1] * w_cp(b) * b)
                  / (m[2] * w_cp((a + b) / 2)))
            T[0] = (a + b) / 2
            T[1] = (a + b) / 2
            T[2] = ab
        else:
            c = T[2]
            T[0] = (b + c) / 2
            T[1] = (a + c) / 2
            T[2] = (a + b) / 2
    else:
        back = (T[0] + T[1]) / 2
        T[0] = T[2]
        T[1] = T[2]
        T[2] = back
    self.res[self.stepnum] = T
'''

PUMP = '''
def solve(self, timestep):
    self.T[:] = self._models.ports_all[self._port_link_idx][::-1]
    self.res_dm[self.stepnum[0], 0] = self.dm[0]
    self.res[self.stepnum[0]] = self.T
'''


def connector(ctx):
    R = ctx.run('parts.connector_3w:Connector3w.solve')
    S = ctx.spec(CONN, like=R)
    ctx.same(R, S, ['self.T', 'self.res'])
    ctx.unchanged(R, ['self.dm', 'self._models.ports_all', 'self.stepnum'])


def valve(ctx):
    R = ctx.run('parts.mixingvalve:MixingValve.solve')
    S = ctx.spec(VALVE, like=R)
    ctx.same(R, S, ['self.T', 'self.res', 'self.res_dm'])
    ctx.unchanged(R, ['self._dm_io', 'self._models.ports_all',
                      'self.stepnum', 'self.pf_arr'])


def pump(ctx):
    R = ctx.run('parts.pump:Pump.solve')
    S = ctx.spec(PUMP, like=R)
    ctx.same(R, S, ['self.T', 'self.res', 'self.res_dm'])
    ctx.unchanged(R, ['self.dm', 'self._models.ports_all', 'self.stepnum'])


PARTS = [('connector', connector), ('valve', valve), ('pump', pump)]
