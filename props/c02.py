"""C02 heat balance of the thermal energy storage"""
from . import model as M
from . import numeric as N

LEVEL = 'other'
RULE = ('gated value-graph equality: the temperature derivative of the storage '
        '(through all inlined kernels) equals the cell-wise heat balance with '
        'buoyancy mixing and lid losses for every input')
ASSUMPTIONS = []
FLOOR = 20


def check(ctx, n, R, S):
    ctx.same(R, S, ['ret', 'self.dT_total', 'self.dT_cond', 'self.dT_adv']
             + M.PIPE_STATE + ['self._UA_amb_lid', 'self._lam_mean'])
    ctx.unchanged(R, ['self._T_ext', 'self._dm_io', 'self._T_amb',
                      'self.ports_all'])


PARTS = N.parts(check, ['Tes'])
