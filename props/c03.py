"""C03 heat balance of the discretised plate heat exchanger"""
from . import numeric as N

LEVEL = 'other'
RULE = ('gated value-graph equality: the temperature derivative of the '
        'discretised heat exchanger equals the cell-wise heat balance of both '
        'fluid columns and the wall column for every input')
ASSUMPTIONS = []
FLOOR = 12


def check(ctx, n, R, S):
    ctx.same(R, S, ['ret', 'self.dT_total', 'self.dT_cond', 'self.dT_adv',
                    'self._UA_dim1', 'self._UA_dim2', 'self._UA_port',
                    'self._alpha_i', 'self._mcp', 'self._T_port'])
    ctx.unchanged(R, ['self._T_ext', 'self._dm_io', 'self.ports_all'])


PARTS = N.parts(check, ['HexNum'])
