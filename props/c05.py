"""C05 distribution of the port flows over the cells"""
from . import numeric as N

LEVEL = 'other'
RULE = ('gated value-graph equality: the massflows over every cell border and '
        'through every port follow from the in/outflows by mass balance, are '
        'non-negative upwind flows, are recomputed exactly once per step and '
        'recorded in the result of the current step')
ASSUMPTIONS = []
FLOOR = 35


def check(ctx, n, R, S):
    ctx.same(R, S, ['self._dm_top', 'self._dm_bot', 'self._dm_port',
                    'self.res_dm', 'self._process_flows'] + (
                        ['self.dm'] if n in ('Tes', 'PipeBranched',
                                             'PipeWith3wValve') else []))
    ctx.unchanged(R, ['self._dm_io', 'self.stepnum'])


PARTS = N.parts(check)
