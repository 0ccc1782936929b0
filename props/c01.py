"""C01 heat balance of pipe-like parts"""
from . import model as M
from . import numeric as N

LEVEL = 'other'
RULE = ('gated value-graph equality: the temperature derivative computed by '
        'every pipe-like part (through all inlined kernels) equals the '
        'cell-wise heat balance for every input')
ASSUMPTIONS = []
FLOOR = 80
OUT = ['ret', 'self.dT_total', 'self.dT_cond', 'self.dT_adv'] + M.PIPE_STATE
FRAME = ['self._T_ext', 'self._dm_io', 'self._T_amb']


def check(ctx, n, R, S):
    ctx.same(R, S, OUT + (['self._dT_heated', 'self._dQ_heating']
                          if n in ('HeatedPipe', 'CHPPlant') else []))
    ctx.unchanged(R, FRAME + [N.env(n, 'ports_all')])


PARTS = N.parts(check, ['Pipe', 'PipeWithPump', 'PipeBranched',
                        'PipeWith3wValve', 'HeatedPipe', 'CHPPlant'])
