"""C04 explicit stability limit of every numerically solved part"""
from . import numeric as N

LEVEL = 'other'
RULE = ('gated value-graph equality: every differential evaluation clears the '
        'stable flag, lowers the step limit and damps the step growth exactly '
        'when the diffusion or advection number of the evaluated step exceeds '
        'its bound, for every input')
ASSUMPTIONS = []
FLOOR = 28


def check(ctx, n, R, S):
    ctx.same(R, S, [N.env(n, a) for a in (
        '_step_stable', '_vN_max_step', '_max_factor')]
        + ['self._stability_breaches'])


PARTS = N.parts(check)
