"""C34 implicit solution of the discretised plate heat exchanger"""
from sa import vg
from . import numeric as N
from .common import input_names

LEVEL = 'other'
RULE = ('gated value-graph equality: the residual handed to the root finder, '
        'evaluated with the argument list the part itself builds, equals the '
        'backward Euler residual of the heat balance required of the explicit '
        'part; each half step starts from the stored state and uses half the '
        'step')
ASSUMPTIONS = ['scipy.optimize.root returns a zero of the residual it is '
               'given']
FLOOR = 20

HEX = 'parts.hex_num:HexNum'

# the required derivative: the explicit one without the search for a stable
# step size
RATE = N.SPEC_HEXNUM.replace('def get_diff(self, timestep):',
                             'def rate(self):').split('    n = np.empty(3)')
RATE = RATE[0] + '    C = T[1:-1, 1:-1]' + RATE[1].split(
    '    C = T[1:-1, 1:-1]')[1]

USE = {
    'rate': ('''
def implicit_derivative(self):
    return _pf.hexnum_diff_impl({0})
''', '''
def implicit_derivative(self):
    return rate(self)
'''),
    'residual': ('''
def residual_of_a_step(self, y, yprev, h):
    return _pf.hexnum_imp_root_diff(y, yprev, h, ({0}))
''', '''
def residual_of_a_step(self, y, yprev, h):
    self._T_ext[1:-1, 1:-1] = y.reshape(self._T_ext[1:-1, 1:-1].shape)
    return y - yprev - h * rate(self).ravel()
'''),
    'fixed point': ('''
def fixed_point_of_a_step(self, y, yprev, h):
    return _pf.hexnum_imp_fixedpoint(y, yprev, h, ({0}))
''', '''
def fixed_point_of_a_step(self, y, yprev, h):
    self._T_ext[1:-1, 1:-1] = y.reshape(self._T_ext[1:-1, 1:-1].shape)
    return (yprev.reshape(self._T_ext[1:-1, 1:-1].shape)
            + h * rate(self)).ravel()
'''),
    'fixed point (grid)': ('''
def fixed_point_on_the_grid(self, y, yprev, h):
    return _pf.hexnum_imp_fixedp_diff(y, yprev, h, ({0}))
''', '''
def fixed_point_on_the_grid(self, y, yprev, h):
    self._T_ext[1:-1, 1:-1] = y
    return yprev + h * rate(self)
'''),
}
STATE = ['self.dT_total', 'self.dT_cond', 'self.dT_adv', 'self._UA_dim1',
         'self._UA_dim2', 'self._UA_port', 'self._alpha_i', 'self._mcp',
         'self._T_port', 'self._dm_top', 'self._dm_bot', 'self._dm_port',
         'self.res_dm', 'self._process_flows', 'self._T_ext']


def use(name):
    def part(ctx):
        names = input_names(ctx, HEX, preset={'solve_explicitly': vg.FALSE})
        code, req = USE[name]
        o = dict(scalars=N.HEX_SCALARS + ['h'])
        R = ctx.drive(HEX, code.format(
            ', '.join('self.' + n for n in names)), **o)
        S = ctx.spec(RATE + req, like=R, **o)
        ctx.same(R, S, ['ret'] + STATE)
        ctx.unchanged(R, ['self._dm_io', 'self.ports_all', 'self.stepnum'])
    return part


SETUP = '''
def chosen(self, name, master_cls, **kwargs):
    self.solve_explicitly = True
    if (master_cls._allow_implicit and 'solve_implicit' in kwargs
            and isinstance(kwargs['solve_implicit'], bool)
            and kwargs['solve_implicit']):
        self.solve_explicitly = False
        assert 'implicit_root_diff' in kwargs
        assert callable(kwargs['implicit_root_diff'])
        self.diff_impl = kwargs['implicit_root_diff']
'''


def setup(ctx):
    """which way of solving is chosen"""
    R = ctx.run(HEX + '.__init__')
    S = ctx.spec(SETUP, like=R)
    ctx.raises_when(R, S)
    ctx.same(R, S, ['self.solve_explicitly', 'self.diff_impl'])


PARTS = [(n, use(n)) for n in USE] + [('set-up', setup)]
