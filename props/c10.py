"""C10 injected heat is spread completely on the heated cells"""

LEVEL = 'other'
RULE = ('gated value-graph equality of heated cells and share per cell, '
        'guards of the constructor, and view analysis: the heated slices are '
        'views of the arrays of the part')
ASSUMPTIONS = ['numpy basic slices are views']
FLOOR = 20

SPREAD = '''
def __init__(self, name, master_cls, **K):
    s = K['heat_spread']
    {need_spread}
    assert s == 'all' or s == 'single' or s == 'range'
    self._heat_spread = s
    n = self.num_gp
    if s == 'all':
        lo = 0
        hi = n
    elif s == 'single':
        {need_cells}
        c = K['heated_cells']
        {int_cell}
        assert 0 <= c and c < n
        lo = c
        hi = c + 1
    else:
        {need_cells}
        r = K['heated_cells']
        assert isinstance(r, (list, tuple))
        assert len(r) == 2
        assert isinstance(r[0], int)
        assert isinstance(r[1], int)
        lo = r[0]
        hi = r[1]
        assert lo < hi
        assert lo >= 0
        assert hi < n
    self._num_heated_cells = hi - lo
    self._heat_mult = 1 / (hi - lo)
    self._mcp_heated = self._mcp[lo:hi]
    self.dT_heat = np.zeros_like(self.T)
    self._dT_heated = self.dT_heat[lo:hi]
    {need_lims}
    a = K['lower_limit']
    b = K['upper_limit']
    assert 0 <= a
    assert a < b
    self._lims = np.array([a, b])
    self._llim = a
    self._ulim = b
    {more}
'''
WHAT = ['_heat_spread', '_num_heated_cells', '_heat_mult', '_mcp_heated',
        '_lims', '_llim', '_ulim', 'dT_heat', '_dT_heated']


def heated(ctx):
    o = dict(opaque=['__init__'])
    R = ctx.run('parts.heated_pipe:HeatedPipe.__init__', **o)
    S = ctx.spec(SPREAD.replace('K[', 'kwargs[').replace(
        '**K', '**kwargs').format(
        need_spread="assert 'heat_spread' in kwargs",
        need_cells="assert 'heated_cells' in kwargs",
        int_cell='assert isinstance(c, int)',
        need_lims="assert 'lower_limit' in kwargs and 'upper_limit' in "
        "kwargs", more='''
    self._dQ_heating = np.zeros(1)
    self._actuator_CV_name = 'rate_of_heat_flow'
    self.is_actuator = True
    self.control_req = True
    self.ctrl_defined = False
    self.actuator_special = False
    self._diff_fully_njit = False
'''), like=R, **o)
    ctx.same_state(R, S, skip=['_heat_spread'])
    ctx.same(R, S, ['self._heat_spread'])
    ctx.raises_when(R, S)
    ctx.views(R, [('self._dT_heated', 'self.dT_heat'),
                  ('self._mcp_heated', 'self._mcp'),
                  ('self._actuator_CV', 'self._dQ_heating')])


def chp(ctx):
    o = dict(opaque=['__init__', '_print_arg_errs'])
    R = ctx.run('parts.chp_plant:CHPPlant.__init__', **o)
    S = ctx.spec(SPREAD.replace('K[', 'kwds[').replace(
        '**K', 'eta_el=0.32733, p2h_ratio=0.516796, max_slope_el=0.05, '
        'min_off_time=600, min_on_time=600, chp_on_at_start=False, **kwds')
        .format(
        need_spread='pass', need_lims='pass', more='',
        need_cells="assert 'heated_cells' in kwds",
        int_cell='assert type(c) == int'), like=R, **o)
    ctx.same(R, S, ['self.' + w for w in WHAT])
    ctx.views(R, [('self._dT_heated', 'self.dT_heat'),
                  ('self._mcp_heated', 'self._mcp'),
                  ('self._T_chp_in', 'self.T'),
                  ('self._actuator_CV', 'self._power_modulation')])


PARTS = [('heated', heated), ('chp', chp)]
