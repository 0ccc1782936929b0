"""C27 geometry and initial state of parts follow from the given dimensions"""

LEVEL = 'other'
RULE = ('gated value-graph equality of every stored dimension with its '
        'geometric formula, guards of the given dimensions, and view '
        'analysis of the state arrays')
ASSUMPTIONS = ['numpy basic slices are views',
               'the tables of materials and pipe sizes are taken as given']
FLOOR = 100

SHARED = '''
    self._T_ext = np.zeros(self.num_gp + 2)
    self.T = self._T_ext[1:-1]
    self._T_top = self._T_ext[:-2]
    self._T_bot = self._T_ext[2:]
    self._cp_T = np.zeros(self.num_gp + 2)
    self._cp_top = self._cp_T[:-2]
    self._cp_bot = self._cp_T[2:]
    self.res = np.zeros((1, self.num_gp))
    self._lam_T = np.zeros(self.num_gp)
    self._lam_mean = np.zeros(self.num_gp - 1)
    self._alpha_i = np.full(self.num_gp, 3.122)
    self._alpha_inf = np.full(self.num_gp, 3.122)
    self._UA_tb = np.zeros(self.num_gp + 1)
'''

FLAGS = '''
    self._ui = np.zeros(self.num_gp)
    self._mcp = np.zeros(self.num_gp)
    self._rho_T = np.zeros(self.num_gp)
    self._rhocp = np.zeros(self.num_gp)
    self._ny_T = np.zeros(self.num_gp)
    self._T_s = np.zeros(self.num_gp)
    self._UA_amb_shell = np.zeros(self.num_gp)
    self._dm_top = np.zeros(self.num_gp)
    self._dm_bot = np.zeros(self.num_gp)
    self.dT_cond = np.zeros(self.num_gp)
    self.dT_adv = np.zeros(self.num_gp)
    self.dT_total = np.zeros(self.num_gp)
    self.res_dm = np.zeros((2, 1))
    self.solve_explicitly = True
    self.collapse_arrays = True
    self.can_add_ports = True
    self._flow_net_parent = False
    self._port_heatcond = True
    self.multiple_flows = False
    self.is_actuator = False
    self.control_req = False
    self.enlarged_memview = False
    self.initialized = False
    self.part_id = master_cls.num_parts - 1
    self._trnc_err = 0
    self._trnc_err_cell_weight = 1
    self._solved_ports = []
'''
FLAG = ['solve_explicitly', 'collapse_arrays', 'can_add_ports',
        '_flow_net_parent', '_port_heatcond', 'multiple_flows',
        'is_actuator', 'control_req', 'enlarged_memview', 'initialized',
        'part_id', '_trnc_err', '_trnc_err_cell_weight', '_solved_ports',
        '_cnt_open_prts', 'hydr_comp', 'affect_dm', '_diff_fully_njit']
CELL = ['_ui', '_mcp', '_rho_T', '_rhocp', '_ny_T', '_T_s', '_UA_amb_shell',
        '_dm_top', '_dm_bot', 'dT_cond', 'dT_adv', 'dT_total']


def sizes(xs):
    return ['len(self.%s)' % x for x in xs] + ['self.res.shape',
                                               'self.res_dm.shape']


PIPE = '''
def __init__(self, name, master_cls, **K):
    assert isinstance(K['length'], (int, float))
    assert K['length'] > 0
    assert isinstance(K['grid_points'], int)
    assert K['grid_points'] > 0
    self.name = name
    self.length = float(K['length'])
    self.num_gp = K['grid_points']
    self.grid_spacing = self.length / self.num_gp
    self._cell_dist = np.arange(self.grid_spacing / 2, self.length,
                                self.grid_spacing)
''' + SHARED + '''
    self.port_num = 2
    self._port_own_idx = np.array((0, self.num_gp - 1))
    self.port_names = ('in', 'out')
    self.dm_char = ('in', 'out')
    self._own_ports = (name + ';' + 'in', name + ';' + 'out')
    self._dm_io = np.zeros(1)
    self.dm = self._dm_io[:]
    self._process_flows = np.array([True])
    self.dm_invariant = True
    self.solve_numeric = True
    self.break_topology = False
    self._diff_njit = DIFF
    self._T_port = np.zeros(2)
    self._cnt_open_prts = 2
    self.hydr_comp = False
    self.affect_dm = False
    self._diff_fully_njit = True
''' + FLAGS

ARRAYS = ['_T_ext', 'T', '_T_top', '_T_bot', '_cp_T', '_cp_top', '_cp_bot',
          '_lam_T', '_lam_mean', '_alpha_i', '_alpha_inf', '_UA_tb']
VIEWS = [('self.T', 'self._T_ext'), ('self._T_top', 'self._T_ext'),
         ('self._T_bot', 'self._T_ext'), ('self._cp_top', 'self._cp_T'),
         ('self._cp_bot', 'self._cp_T')]


def s(xs):
    return ['self.' + x for x in xs]


def pipe(ctx):
    o = dict(opaque=['_print_arg_errs'])
    R = ctx.run('parts.pipe:Pipe.__init__', **o)
    S = ctx.spec(PIPE.replace('DIFF', '_pf.pipe1D_diff'), like=R, **o)
    ctx.same(R, S, s(['name', 'length', 'num_gp', 'grid_spacing',
                      '_cell_dist', 'port_num', '_port_own_idx',
                      'port_names', 'dm_char', '_own_ports', '_dm_io', 'dm',
                      '_process_flows', 'dm_invariant', 'solve_numeric',
                      'break_topology', '_diff_njit'] + ARRAYS + FLAG + CELL))
    ctx.same(R, S, sizes(ARRAYS + CELL + ['_T_port', '_dm_io']))
    ctx.views(R, VIEWS + [('self.dm', 'self._dm_io')])
    ctx.raises_when(R, S)



INS = '''
    {need}
    assert isinstance(self._s_ins, (int, float))
    assert self._s_ins >= 0
    assert isinstance(self._lam_ins, (int, float))
    assert self._lam_ins >= 0
    self._s_ins = float(self._s_ins)
    self._lam_ins = float(self._lam_ins)
'''

T0 = '''
    assert isinstance(K['T_init'], (int, float, np.ndarray))
    if isinstance(K['T_init'], (int, float)):
        self.T[:] = float(K['T_init'])
        self._T_init = float(K['T_init'])
    else:
        assert K['T_init'].shape == self.T.shape
        self.T[:] = K['T_init']
        self._T_init = K['T_init']
'''

# wall and insulation resistances referred to the inner radius
RADII = '''
    ri = self._d_i / 2
    ro = self._d_o / 2
    rt = ro + self._s_ins
    self._r_total = rt
    self._r_ln_wll = ri * np.log(ro / ri)
    self._r_ln_ins = ri * np.log(rt / ro)
    self._r_rins = ri / rt
    self._s_wll = ro - ri
    self._A_shell_ins = 2 * np.pi * rt * self.grid_spacing
    self._UA_tb_wll = cs * self._lam_wll / self.grid_spacing
    self._mcp_wll = (self._cp_wll * self._rho_wll * cs * self.length
                     / self.num_gp)
'''

PIPE_INIT = '''
def init_part(self, **K):
    self._s_ins = K.get('s_ins', K.get('insulation_thickness', None))
    self._lam_ins = K.get('lambda_ins', K.get('insulation_lambda', None))
''' + INS.format(need='pass') + '''
    self._get_specs_n_props(**K)
    assert 'all' in K['pipe_specs']
''' + T0 + '''
    specs = self.info_topology['all_ports']['pipe_specs']
    self._d_i = float(specs['d_i'])
    self._d_o = float(specs['d_o'])
    self._r_i = self._d_i / 2
    self._r_o = self._d_o / 2
    cs = np.pi / 4 * (self._d_o ** 2 - self._d_i ** 2)
    self._A_shell_cs = cs
    self._V_shell_cs = cs * self.length
    self.A_cell = self._A_fld_own_p
    self.V_cell = self._A_fld_own_p * self.grid_spacing
    self._A_shell_i = np.pi * self._d_i * self.grid_spacing
    self._A_shell_o = np.pi * self._d_o * self.grid_spacing
''' + RADII + '''
    self._chk_amb_temp(**K)
    self._vertical = False
    self._flow_length = np.pi * rt
    self.initialized = True
'''
GEO = ['_s_ins', '_lam_ins', '_T_init', 'T', '_d_i', '_d_o', '_r_i', '_r_o',
       '_r_total', '_r_ln_wll', '_r_ln_ins', '_r_rins', '_s_wll',
       '_A_shell_i', '_A_shell_o', '_A_shell_ins', '_A_shell_cs',
       '_V_shell_cs', '_UA_tb_wll', '_mcp_wll', 'A_cell', 'V_cell',
       '_vertical', '_flow_length', 'initialized']


def pipe_init(ctx):
    o = dict(opaque=['_print_arg_errs', '_get_specs_n_props',
                     '_chk_amb_temp'])
    R = ctx.run('parts.pipe:Pipe.init_part', **o)
    S = ctx.spec(PIPE_INIT, like=R, **o)
    ctx.same(R, S, s(GEO))
    ctx.trace(R, S, ['_get_specs_n_props', '_chk_amb_temp'])
    ctx.raises_when(R, S)


TES = '''
def __init__(self, name, master_cls, **K):
    assert K['volume'] > 0
    assert isinstance(K['grid_points'], int)
    assert K['grid_points'] > 0
    assert K['outer_diameter'] > 0
    assert isinstance(K['shell_thickness'], (int, float))
    assert K['shell_thickness'] > 0
    self.name = name
    self.V_tes = float(K['volume'])
    self.num_gp = K['grid_points']
    self._d_o = float(K['outer_diameter'])
    self._d_shell = float(K['shell_thickness'])
    assert self._d_shell < 1
    self._d_i = self._d_o - 2 * self._d_shell
    self._r_i = self._d_i / 2
    self._r_o = self._d_o / 2
    self.A_cell = np.pi * self._r_i ** 2
    self.V_cell = self.V_tes / self.num_gp
    self.length = self.V_tes / self.A_cell
    self.grid_spacing = self.length / self.num_gp
    self._A_shell_i = np.pi * self._d_i * self.grid_spacing
    self._A_shell_o = np.pi * self._d_o * self.grid_spacing
    self._A_shell_cs = np.pi * (self._r_o ** 2 - self._r_i ** 2)
    self._V_shell_cs = self._A_shell_cs * self.length
    self._cell_dist = np.full(self.num_gp, self.length * (1.077 / 1.615) ** 3)
''' + SHARED + '''
    self._T_s = np.zeros(self.num_gp)
    self._T_s_lid = self._T_s[:: self.num_gp - 1]
    self._lid_top = np.array([1, 0])
    self._T_port = np.zeros(2)
    self._cp_port = np.zeros(2)
    self._dm_port = np.zeros(2)
    self._UA_port = np.zeros(2)
    self._dm_io = np.zeros(2)
    self._port_own_idx = np.array((0, self.num_gp - 1))
    self.port_names = ('in', 'out')
    self.port_num = 2
    self.dm_char = ('in', 'in')
    self.__add_ports(**K)
    own = list(self.port_names)
    for i in range(self.port_num):
        own[i] = self.name + ';' + own[i]
    self._own_ports = tuple(own)
    self.dm = np.zeros(self.num_gp)
    self._process_flows = np.array([True])
    self.dm_invariant = False
    self.solve_numeric = True
    self.break_topology = True
    self.calculate_buoyancy = True
    self._cnt_open_prts = self.port_num
    self.hydr_comp = True
    self.affect_dm = True
    self._diff_fully_njit = False
''' + FLAGS.replace('self._T_s = np', 'pass  # ')


def tes(ctx):
    o = dict(opaque=['_print_arg_errs'])
    R = ctx.run('parts.tes:Tes.__init__', **o)
    S = ctx.spec(TES, like=R, **o)
    ctx.same(R, S, s(['name', 'V_tes', 'num_gp', '_d_o', '_d_i', '_d_shell',
                      '_r_i', '_r_o', 'A_cell', 'V_cell', 'length',
                      'grid_spacing', '_A_shell_i', '_A_shell_o',
                      '_A_shell_cs', '_V_shell_cs', '_cell_dist', '_lid_top',
                      'dm', 'dm_invariant', 'solve_numeric',
                      'break_topology', 'calculate_buoyancy',
                      '_process_flows', '_port_own_idx', 'port_names',
                      'port_num', 'dm_char', '_T_s_lid', '_own_ports'] + ARRAYS + FLAG
                     + CELL))
    ctx.same(R, S, sizes(ARRAYS + CELL + ['_T_port', '_dm_io', 'dm']))
    ctx.views(R, VIEWS + [('self._T_s_lid', 'self._T_s')])
    ctx.raises_when(R, S)


TES_INIT = '''
def init_part(self, **K):
    self._s_ins = K['s_ins'] if 's_ins' in K else K['insulation_thickness']
    self._lam_ins = (K['lambda_ins'] if 'lambda_ins' in K
                     else K['insulation_lambda'])
''' + INS.format(need='pass') + '''
    assert np.all((K['T_init'] > 0.0) & (K['T_init'] < 110.0))
''' + T0 + '''
    self._get_specs_n_props(**K)
    cs = self._A_shell_cs
    self.V_cell = self.V_cell
''' + RADII.replace('cs * self.length', 'self._V_shell_cs').replace(
    'self._d_i / 2', 'self._r_i').replace('ro = self._d_o / 2', '''ro = self._r_o
    rt = self._d_o / 2 + self._s_ins''').replace(
        'rt = ro + self._s_ins', 'pass') + '''
    self._chk_amb_temp(**K)
    self._vertical = True
    self._vertical_lid = False
    self._flow_length = self.grid_spacing
    # circular lid: diameter / 4
    self._flow_length_lid = rt / 2
    self.initialized = True
'''


def tes_init(ctx):
    o = dict(opaque=['_print_arg_errs', '_get_specs_n_props',
                     '_chk_amb_temp'])
    R = ctx.run('parts.tes:Tes.init_part', **o)
    S = ctx.spec(TES_INIT, like=R, **o)
    ctx.same(R, S, s(['_s_ins', '_lam_ins', '_T_init', 'T', '_r_total',
                      '_r_ln_wll', '_r_ln_ins', '_r_rins', '_s_wll',
                      '_A_shell_ins', '_UA_tb_wll', '_mcp_wll', 'A_cell',
                      'V_cell', '_vertical', '_vertical_lid', '_flow_length',
                      '_flow_length_lid', 'initialized', '_d_i', '_d_o']))
    ctx.trace(R, S, ['_get_specs_n_props', '_chk_amb_temp'])
    ctx.raises_when(R, S)


LEN = '''
def calc_flow_length(*, part_shape, vertical, **K):
    assert part_shape in ['plane', 'cylinder', 'sphere']
    assert type(vertical) == bool
    if part_shape == 'sphere':
        assert 'diameter' in K and isinstance(K['diameter'], (int, float))
        return K['diameter']
    if vertical:
        assert 'height' in K and isinstance(K['height'], (int, float))
        return K['height']
    if part_shape == 'plane':
        assert 'width' in K and isinstance(K['width'], (int, float))
        assert 'depth' in K and isinstance(K['depth'], (int, float))
        return K['width'] * K['depth'] / (2 * (K['width'] + K['depth']))
    assert 'diameter' in K and isinstance(K['diameter'], (int, float))
    return np.pi / 2 * K['diameter']
'''


def flow_length(ctx):
    R = ctx.run('precomp_funs:calc_flow_length')
    S = ctx.spec(LEN, like=R)
    ctx.same(R, S, ['ret'])
    ctx.raises_when(R, S)


BRANCH = PIPE + '''
    # flows differ between the cells; both ends take what flows in
    self.dm = np.zeros(self.num_gp)
    self.dm_char = ('in', 'in')
    self.can_add_ports = True
    self._add_ports(**K)
    self._own_ports = tuple(self.name + ';' + self.port_names[i]
                            for i in range(self.port_num))
    self._cnt_open_prts = self.port_num
    self.dm_invariant = False
    self.break_topology = True
    self.affect_dm = False
    self._diff_fully_njit = False
'''


def branch(ctx):
    o = dict(opaque=['_print_arg_errs', '_add_ports'])
    R = ctx.run('parts.pipe_branched:PipeBranched.__init__', **o)
    S = ctx.spec(BRANCH.replace('DIFF', '_pf.pipe1D_diff'), like=R, **o)
    ctx.same(R, S, s(['name', 'length', 'num_gp', 'grid_spacing',
                      '_cell_dist', 'dm_char', 'dm', 'can_add_ports',
                      '_own_ports', '_cnt_open_prts', 'dm_invariant',
                      'solve_numeric', 'break_topology', 'affect_dm',
                      '_diff_fully_njit', '_dm_top', '_dm_bot', 'hydr_comp']
                     + ARRAYS))
    ctx.same(R, S, ['len(self.dm)', 'len(self._dm_top)',
                    'len(self._dm_bot)', 'len(self.T)'])
    ctx.views(R, VIEWS)
    ctx.trace(R, S, ['_add_ports'])
    ctx.raises_when(R, S)


PARTS = [('pipe', pipe), ('branch', branch), ('pipe_init', pipe_init), ('tes', tes),
         ('tes_init', tes_init), ('flow_length', flow_length)]
