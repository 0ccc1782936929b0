"""C35 dimensions, channels and initial state of the plate heat exchangers"""

LEVEL = 'other'
RULE = ('gated value-graph equality of the channel numbers, dimensions, wall '
        'masses and conductances with their geometric formulas, guards of the '
        'given data and view analysis of the state arrays')
ASSUMPTIONS = ['numpy basic slices are views',
               'the tables of materials and pipe sizes are taken as given']
FLOOR = 100

CLS = 'parts.hex_num:HexNum'
STAT = 'parts.heatexchanger:HeatExchanger'

INIT = '''
def __init__(self, name, master_cls, **K):
    assert 'HEx_type' in K
    assert K['HEx_type'] == 'plate_hex'
    assert 'flow_type' in K
    assert K['flow_type'] == 'counter'
    assert 'passes' in K
    assert isinstance(K['passes'], int)
    assert K['passes'] > 0
    assert 'plates' in K
    assert isinstance(K['plates'], int)
    assert K['plates'] > 4
    self.name = name
    self.HEx_type = K['HEx_type']
    self.flow_type = K['flow_type']
    self.passes = K['passes']
    n = K['plates']
    self.num_plates = n
    if self.passes == 1:
        # n plates enclose n - 1 channels
        assert n % 2 == 0
        assert 'max_channels' in K
        assert isinstance(K['max_channels'], str)
        assert K['max_channels'] in ('supply', 'demand')
        if K['max_channels'] == 'supply':
            self._num_channels_sup = int(n / 2)
            self._num_channels_dmd = int(n / 2 - 1)
        else:
            self._num_channels_sup = int(n / 2 - 1)
            self._num_channels_dmd = int(n / 2)
    else:
        # the channels of a side are shared between the passes
        assert (n - 1) / self.passes % 2 == 0
        self._num_channels_sup = int((n - 1) / (2 * self.passes))
        self._num_channels_dmd = int((n - 1) / (2 * self.passes))
    self._channel_divisor = np.array([self._num_channels_sup,
                                      self._num_channels_dmd])
    # the two outer plates do not transfer heat
    self._num_A = int((n - 2) / self.passes)
    assert 'grid_points' in K
    assert isinstance(K['grid_points'], int)
    assert K['grid_points'] > 0
    self.num_gp = K['grid_points']
    N = K['grid_points']
    # columns: ghost, supply side, wall, demand side, ghost
    self._T_ext = np.zeros((N + 2, 5))
    self.T = self._T_ext[1:-1, 1:-1]
    self._T_top = self._T_ext[:-2, 1:-1]
    self._T_bot = self._T_ext[2:, 1:-1]
    self._T_sup = self.T[:, 0]
    self._T_wll = self.T[:, 1]
    self._T_dmd = self.T[:, 2]
    self._T_fld = self.T[:, ::2]
    self._T_init = np.zeros(self.T.shape)
    self._T_port = np.zeros(4)
    self._lam_T = np.zeros(self.T.shape)
    self._lam_fld = self._lam_T[:, ::2]
    self._lam_mean = np.zeros((N - 1, 2))
    self._alpha_i = np.full_like(self._lam_fld, 3.122)
    self._cp_T = np.zeros((N + 2, 2))
    self._cp_top = self._cp_T[:-2]
    self._cp_bot = self._cp_T[2:]
    self._cp_port = np.zeros(4)
    self._rho_T = np.zeros_like(self._T_fld)
    self._ny_T = np.zeros_like(self._T_fld)
    self._rhocp = np.zeros(self.T.shape)
    self._ui = np.zeros(self.T.shape)
    self._mcp = np.zeros(self.T.shape)
    self._UA_dim1 = np.zeros((N + 1, 3))
    self._UA_dim2 = np.zeros((N, 4))
    self._UA_port = np.zeros(4)
    self._dm_io = np.zeros(2)
    self._dm_sup = self._dm_io[:1]
    self._dm_dmd = self._dm_io[1:]
    self.dm = np.zeros(2)
    self._dm_top = np.zeros_like(self._T_fld)
    self._dm_bot = np.zeros_like(self._T_fld)
    self._dm_port = np.zeros(4)
    self.res = np.zeros((1,) + self.T.shape)
    self.res_dm = np.zeros((2, 1))
    self.dT_cond = np.zeros(self.T.shape)
    self.dT_adv = np.zeros(self.T.shape)
    self.dT_total = np.zeros(self.T.shape)
    # flat indices of the first and last fluid cell of each side
    self.port_num = 4
    self._port_own_idx = np.array([0, 3 * (N - 1), 2, 3 * (N - 1) + 2])
    self._port_own_idx_2D = np.array([0, 3 * (N - 1), 2, 3 * (N - 1) + 2])
    self._flow_channels = ('sup', 'dmd')
    self.port_names = ('sup_in', 'sup_out', 'dmd_out', 'dmd_in')
    self.dm_char = ('in', 'out', 'in', 'out')
    self._own_ports = (name + ';' + 'sup_in', name + ';' + 'sup_out',
                       name + ';' + 'dmd_out', name + ';' + 'dmd_in')
    self._process_flows = np.array([True])
    self.part_id = master_cls.num_parts - 1
    self._trnc_err = 0
    self._trnc_err_cell_weight = 1
    self._stability_breaches = np.zeros(1).astype(int)
    self.solve_numeric = True
    self.collapse_arrays = True
    self.hydr_comp = False
    self._flow_net_parent = False
    self.break_topology = False
    self._cnt_open_prts = 4
    self._port_heatcond = True
    self.affect_dm = False
    self.dm_invariant = True
    self.multiple_flows = True
    self.is_actuator = False
    self.control_req = False
    self.initialized = False
    if (master_cls._allow_implicit and 'solve_implicit' in K
            and isinstance(K['solve_implicit'], bool)
            and K['solve_implicit']):
        assert 'implicit_root_diff' in K
        assert callable(K['implicit_root_diff'])
'''
SCALAR = ['name', 'HEx_type', 'flow_type', 'passes', 'num_plates',
          '_num_channels_sup', '_num_channels_dmd', '_channel_divisor',
          '_num_A', 'num_gp', 'port_num', '_port_own_idx',
          '_port_own_idx_2D', '_flow_channels', 'port_names', 'dm_char',
          '_own_ports', '_process_flows', 'part_id', '_trnc_err',
          '_trnc_err_cell_weight', '_stability_breaches', 'solve_numeric',
          'collapse_arrays', 'hydr_comp', '_flow_net_parent',
          'break_topology', '_cnt_open_prts', '_port_heatcond', 'affect_dm',
          'dm_invariant', 'multiple_flows', 'is_actuator', 'control_req',
          'initialized']
ARR = ['_T_ext', 'T', '_T_top', '_T_bot', '_T_sup', '_T_wll', '_T_dmd',
       '_T_fld', '_T_init', '_T_port', '_lam_T', '_lam_fld', '_lam_mean',
       '_alpha_i', '_cp_T', '_cp_top', '_cp_bot', '_cp_port', '_rho_T',
       '_ny_T', '_rhocp', '_ui', '_mcp', '_UA_dim1', '_UA_dim2', '_UA_port',
       '_dm_io', '_dm_sup', '_dm_dmd', 'dm', '_dm_top', '_dm_bot', '_dm_port',
       'res', 'res_dm', 'dT_cond', 'dT_adv', 'dT_total']
VIEWS = [('self.' + a, 'self.' + b) for a, b in (
    ('T', '_T_ext'), ('_T_top', '_T_ext'), ('_T_bot', '_T_ext'),
    ('_T_sup', '_T_ext'), ('_T_wll', '_T_ext'), ('_T_dmd', '_T_ext'),
    ('_T_fld', '_T_ext'), ('_lam_fld', '_lam_T'), ('_cp_top', '_cp_T'),
    ('_cp_bot', '_cp_T'), ('_dm_sup', '_dm_io'), ('_dm_dmd', '_dm_io'))]

GEOMETRY = '''
def plate(l, w, d, r):
    """plate without its four ports and cut corners"""
    return l * w - np.pi * d ** 2 - (4 - np.pi) * r ** 2
def rim(l, w, r):
    return 2 * (l + w) - 8 * r + 2 * np.pi * r
def pos(K, k):
    assert k in K
    assert isinstance(K[k], (int, float))
    assert K[k] > 0
def geometry(self, **K):
    pos(K, 'length')
    pos(K, 'width')
    pos(K, 'port_diameter')
    if 'channel_area' in K:
        pos(K, 'channel_area')
    assert 'corner_radius' in K
    assert isinstance(K['corner_radius'], (int, float))
    assert K['corner_radius'] >= 0
    l = float(K['length'])
    w = float(K['width'])
    d = float(K['port_diameter'])
    r = float(K['corner_radius'])
    self.length = l
    self.width = w
    self._d_port = d
    self._r_corner = r
    self.length_flow = l * self.passes
    if 'A_plate' in K:
        self.A_plate = float(K['A_plate'])
    else:
        self.A_plate = plate(l, w, d, r)
    self.A_plate_eff = self.A_plate * self.passes
    if not ('depth' in K and isinstance(K['depth'], (int, float))
            and K['depth'] > 0):
        pos(K, 'depth_base')
        pos(K, 'depth_per_plate')
    if 'depth_base' in K:
        self.depth = (float(K['depth_base'])
                      + float(K['depth_per_plate']) * self.num_plates)
    else:
        self.depth = float(K['depth'])
    if 'channel_width' in K:
        pos(K, 'channel_width')
        self._s_channel = float(K['channel_width'])
        if 'plate_thickness' in K:
            pos(K, 'plate_thickness')
            self._s_plate = float(K['plate_thickness'])
        else:
            pos(K, 'depth_per_plate')
            self._s_plate = float(K['depth_per_plate']) - self._s_channel
        if 'V_channel' in K:
            pos(K, 'V_channel')
            self.V_ch_fld_tot = float(K['V_channel'])
        else:
            self.V_ch_fld_tot = self._s_channel * self.A_plate
    elif 'mass_per_plate' in K:
        pos(K, 'depth_per_plate')
        pos(K, 'mass_per_plate')
        if 'plate_thickness' in K:
            pos(K, 'plate_thickness')
            self._s_plate = float(K['plate_thickness'])
        else:
            self._s_plate = float(K['mass_per_plate']) / (self._rho_wll * (
                self.A_plate + float(K['depth_per_plate']) * rim(l, w, r)))
        self._s_channel = float(K['depth_per_plate']) - self._s_plate
        if 'V_channel' in K:
            self.V_ch_fld_tot = float(K['V_channel'])
        else:
            # two of the four ports are open to a channel
            self.V_ch_fld_tot = self._s_channel * (
                plate(l, w, 0, r) - np.pi * d ** 2 / 2)
    else:
        pos(K, 'V_channel')
        self.V_ch_fld_tot = float(K['V_channel'])
        self._s_channel = self.V_ch_fld_tot / plate(l, w, 0, r)
        if 'plate_thickness' in K:
            pos(K, 'plate_thickness')
            self._s_plate = float(K['plate_thickness'])
        else:
            pos(K, 'depth_per_plate')
            self._s_plate = float(K['depth_per_plate']) - self._s_channel
    if 'channel_area' in K:
        self.A_channel = float(K['channel_area'])
    else:
        self.A_channel = self._s_channel * w
    assert 'mass_per_plate' in K
    self._m_per_plate = float(K['mass_per_plate'])
    if 'mass_base' in K:
        self._m_hex_wll = (float(K['mass_base'])
                           + self._m_per_plate * self.num_plates)
    else:
        assert 'mass_total' in K
        self._m_hex_wll = float(K['mass_total'])
    self._d_h = 2 * self._s_channel
    self.V_cell_fld = self.V_ch_fld_tot / self.num_gp
    self._A_o = (2 * plate(l, w, 0, r) + rim(l, w, r) * self.depth)
    i = 2 * self._s_ins
    self._A_o_ins = (2 * plate(l + i, w + i, 0, r)
                     + rim(l + i, w + i, r) * (self.depth + i))
    self._A_o_rel = self._A_o_ins / self._A_o
    self.A_hex_total = self.A_plate * (self.num_plates - 2)
    self._dist_min = (w + i) / 2
    self._V_plate = self.A_plate * self._s_plate
    self._V_cell_wll = self._V_plate / self.num_gp
    self._A_wll_cs = self._s_plate * w
    self._mcp_wll_total = self._m_hex_wll * self._cp_wll
    self._mcp_wll_plate = self._m_per_plate * self._cp_wll
    self._mcp_wll_cell = self._mcp_wll_plate / self.num_gp
    self._mcp[:, 1] = self._mcp_wll_cell
'''
GEO = ['length', 'width', '_d_port', '_r_corner', 'length_flow', 'A_plate',
       'A_plate_eff', 'depth', '_s_channel', '_s_plate', 'V_ch_fld_tot',
       'A_channel', '_m_per_plate', '_m_hex_wll', '_d_h', 'V_cell_fld',
       '_A_o', '_A_o_ins', '_A_o_rel', 'A_hex_total', '_dist_min', '_V_plate',
       '_V_cell_wll', '_A_wll_cs', '_mcp_wll_total', '_mcp_wll_plate',
       '_mcp_wll_cell', '_mcp']

INIT_PART = '''
def init_part(self, *, reynolds_correction=1e-6, **K):
    assert K
    assert 'insulation_thickness' in K
    assert 'insulation_lambda' in K
    self._s_ins = float(K['insulation_thickness'])
    self._lam_ins = float(K['insulation_lambda'])
    assert 'material' in K
    assert 'pipe_specs' in K
    self._get_specs_n_props(**K)
    assert 'all' in K['pipe_specs']
    self.get_plate_hex_geometry(**K)
    self.grid_spacing = self.length / self.num_gp
    self._UA_dim1_wll = self._A_wll_cs * self._lam_wll / self.grid_spacing
    assert 'T_init' in K
    assert isinstance(K['T_init'], (int, float, np.ndarray))
    if isinstance(K['T_init'], np.ndarray):
        assert K['T_init'].shape == self.T.shape
        self._T_init = K['T_init']
    else:
        self._T_init = float(K['T_init'])
    self.T[:] = self._T_init
    assert isinstance(reynolds_correction, (int, float))
    assert reynolds_correction > 0
    self._corr_Re = np.array([reynolds_correction])
    self._cell_dist = np.arange(self.grid_spacing / 2, self.length,
                                self.grid_spacing)
    self._chk_amb_temp(**K)
    self._vertical = True
    self._flow_length = self.length
    self.initialized = True
'''
PREP = ['_s_ins', '_lam_ins', 'grid_spacing', '_UA_dim1_wll', '_T_init', 'T',
        '_corr_Re', '_cell_dist', '_vertical', '_flow_length', 'initialized']

RE = '''
def find_reynolds_correction(self, *, T_in, T_out, P, alpha_target, side):
    assert isinstance(side, str)
    assert side in ('supply', 'demand')
    if side == 'supply':
        n = self._num_channels_sup
    else:
        n = self._num_channels_dmd
    if isinstance(P, np.ndarray):
        assert type(alpha_target) == type(P)
        assert alpha_target.shape == P.shape
'''

# the stationary heat exchanger: one temperature per port, no discretisation
STAT_INIT = '''
def __init__(self, name, master_cls, **K):
    assert 'HEx_type' in K
    assert K['HEx_type'] in ['plate_hex']
    assert 'passes' in K
    assert type(K['passes']) == int
    assert K['passes'] > 0
    assert 'plates' in K
    assert type(K['plates']) == int
    assert K['plates'] > 4
    self.name = name
    self.HEx_type = K['HEx_type']
    self.passes = K['passes']
    n = K['plates']
    if self.passes == 1:
        assert n % 2 == 0
        assert 'max_channels' in K
        assert type(K['max_channels']) == str
        assert K['max_channels'] in ('supply', 'demand')
        self.num_plates = n
        if K['max_channels'] == 'supply':
            self._num_channels_sup = int(n / 2)
            self._num_channels_dmd = int(n / 2 - 1)
        else:
            self._num_channels_sup = int(n / 2 - 1)
            self._num_channels_dmd = int(n / 2)
    else:
        assert (n - 1) / self.passes % 2 == 0
        self.num_plates = int(n)
        self._num_channels_sup = int((int(n) - 1) / (2 * self.passes))
        self._num_channels_dmd = int((int(n) - 1) / (2 * self.passes))
    self._num_A = int((self.num_plates - 2) / self.passes)
    self.num_gp = 4
    self.T = np.zeros(4)
    self._T_sup = self.T[:2]
    self._T_dmd = self.T[2:]
    self._T_fld = self.T[:]
    self._T_init = np.zeros(4)
    self._T_mean = np.zeros(2)
    self._T_port = np.zeros(4)
    self._lam_mean = np.zeros(2)
    self._alpha_i = np.full(2, 3.122)
    self._cp_mean = np.zeros(2)
    self._cp_port = np.zeros(4)
    self._rho_mean = np.zeros(2)
    self._ny_mean = np.zeros(2)
    self._UA_fld_wll = np.zeros(2)
    self._UA_fld_wll_fld = np.zeros(1)
    self.dm = np.zeros(2)
    self._dm_port = np.zeros(4)
    self._dm_io = np.zeros(2)
    self._dm_sup = self._dm_io[:1]
    self._dm_dmd = self._dm_io[1:]
    self.res = np.zeros((1, 4))
    self.res_dm = np.zeros((2, 1))
    self.port_num = 4
    self._port_own_idx = np.array([0, 1, 2, 3])
    self._port_own_idx_2D = np.array([0, 1, 2, 3])
    self._flow_channels = ('sup', 'dmd')
    self.port_names = ('sup_in', 'sup_out', 'dmd_in', 'dmd_out')
    self.dm_char = ('in', 'out', 'in', 'out')
    self._own_ports = (name + ';' + 'sup_in', name + ';' + 'sup_out',
                       name + ';' + 'dmd_in', name + ';' + 'dmd_out')
    self._process_flows = np.array([True])
    self.part_id = master_cls.num_parts - 1
    self._trnc_err = 0
    self._trnc_err_cell_weight = 0
    self.solve_numeric = False
    self.collapse_arrays = True
    self.hydr_comp = False
    self._flow_net_parent = False
    self.break_topology = False
    self._cnt_open_prts = 4
    self._port_heatcond = False
    self.affect_dm = False
    self.dm_invariant = True
    self.multiple_flows = True
    self.is_actuator = False
    self.control_req = False
    self.initialized = False
'''
STAT_SCALAR = [x for x in SCALAR
               if x not in ('flow_type', '_channel_divisor',
                            '_stability_breaches')]
STAT_ARR = ['T', '_T_sup', '_T_dmd', '_T_fld', '_T_init', '_T_mean',
            '_T_port', '_lam_mean', '_alpha_i', '_cp_mean', '_cp_port',
            '_rho_mean', '_ny_mean', '_UA_fld_wll', '_UA_fld_wll_fld', 'dm',
            '_dm_port', '_dm_io', '_dm_sup', '_dm_dmd', 'res', 'res_dm']
STAT_VIEWS = [('self.' + a, 'self.' + b) for a, b in (
    ('_T_sup', 'T'), ('_T_dmd', 'T'), ('_T_fld', 'T'),
    ('_dm_sup', '_dm_io'), ('_dm_dmd', '_dm_io'))]

MASS = GEOMETRY.index("    assert 'mass_per_plate' in K\n")
STAT_GEOMETRY = (GEOMETRY[:MASS] + '''
    if 'mass_base' in K:
        assert 'mass_per_plate' in K
        self._m_wll = (float(K['mass_base'])
                       + float(K['mass_per_plate']) * self.num_plates)
    else:
        assert 'mass_total' in K
        self._m_wll = float(K['mass_total'])
    self._mcp_wll = self._m_wll * self._cp_wll
''' + GEOMETRY[GEOMETRY.index('    self._d_h ='):
              GEOMETRY.index('    self.V_cell_fld')]
    + GEOMETRY[GEOMETRY.index('    self._A_o ='):
               GEOMETRY.index('    self._V_plate')])
STAT_GEO = [x for x in GEO
            if x not in ('_m_per_plate', '_m_hex_wll', 'V_cell_fld',
                         '_V_plate', '_V_cell_wll', '_A_wll_cs',
                         '_mcp_wll_total', '_mcp_wll_plate', '_mcp_wll_cell',
                         '_mcp')] + ['_m_wll', '_mcp_wll']

STAT_PART = '''
def init_part(self, *, Reynolds_correction=1e-6, **K):
    assert K
    assert 'insulation_thickness' in K
    assert 'insulation_lambda' in K
    self._s_ins = float(K['insulation_thickness'])
    self._lam_ins = float(K['insulation_lambda'])
    assert 'material' in K
    assert 'pipe_specs' in K
    self._get_specs_n_props(**K)
    assert 'all' in K['pipe_specs']
    self._lam_plate = self._lam_wll[:1].copy()
    self.get_plate_hex_geometry(**K)
    assert 'T_init' in K
    assert isinstance(K['T_init'], (int, float, np.ndarray))
    if type(K['T_init']) == np.ndarray:
        assert K['T_init'].shape == self.T.shape
        self._T_init = K['T_init']
    else:
        self._T_init = float(K['T_init'])
    self.T[:] = self._T_init
    assert isinstance(Reynolds_correction, (int, float))
    assert Reynolds_correction > 0
    self._corr_Re = np.array([Reynolds_correction])
    self._cell_dist = np.array([self.length])
    self._d_o = float(self.info_topology['all_ports']['pipe_specs']['d_o'])
    self._chk_amb_temp(**K)
    self._vertical = True
    self._flow_length = self.length
    self.initialized = True
'''
STAT_PREP = ['_s_ins', '_lam_ins', '_lam_plate', '_T_init', 'T', '_corr_Re',
             '_cell_dist', '_d_o', '_vertical', '_flow_length', 'initialized']

STAT_RE = RE.replace('find_reynolds', 'find_Reynolds').replace(
    'isinstance(side, str)', 'type(side) == str').replace(
    'isinstance(P, np.ndarray)', 'type(P) == np.ndarray')


def s(xs):
    return ['self.' + x for x in xs]


def init(ctx):
    for cls, text, num, arr, views in (
            (CLS, INIT, SCALAR, ARR, VIEWS),
            (STAT, STAT_INIT, STAT_SCALAR, STAT_ARR, STAT_VIEWS)):
        R = ctx.run(cls + '.__init__')
        S = ctx.spec(text, like=R)
        ctx.same(R, S, s(num + arr))
        ctx.same(R, S, ['self.%s.shape' % x for x in arr])
        ctx.views(R, views)
        ctx.same(R, S, ['exc'])


def geometry(ctx):
    for cls, text, out in ((CLS, GEOMETRY, GEO),
                           (STAT, STAT_GEOMETRY, STAT_GEO)):
        R = ctx.run(cls + '.get_plate_hex_geometry')
        S = ctx.spec(text, like=R)
        ctx.same(R, S, s(out))
        ctx.same(R, S, ['exc'])


def init_part(ctx):
    calls = ['_get_specs_n_props', '_chk_amb_temp', 'get_plate_hex_geometry']
    for cls, text, out in ((CLS, INIT_PART, PREP),
                           (STAT, STAT_PART, STAT_PREP)):
        R = ctx.run(cls + '.init_part', opaque=calls)
        S = ctx.spec(text, like=R, opaque=calls)
        ctx.same(R, S, s(out))
        ctx.trace(R, S, calls)
        ctx.same(R, S, ['exc'])


def correction(ctx):
    for target, text in ((CLS + '.find_reynolds_correction', RE),
                         (STAT + '.find_Reynolds_correction', STAT_RE)):
        R = ctx.run(target)
        S = ctx.spec(text, like=R)
        ctx.same(R, S, ['exc'])


PARTS = [('construction', init), ('geometry', geometry),
         ('initialization', init_part), ('correction', correction)]
