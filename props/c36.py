"""C36 materials and connection cross sections"""

LEVEL = 'other'
RULE = 'gated value-graph equality of the stored properties with the selected data'
ASSUMPTIONS = []
FLOOR = 9

SPEC = '''
def _get_specs_n_props(self, material=None, pipe_specs=None,
                       material_only=False, pipe_specs_only=False, **K):
    assert isinstance(material_only, bool)
    assert isinstance(pipe_specs_only, bool)
    if not hasattr(self, 'info_topology'):
        self.info_topology = dict()
    if not pipe_specs_only:
        if material is None:
            assert 'material' in K
        assert material in self._models._mprop_sld.columns
        props = self._models._mprop_sld[material]
        self._cp_wll = float(props.c_p)
        self._rho_wll = float(props.rho)
        if self.solve_numeric:
            self._lam_wll = float(props['lambda'])
        else:
            self._lam_wll = np.full_like(self._T_port, float(props['lambda']))
        if 'all_ports' not in self.info_topology:
            self.info_topology['all_ports'] = dict()
        self.info_topology['all_ports'].update({
            'material': material, 'lambda material [W/(mK)]': self._lam_wll,
            'rho material [kg/m^3]': self._rho_wll,
            'c_p material [J/(kgK)]': self._cp_wll})
    if not material_only:
        if pipe_specs is None:
            assert 'pipe_specs' in K
            pipe_specs = K['pipe_specs']
        assert isinstance(pipe_specs, dict)
        for key in pipe_specs.keys():
            v = pipe_specs[key]
            assert 'pipe_type' in v.keys()
            assert 'DN' in v.keys() or ('A_i' in v.keys() and 'A_wall' in v.keys())
        for key, v in pipe_specs.items():
            typ = v['pipe_type']
            table = 'DN' in v.keys()
            name = v['DN'] if table else 'self defined, Ai: {0:.3G}, Awall: {1:.3G}'.format(v['A_i'], v['A_wall'])
            assert typ in self._models._pipe_specs.columns
            if table:
                assert v['DN'] in self._models._pipe_specs[typ].columns
            if 'all' in pipe_specs and len(pipe_specs.keys()) == 1:
                if table:
                    row = self._models._pipe_specs[typ, v['DN']]
                    wll = float(row.A_wall)
                    fld = float(row.A_i)
                else:
                    wll = float(v['A_wall'])
                    fld = float(v['A_i'])
                if not self.solve_numeric:
                    wll = np.full_like(self._T_port, wll)
                    fld = np.full_like(self._T_port, fld)
                self._A_wll_own_p = wll
                self._A_fld_own_p = fld
                if 'all_ports' not in self.info_topology:
                    self.info_topology['all_ports'] = dict()
                self.info_topology['all_ports'].update({
                    'pipe_type': typ, 'DN': name,
                    'pipe_specs': dict(self._models._pipe_specs[typ, name])
                    if table else v})
            else:
                i = self._get_arr_idx(self.name, key, target='port_specs',
                                      as_slice=False, cls=self)
                if not (hasattr(self, '_A_wll_own_p')
                        and isinstance(self._A_wll_own_p, np.ndarray)
                        and self._A_wll_own_p.shape == self._T_port.shape):
                    self._A_wll_own_p = np.zeros_like(self._T_port)
                    self._A_fld_own_p = np.zeros_like(self._T_port)
                if table:
                    row = self._models._pipe_specs[typ, v['DN']]
                    self._A_wll_own_p[i] = row['A_wall']
                    self._A_fld_own_p[i] = row['A_i']
                else:
                    self._A_wll_own_p[i] = v['A_wall']
                    self._A_fld_own_p[i] = v['A_i']
                if key not in self.info_topology:
                    self.info_topology[key] = dict()
                self.info_topology[key].update({
                    'pipe_type': typ, 'DN': name,
                    'pipe_specs': self._models._pipe_specs[typ, name]
                    if table else v})
        if 'all' not in pipe_specs:
            assert len(pipe_specs) == self.port_num
'''


def specs(ctx):
    o = dict(opaque=['_get_arr_idx'])
    for _ in ctx.known('pipe_specs is None'):
        R = ctx.run('simenv:SimEnv._get_specs_n_props', **o)
        S = ctx.spec(SPEC, like=R, **o)
        ctx.same(R, S, ['self._cp_wll', 'self._rho_wll', 'self._lam_wll',
                        'self._A_wll_own_p', 'self._A_fld_own_p', 'self.info_topology'])
        ctx.trace(R, S, ['update'], with_recv=('update',), commute=('update',))
        ctx.same(R, S, ['exc'])


PARTS = [('data', specs)]
