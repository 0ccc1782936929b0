"""C28 heat conduction over port connections, and where a port lives"""

LEVEL = 'other'
RULE = ('gated value-graph equality of the coupling coefficients, of the data '
        'taken over from the connected part and of the array position of a '
        'port')
ASSUMPTIONS = ['np.unravel_index, mean() and tuple.index are taken as '
               'uninterpreted functions']
FLOOR = 20

UA = '''
def _calc_UAwll_port(self):
    for part in self.parts.values():
        wll = (part._A_wll_own_p + part._A_wll_conn_p) / 2
        fld = (part._A_fld_own_p + part._A_fld_conn_p) / 2
        if hasattr(part, '_A_p_wll_mean') and hasattr(part, '_A_p_fld_mean'):
            part._A_p_wll_mean[:] = wll
            part._A_p_fld_mean[:] = fld
        else:
            part._A_p_wll_mean = wll
            part._A_p_fld_mean = fld
        part._A_p_wll_mean[part._A_wll_conn_p == 0] = 0
        part._A_p_fld_mean[part._A_fld_conn_p == 0] = 0
        if not hasattr(part, '_UA_port_wll'):
            part._UA_port_wll = np.zeros_like(part._A_p_wll_mean)
        m = part._A_wll_conn_p != 0
        A = part._A_p_wll_mean[m]
        other = part._port_gsp[m] / (2 * part._lam_wll_conn_p[m])
        if type(part.grid_spacing) == np.ndarray:
            own = part.grid_spacing[m] / (2 * part._lam_wll[m])
        else:
            own = part.grid_spacing / (2 * part._lam_wll)
        part._UA_port_wll[m] = A / (other + own)
'''


def ua(ctx):
    R = ctx.run('simenv:SimEnv._calc_UAwll_port')
    S = ctx.spec(UA, like=R)
    ctx.same_state(R, S)


# two connected cells see the same conductance: exchanging what is "own" and
# what is "connected" leaves the coefficient unchanged
def symmetric(ctx):
    from sa import vg
    text = '''
def f(self, part):
    self.parts = {'a': part}
    self._calc_UAwll_port()
'''
    swap = '''
def f(self, part):
    a, b = part._A_wll_own_p, part._A_wll_conn_p
    part._A_wll_own_p, part._A_wll_conn_p = b, a
    a, b = part._A_fld_own_p, part._A_fld_conn_p
    part._A_fld_own_p, part._A_fld_conn_p = b, a
    a, b = part.grid_spacing, part._port_gsp
    part.grid_spacing, part._port_gsp = b, a
    a, b = part._lam_wll, part._lam_wll_conn_p
    part._lam_wll, part._lam_wll_conn_p = b, a
    self.parts = {'a': part}
    self._calc_UAwll_port()
'''
    R = ctx.drive('simenv:SimEnv', text)
    S = ctx.drive('simenv:SimEnv', swap)
    g = ctx.spec('''
def f(self, part):
    ok = ((part._A_wll_own_p != 0) & (part._A_wll_conn_p != 0)
          & (part._A_fld_own_p != 0) & (part._A_fld_conn_p != 0))
    k = (type(part.grid_spacing) == np.ndarray
         and type(part._port_gsp) == np.ndarray)
''', like=R)
    ok = vg.and_(g.get('ok'), g.get('k'))
    for x in ('part._UA_port_wll', 'part._A_p_wll_mean',
              'part._A_p_fld_mean'):
        ctx.equal('coupling is symmetric: ' + x, R.get(x), S.get(x), ok,
                  R.where(x))


CONN = '''
def _get_port_connections(self):
    order = list()
    for part in self.parts:
        if self.parts[part].solve_numeric:
            order.append(part)
        else:
            order.insert(0, part)
    for part in order:
        own = self.parts[part]
        others = []
        for i in range(own.port_num):
            key = own.name + ';' + own.port_names[i]
            assert key in self.port_links
            others.append(self.port_links[key])
            pid = own.port_ids[i]
            self.ports[key] = self.ports_all[pid:pid + 1]
        own._connected_ports = tuple(others)
        own._port_link_idx = self.plinks_arr[own.port_ids]
        for port in own.port_names:
            trgt = self._get_arr_idx(part, port, target='port_specs',
                                     as_slice=False)
            src_part, src_port = self._get_conn_port(part + ';' + port)
            if src_part == 'BoundaryCondition':
                src_part = part
                src_port = port
            src = self.parts[src_part]
            if src._port_heatcond:
                if isinstance(src._A_wll_own_p, np.ndarray):
                    at = self._get_arr_idx(src_part, src_port,
                                           target='port_specs',
                                           as_slice=False)
                    A_w = src._A_wll_own_p[at]
                    A_f = src._A_fld_own_p[at]
                else:
                    A_w = src._A_wll_own_p
                    A_f = src._A_fld_own_p
                if type(src.grid_spacing) == np.ndarray:
                    gsp = src.grid_spacing[at]
                    lam = src._lam_wll[at]
                else:
                    gsp = src.grid_spacing
                    lam = src._lam_wll
            else:
                A_w = 0.0
                A_f = 0.0
                gsp = 0.0
                lam = 0.0
            own._A_wll_conn_p[trgt] = A_w
            own._A_fld_conn_p[trgt] = A_f
            own._port_gsp[trgt] = gsp
            own._lam_wll_conn_p[trgt] = lam
            own._port_subs_gsp = own.grid_spacing + own._port_gsp
        if not own.solve_numeric:
            A_w = own._A_wll_conn_p.copy()
            A_f = own._A_fld_conn_p.copy()
            gsp = own._port_gsp.copy()
            lam = own._lam_wll_conn_p.copy()
            for port in own.port_names:
                trgt = self._get_arr_idx(part, port, target='port_specs',
                                         as_slice=False)
                mask = np.zeros(A_w.shape, dtype=np.bool)
                mask.flat[own._port_own_idx] = True
                mask[trgt] = False
                own._A_wll_own_p[trgt] = A_w[mask].mean()
                own._A_fld_own_p[trgt] = A_f[mask].mean()
                own.grid_spacing[trgt] = gsp[mask].mean()
                own._lam_wll[trgt] = lam[mask].mean()
'''


def connections(ctx):
    o = dict(opaque=['_get_arr_idx', '_get_conn_port'])
    R = ctx.run('simenv:SimEnv._get_port_connections', **o)
    S = ctx.spec(CONN, like=R, **o)
    ctx.same_state(R, S)


IDX = '''
def _get_arr_idx(self, part, port, target=None, as_slice=False,
                 flat_index=False, cls=None):
    assert target in ['temperature', 'massflow', 'port_specs']
    assert type(as_slice) == bool
    if self.__class__ != SimEnv:
        parts = self._models.parts
    else:
        parts = self.parts
    if part in parts:
        cls = parts[part]
    else:
        assert cls is not None
    assert type(part) == str and type(port) == str
    assert port in cls.port_names
    i = cls.port_names.index(port)
    # one-dimensional position or position along the second axis
    two, has = 0, False
    if target == 'massflow':
        if cls._T_port.ndim == 1:
            if cls.dm_invariant:
                if not cls.multiple_flows:
                    at = 0
                else:
                    for fc in cls._flow_channels:
                        if fc in port:
                            at = cls._flow_channels.index(fc)
            elif cls._dm_io.size == cls.port_num:
                assert not cls.multiple_flows
                at = i
            else:
                at = cls._port_own_idx[i]
        elif cls.multiple_flows:
            for fc in cls._flow_channels:
                if fc in port:
                    at = cls._flow_channels.index(fc)
        elif flat_index:
            at = cls._port_own_idx_2D[i]
        else:
            u = np.unravel_index(cls._port_own_idx_2D, cls._T_port.shape)
            two, has = u[0][i], True
            at = u[1][i]
    else:
        if target == 'temperature':
            flat = not cls._T_port.ndim > 1
        else:
            flat = cls._T_port.ndim == 1
        if flat:
            if target == 'port_specs' and cls._collapsed:
                at = i
            else:
                at = cls._port_own_idx[i]
        elif flat_index:
            at = cls._port_own_idx_2D[i]
        else:
            u = np.unravel_index(cls._port_own_idx_2D, cls._T_port.shape)
            two, has = u[0][i], True
            at = u[1][i]
    if as_slice:
        at = slice(at, at + 1)
    if not has:
        return at
    return (two, at)
'''
OTHER = '''
def _get_conn_port(self, own_port, as_id=False):
    if type(own_port) == int:
        own_part_id = self._port_map_arr[own_port][0]
        for part in self.parts:
            if own_part_id == self.parts[part].part_id:
                own_port = self.parts[part]._own_ports[np.where(
                    self.parts[part].port_ids == own_port)[0][0]]
                break
    conn_part, conn_port = self.port_links[own_port].split(';')
    if as_id:
        p = self.parts[conn_part]
        return (p.port_ids[p.port_names.index(conn_port)], p.part_id)
    return (conn_part, conn_port)
'''


def position(ctx):
    from sa.vg import leaf
    R = ctx.run('simenv:SimEnv._get_arr_idx')
    S = ctx.spec(IDX, like=R)
    ctx.raises_when(R, S)
    for t in ('temperature', 'massflow', 'port_specs'):
        for sl in (True, False):
            k = {'target': leaf('s', t), 'as_slice': leaf('b', sl)}
            R = ctx.run('simenv:SimEnv._get_arr_idx', args=k)
            S = ctx.spec(IDX, like=R, args=k)
            ctx.same(R, S, ['ret'], label='position of a port for {}{}'.format(
                t, ' (slice)' if sl else ''))
    R = ctx.run('simenv:SimEnv._get_conn_port')
    S = ctx.spec(OTHER, like=R)
    ctx.same(R, S, ['ret'])


PARTS = [('coefficients', ua), ('symmetric', symmetric),
         ('connections', connections), ('position', position)]
