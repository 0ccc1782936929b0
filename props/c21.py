"""C21 parts, ports and connections"""
from sa import vg

LEVEL = 'other'
RULE = ('gated value-graph and call-trace equality of part registration, port '
        'numbering, connecting, port insertion and control registration')
ASSUMPTIONS = ['the constructors of parts and controllers are abstract']
FLOOR = 40

CONNECT = '''
def port_id(self, part, port):
    if part == 'BoundaryCondition':
        assert port in self.boundary_conditions
        return self.boundary_conditions[port]['port_id']
    p = self.parts[part]
    try:
        return p.port_ids[p.port_names.index(port)]
    except ValueError:
        raise ValueError()
    except KeyError:
        raise ValueError()

def free(self, part, port):
    if part != 'BoundaryCondition':
        if hasattr(self.parts[part], '_ports_connected'):
            assert port not in self.parts[part]._ports_connected
        else:
            self.parts[part]._ports_connected = []
            self.parts[part]._ports_unconnected = self.parts[part].port_names

def taken(self, part, port):
    if part != 'BoundaryCondition':
        p = self.parts[part]
        if hasattr(p, '_ports_connected'):
            p._ports_connected.append(port)
            p._ports_unconnected = tuple(
                set(p.port_names) - set(p._ports_connected))
        else:
            p._ports_connected = [port]
            p._ports_unconnected = tuple(
                set(p.port_names) - set(p._ports_connected))

def _connect_ports(self, *, first_part, first_port, scnd_part, scnd_port):
    try:
        if first_part != 'BoundaryCondition':
            self._check_ispart(part=first_part)
        if scnd_part != 'BoundaryCondition':
            self._check_ispart(part=scnd_part)
    except AssertionError:
        raise AssertionError()
    free(self, first_part, first_port)
    free(self, scnd_part, scnd_port)
    a = port_id(self, first_part, first_port)
    b = port_id(self, scnd_part, scnd_port)
    self.plinks_arr[a] = b
    self.plinks_arr[b] = a
    self.port_links[first_part + ';' + first_port] = \\
        scnd_part + ';' + scnd_port
    self.port_links[scnd_part + ';' + scnd_port] = \\
        first_part + ';' + first_port
    self._num_conn_ports += 2
    taken(self, first_part, first_port)
    taken(self, scnd_part, scnd_port)
'''

POSTPONE = '''
def connect_ports(self, first_part, first_port, scnd_part, scnd_port):
    post = self.__postpone
    key = first_part + ';' + first_port
    if 'connect_ports' not in post:
        post['connect_ports'] = {}
    assert key not in post['connect_ports']
    post['connect_ports'][key] = _partial(
        self._connect_ports, first_part=first_part, first_port=first_port,
        scnd_part=scnd_part, scnd_port=scnd_port)
'''

MISSING = '''
def _check_unconnected_ports(self):
    missing = False
    for p in self.ports:
        if p not in self.port_links:
            missing = True
    if missing:
        raise AssertionError()
'''

CONTROL = '''
def add_control(self, Controls_module, name, **kwargs):
    post = self.__postpone
    if 'add_ctrl' not in post:
        post['add_ctrl'] = {}
        post['init_ctrl'] = {}
    self._check_isadded(part=name, kind='control')
    post['add_ctrl'][name] = _partial(
        self._add_control, Controls_module, name, **kwargs)
    post['init_ctrl'][name] = kwargs
'''

CONTROL2 = '''
def _add_control(self, Controls_module, name, **kwargs):
    assert self.num_ports == self._num_conn_ports
    assert name not in self.ctrls
    self.ctrl_l.append(Controls_module(name, self, **kwargs))
    self.ctrls[name] = self.ctrl_l[self.num_ctrls]
    self.num_ctrls += 1
'''

ADD = '''
def _add_part(self, part, name, **kwargs):
    assert self._solver_set and self._timeframe_set
    assert name != 'BC'
    assert '/' not in name
    self.num_parts += 1
    self.parts[name] = part(name, self, **kwargs)
    p = self.parts[name]
    cells = p._port_own_idx
    if p._port_own_idx.ndim >= 2:
        cells = p._port_own_idx[:, -1]
    for i in range(len(p.port_names)):
        key = name + ';' + p.port_names[i]
        self.ports[key] = 0
        self._port_mapping[key] = (name, p.port_names[i], cells[i])
        p.port_ids = np.append(p.port_ids, self.num_ports)
        self.ports_all = np.append(self.ports_all, 0.)
        self.num_ports += 1
        self._port_map_arr = np.vstack([self._port_map_arr, [
            p.part_id, p.port_ids[i], cells[i],
            np.zeros(1, dtype=np.int32)]])
        self.plinks_arr = np.append(self.plinks_arr, 0)
    if self.num_parts == 1:
        self._port_map_arr = self._port_map_arr[1:, :]
        self.plinks_arr = self.plinks_arr[1:]
    if p.solve_numeric:
        if p.solve_explicitly:
            self.solve_num_expl[name] = p.get_diff
            self._num_cells_tot_nmrc_expl += p.num_gp
        else:
            self.solve_num_impl[name] = p.diff_impl
            self._num_cells_tot_nmrc_impl += p.num_gp
        self._num_cells_tot_nmrc += p.num_gp
    else:
        self.solve_nonnum[name] = p.solve
        self._num_cells_tot_nnmrc += p.num_gp
    if p.is_actuator:
        self._actuators.append(name)
'''

POST = '''
def _call_postponed(self):
    post = self.__postpone
    try:
        for f in post['add_part'].values():
            f()
        for name, kw in post['init_part'].items():
            try:
                self.parts[name].init_part(**kw)
            except TypeError:
                raise TypeError()
    except KeyError as ke:
        if str(ke) == 'add_part':
            raise AssertionError()
        else:
            raise
    if 'add_open_port' in post:
        for f in post['add_open_port'].values():
            f()
    if 'dyn_BC' in post:
        for f in post['dyn_BC'].values():
            f()
        self._initialize_dynamic_BC()
    if 'connect_ports' in post:
        for f in post['connect_ports'].values():
            f()
    self._check_unconnected_ports()
    if 'add_ctrl' in post:
        for f in post['add_ctrl'].values():
            f()
        for name, kw in post['init_ctrl'].items():
            self.ctrls[name].init_controller(**kw)
'''

PORTS = '''
def insert(self, name, pos, cell):
    cell = self.num_gp - 1 if cell >= self.num_gp else \\
        0 if cell < 0 else cell
    pos[0] = cell
    GROW
    at = self._port_own_idx.searchsorted(cell)
    self._port_own_idx = np.insert(self._port_own_idx, at, cell)
    self.dm_char += ('in',)
    self.port_names = self.port_names[:at] + (name,) + self.port_names[at:]
    self.port_num += 1

def by_volume(pos, total, cell):
    assert isinstance(pos, (int, float))
    assert 0 <= pos <= total
    return round((pos - (cell / 2 - 1e-9)) / cell)

def by_distance(pos, length, n):
    assert isinstance(pos, (int, float))
    assert 0 <= pos <= length
    c = round(np.floor(pos / length * n - 1e-9))
    return c if c >= 0 else 0

def by_index(pos, n):
    assert isinstance(pos, int)
    assert -1 <= pos <= n - 1
    return n - 1 if pos == -1 else pos

'''

SIM_PORTS = PORTS.replace('GROW', '''self._T_port = np.append(self._T_port, 0.)
    self._dm_port = np.append(self._dm_port, 0.)
    self._cp_port = np.append(self._cp_port, 0.)
    self._UA_port = np.append(self._UA_port, 0.)
    self._dm_io = np.zeros_like(self._T_port)''') + '''
def _add_ports(self, **kwargs):
    assert self.can_add_ports
    assert 'new_ports' in kwargs
    if kwargs['new_ports'] is not None:
        assert isinstance(kwargs['new_ports'], dict)
        for v in kwargs['new_ports'].values():
            assert isinstance(v, list)
        mine = {k: v[:] for k, v in kwargs['new_ports'].items()}
        for k, v in mine.items():
            assert v[1] in ('index', 'volume', 'distance')
            if v[1] == 'index':
                insert(self, k, v, by_index(v[0], self.num_gp))
            elif v[1] == 'volume':
                insert(self, k, v,
                       by_volume(v[0], self._V_total, self.V_cell))
            else:
                insert(self, k, v,
                       by_distance(v[0], self.length, self.num_gp))
    self._port_own_idx_2D = self._port_own_idx[:]
'''

TES_PORTS = PORTS.replace('GROW', '''self._T_port = np.append(self._T_port, 0.)
    self._dm_port = np.append(self._dm_port, 0.)
    self._dm_io = np.append(self._dm_io, 0.)
    self._cp_port = np.append(self._cp_port, 0.)
    self._UA_port = np.append(self._UA_port, 0.)''') + '''
def __add_ports(self, **kwargs):
    assert 'new_ports' in kwargs
    if kwargs['new_ports'] is None:
        kwargs['new_ports'] = 'none'
    if kwargs['new_ports'] != 'none':
        assert isinstance(kwargs['new_ports'], dict)
        for v in kwargs['new_ports'].values():
            assert isinstance(v, list)
        mine = {k: v[:] for k, v in kwargs['new_ports'].items()}
        for k, v in mine.items():
            assert v[1] == 'index' or v[1] == 'volume'
            if v[1] == 'index':
                insert(self, k, v, by_index(v[0], self.num_gp))
            else:
                insert(self, k, v, by_volume(v[0], self.V_tes, self.V_cell))
    self._port_own_idx_2D = self._port_own_idx[:]
'''


def both(ctx, name, text, names=(), **o):
    R = ctx.run('simenv:SimEnv.' + name, **o)
    S = ctx.spec(text, like=R, **o)
    ctx.same(R, S, ['exc'])
    ctx.same_state(R, S, assume=vg.not_(R.st.exc))
    if names:
        ctx.trace(R, S, list(names), assume=vg.not_(R.st.exc))


def connect(ctx):
    both(ctx, 'connect_ports', POSTPONE)
    o = dict(no_inline=['_check_ispart'])
    both(ctx, '_connect_ports', CONNECT, ['_check_ispart'], **o)
    both(ctx, '_check_unconnected_ports', MISSING)


PORTSET = '''
def f(self):
    self.ports = {'a;in': 1., 'a;out': 2., 'b;in': 3.,
                  'BoundaryCondition;x': 4.}
    self.port_links = {}
    for p in LINKED:
        self.port_links[p] = 'other;port'
    self._check_unconnected_ports()
'''


def unconnected(ctx):
    # one port left out at each position
    full = ['a;in', 'a;out', 'b;in', 'BoundaryCondition;x']
    for i in range(4):
        R = ctx.drive('simenv:SimEnv', PORTSET.replace(
            'LINKED', repr(full[:i] + full[i + 1:])))
        ctx.rejects(R, 'unconnected port ' + full[i])
    R = ctx.drive('simenv:SimEnv', PORTSET.replace('LINKED', repr(full)))
    ctx.accepts(R, 'all ports connected')


def control(ctx):
    both(ctx, 'add_control', CONTROL, ['_check_isadded'],
         no_inline=['_check_isadded'])
    both(ctx, '_add_control', CONTROL2, ['call:', 'append'])


def add(ctx):
    both(ctx, '_add_part', ADD, ['call:'])


def order(ctx):
    q = ['_initialize_dynamic_BC', '_check_unconnected_ports']
    both(ctx, '_call_postponed', POST,
         q + ['call:', 'init_part', 'init_controller'], no_inline=q)


def ports(ctx):
    both(ctx, '_add_ports', SIM_PORTS)
    R = ctx.run('parts.tes:Tes.__add_ports')
    S = ctx.spec(TES_PORTS, like=R)
    ctx.same(R, S, ['exc'])
    ctx.same_state(R, S, assume=vg.not_(R.st.exc))


PARTS = [('unconnected ports', unconnected), ('order', order), ('ports', ports), ('connect', connect), ('control', control), ('add', add)]
