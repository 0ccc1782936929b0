"""C11 the flow network conserves mass"""
from sa import vg

LEVEL = 'other'
RULE = ('gated value-graph equality of the flow operations, of the operation '
        'each part registers for a port and of the state of the network '
        'search')
ASSUMPTIONS = []
FLOOR = 60

UPD = '''
def _update_FlowNet(self):
    for port in self.flow_net:
        if port[1] == 0:
            port[0][0] = port[2]
        elif port[1] == -1:
            port[0][0] = -port[2][0]
            for i, dm_view in enumerate(port[2:]):
                if i != 0:
                    port[0][0] -= dm_view[0]
        elif port[1] == 1:
            port[0][0] = np.sum(port[2:])
        elif port[1] == -3:
            port[0][0] = -(port[2][0] * port[3][0])
        elif port[1] == -4:
            port[0][0] = -(port[2][0] / port[3][0])
        elif port[1] == 3:
            port[0][0] = port[2][0] * port[3][0]
        elif port[1] == 4:
            port[0][0] = port[2][0] / port[3][0]
        elif port[1] == 2:
            port[0][0] = port[2][0] - port[3][0]
        elif port[1] == 5:
            port[0][0] = port[2][0] * port[3][0] / port[4][0]
    for part in self.parts.values():
        part._process_flows[0] = True
'''

TOPO = '''
def _get_topo_cond(self, port, parent_port=None):
    if self._T_port.ndim == 1:
        trgt = self._get_arr_idx(self.name, port, 'massflow', as_slice=True)
    elif self._T_port.ndim == 2:
        trgt = self._get_arr_idx(self.name, port, 'massflow', as_slice=True,
                                 flat_index=True)
    if parent_port is None:
        return trgt
    src_part, src_port = parent_port.split(';')
    src = self._models.parts[src_part]
    if src._T_port.ndim == 1:
        src_idx = self._get_arr_idx(src_part, src_port, 'massflow',
                                    as_slice=True, flat_index=True)
    elif src._T_port.ndim == 2:
        src_idx = self._get_arr_idx(src_part, src_port, 'massflow',
                                    as_slice=True, flat_index=True)
    own = self.dm_char[self.port_names.index(port)]
    other = src.dm_char[src.port_names.index(src_port)]
    if own == other:
        sign = 'negative'
    else:
        sign = 'positive'
    return (trgt, src_part, src_port, src_idx, sign)
'''

HEAD = '''
def _get_flow_routine(self, port, parent_port=None, subnet=False, **kwargs):
'''
# the flow of the connected port: same value if one port counts outwards and
# the other inwards, the negative if both count alike
TAKE = '''
{0}trgt, src_part, src_port, src_idx, sign = self._get_topo_cond(
{0}    port, parent_port)
{0}op = 0 if sign == 'positive' else -1
{0}res = (self._dm_io.reshape(-1)[trgt], op,
{0}       self._models.parts[src_part]._dm_io.reshape(-1)[src_idx])
'''
TAIL = '''
    self._solved_ports.append(port)
    self._cnt_open_prts = self.port_num - len(self._solved_ports)
    self.break_topology = {0}
    if self._cnt_open_prts == 0:
        self._models._hydr_comps.remove(self.name)
    return res
'''
ROUT = {
    'pipe:Pipe': '''
    trgt, src_part, src_port, src_idx, sign = self._get_topo_cond(
        port, parent_port)
    if self._cnt_open_prts == 2:
        src = self._models.parts[src_part]._dm_io.reshape(-1)[src_idx]
        if sign == 'positive':
            self.dm = src
            self._dm_io = self.dm[:]
            res = (self._dm_io.reshape(-1)[trgt], -99, src)
        else:
            self.dm = self._dm_io.reshape(-1)[:]
            res = (self._dm_io.reshape(-1)[trgt], -1, src)
    else:
        res = ()
''' + TAIL.format('False'),
    'pipe_branched:PipeBranched': '''
    if self._cnt_open_prts == 1 and parent_port is None:
        res = (self._dm_io.reshape(-1)[self._get_topo_cond(port)], -1)
        for p in self._solved_ports:
            res += (self._dm_io.reshape(-1)[self._get_topo_cond(p)],)
    else:
''' + TAKE.format('        ') + TAIL.format('self._cnt_open_prts > 0'),
    'connector_3w:Connector3w': '''
    if self._cnt_open_prts == 1:
        trgt = self._get_topo_cond(port)
        a, b = self._port_own_idx[[
            i for i, n in enumerate(self.port_names) if port != self.port_names[i]]]
        res = (self._dm_io.reshape(-1)[trgt], -1,
               self._dm_io.reshape(-1)[slice(a, a + 1)],
               self._dm_io.reshape(-1)[slice(b, b + 1)])
    else:
''' + TAKE.format('        ') + TAIL.format('self._cnt_open_prts > 1'),
    'pipe_with_valve:PipeWith3wValve': '''
    if self._cnt_open_prts == 3:
''' + TAKE.format('        ') + '''
    else:
        trgt = self._get_topo_cond(port, parent_port)[0]
        if port in ('A', 'B') and 'AB' in self._solved_ports:
            res = (self._dm_io.reshape(-1)[trgt], -3,
                   self._dm_io.reshape(-1)[slice(2, 3)], self.pf_arr[trgt])
        elif port == 'AB' and ('A' in self._solved_ports or
                               'B' in self._solved_ports):
            k = slice(0, 1) if 'A' in self._solved_ports else slice(1, 2)
            res = (self._dm_io.reshape(-1)[trgt], -4,
                   self._dm_io.reshape(-1)[k], self.pf_arr[k])
        elif port in ('A', 'B') and 'AB' not in self._solved_ports:
            k = slice(0, 1) if 'A' in self._solved_ports else slice(1, 2)
            res = (self._dm_io.reshape(-1)[trgt], 5,
                   self._dm_io.reshape(-1)[k], self.pf_arr[trgt],
                   self.pf_arr[k])
''' + TAIL.format('False'),
    'mixingvalve:MixingValve': '''
    if self._cnt_open_prts == 3:
        if self.kind == 'mix':
            assert kwargs['pump_side'] != 'pressure'
        else:
            assert kwargs['pump_side'] != 'suction'
        assert port == 'AB'
''' + TAKE.format('        ') + '''
        assert self._models.parts[src_part].solve_numeric
    else:
        trgt = self._get_topo_cond(port, parent_port)[0]
        ab = self._port_own_idx[self.port_names.index('AB')]
        k = self.port_names.index(port)
        res = (self._dm_io.reshape(-1)[trgt], 3,
               self._dm_io.reshape(-1)[slice(ab, ab + 1)],
               self.pf_arr[slice(k, k + 1)])
''' + TAIL.format('False'),
    'tes:Tes': '''
    if self._cnt_open_prts == 1 and parent_port is None:
        res = (self._dm_io.reshape(-1)[self._get_topo_cond(port)], -1)
        for p in self._solved_ports:
            res += (self._dm_io.reshape(-1)[self._get_topo_cond(p)],)
    else:
''' + TAKE.format('        ') + TAIL.format(
        'self._cnt_open_prts > 0').replace('''    if self._cnt_open_prts == 0:
        self._models._hydr_comps.remove(self.name)
''', ''),
    'hex_num:HexNum': '''
    solved = False
    for p in self._solved_ports:
        if kwargs['flow_channel'] in p:
            solved = True
    if solved:
        res = ()
    else:
''' + TAKE.format('        ') + TAIL.format('False'),
    'hex_condensing_polynome:HEXCondPoly': '''
    trgt, src_part, src_port, src_idx, sign = self._get_topo_cond(
        port, parent_port)
    for p in self._solved_ports:
        if kwargs['flow_channel'] in p:
            src_part = self.name
            src_idx = self._get_arr_idx(
                self.name, p, target='massflow', as_slice=True,
                flat_index=True)
            sign = 'positive'
    res = (self._dm_io.reshape(-1)[trgt], 0 if sign == 'positive' else -1,
           self._models.parts[src_part]._dm_io.reshape(-1)[src_idx])
''' + TAIL.format('False'),
}
ROUT['heatexchanger:HeatExchanger'] = ROUT[
    'hex_condensing_polynome:HEXCondPoly']
PUMP = '''
    if parent_port is not None:
        if self.name == kwargs['parent_pump']:
            return ()
        raise TypeError('')
    self._solved_ports.append(port)
    self._cnt_open_prts = self.port_num - len(self._solved_ports)
    self.break_topology = False
    if self._cnt_open_prts == 0:
        self._models._hydr_comps.remove(self.name)
'''
ROUT['pump:Pump'] = ROUT['pipe_with_pump:PipeWithPump'] = PUMP
NOIN = ['_get_topo_cond', '_get_arr_idx']


SEARCH = '''
def _get_topology(self):
    # nets of the pumps first
    for p in self.parts:
        if self.parts[p]._flow_net_parent:
            self.sup_net[p] = _FlowNet(self, p, sub_net=False)
            self.parts[p]._recursive_topology(p)
    for k, n in self.sup_net.items():
        self.flow_net += tuple(n.dm_topo.values())
    # then parts with one port left, compensators last, until none is left
    self._hydr_comps = list(self._hydr_comps)
    again = 1
    while again >= 1:
        for p in self._hydr_comps:
            if (self.parts[p].break_topology
                    and not self.parts[p].hydr_comp
                    and self.parts[p]._cnt_open_prts == 1):
                self.sub_net[p] = _FlowNet(self, p, sub_net=True)
                self.parts[p]._recursive_topology(
                    p, sub_net=True, pump_side='sub net - undefined')
                again = 2
        if again == 2:
            again = 1
        else:
            again = 0
    self._hydr_comps = set(self._hydr_comps)
    self._hydr_comps = list(self._hydr_comps)
    again = 1
    while again >= 1:
        for p in self._hydr_comps:
            if (self.parts[p].break_topology
                    and self.parts[p]._cnt_open_prts == 1):
                self.sub_net[p] = _FlowNet(self, p, sub_net=True)
                self.parts[p]._recursive_topology(
                    p, sub_net=True, pump_side='sub net - undefined')
                again = 2
        if again == 2:
            again = 1
        else:
            again = 0
    self._hydr_comps = set(self._hydr_comps)
    for k, n in self.sub_net.items():
        self.flow_net += tuple(n.dm_topo.values())
    found = self.flow_net
    self.flow_net = tuple()
    for e in found:
        if e != () and e[1] != -99:
            self.flow_net += (e,)
    for p in self._hydr_comps:
        if not self.parts[p].hydr_comp:
            raise TypeError
'''

RECURSE = '''
def _recursive_topology(self, parent_pump, sub_net=False, **K):
    K['parent_pump'] = parent_pump
    if self.name not in self._models._hydr_comps:
        return
    if not self.solve_numeric:
        self._models.solve_nonnum.move_to_end(self.name, last=True)
    ports = list(self.port_names)
    if 'next_port' in K:
        first = K['next_port'].split(';')[1]
        ports.remove(first)
        ports.insert(0, first)
    for port in ports:
        if port in self._solved_ports:
            continue
        here = self.name + ';' + port
        if self.multiple_flows:
            if K['flow_channel'] not in port:
                continue
        op = None
        if 'parent_port' not in K and not sub_net:
            # the pump itself: its flow is given
            self._models.sup_net[parent_pump].dm_topo[here] = tuple()
            K['pump_side'] = 'pressure' if port == 'out' else 'suction'
            self._get_flow_routine(port, subnet=False, **K)
        elif 'parent_port' not in K:
            self._models.sub_net[parent_pump].dm_topo[here] = tuple()
            op = self._get_flow_routine(port, subnet=True, **K)
            self._models.sub_net[parent_pump].dm_topo[here] += op
            K['pump_side'] = self.info_topology[port]['Pump side']
        elif not sub_net:
            self._models.sup_net[parent_pump].dm_topo[here] = tuple()
            op = self._get_flow_routine(port, subnet=sub_net, **K)
            self._models.sup_net[parent_pump].dm_topo[here] += op
            if self.break_topology:
                return
        else:
            self._models.sub_net[parent_pump].dm_topo[here] = tuple()
            op = self._get_flow_routine(port, subnet=sub_net, **K)
            self._models.sub_net[parent_pump].dm_topo[here] += op
            if self.break_topology:
                return
        # operations that divide by a valve factor need it bounded from zero
        if op is not None and len(op) > 1 and op[1] in (-4, 4, 5):
            lo = getattr(self, '_llim', None)
            hi = getattr(self, '_ulim', None)
            if lo is not None and lo == 0:
                raise ValueError
            if hi is not None and hi == 0:
                raise ValueError
        there = self._models.port_links[here]
        part = there.split(';')[0]
        if part == 'BoundaryCondition':
            continue
        other = self._models.parts[part]
        if there.split(';')[1] in other._solved_ports:
            continue
        if other._flow_net_parent and other.name != parent_pump:
            raise TypeError
        if part in self._models._hydr_comps:
            if not other.multiple_flows:
                other._recursive_topology(
                    parent_pump, sub_net, pump_side=K['pump_side'],
                    parent_port=here, next_port=there)
            else:
                for c in other._flow_channels:
                    if c in there:
                        channel = c
                other._recursive_topology(
                    parent_pump, sub_net, pump_side=K['pump_side'],
                    parent_port=here, next_port=there, flow_channel=channel)
'''


def update(ctx):
    R = ctx.run('simenv:SimEnv._update_FlowNet')
    S = ctx.spec(UPD, like=R)
    ctx.same_state(R, S)


def topo(ctx):
    R = ctx.run('simenv:SimEnv._get_topo_cond', no_inline=['_get_arr_idx'])
    S = ctx.spec(TOPO, like=R, no_inline=['_get_arr_idx'])
    ctx.same(R, S, ['ret'])


def routines(ctx):
    for cls, text in ROUT.items():
        R = ctx.run('parts.' + cls + '._get_flow_routine', no_inline=NOIN)
        S = ctx.spec(HEAD + text, like=R, no_inline=NOIN)
        ctx.same(R, S, ['ret'])
        ctx.same_state(R, S)
        ctx.raises_when(R, S)


def search(ctx):
    o = dict(opaque=['_recursive_topology'])
    R = ctx.run('simenv:SimEnv._get_topology', **o)
    S = ctx.spec(SEARCH, like=R, **o)
    ctx.trace(R, S, ['_recursive_topology', '_FlowNet'], 
              with_recv=['_recursive_topology'])
    ctx.same(R, S, ['self.sup_net', 'self.sub_net', 'self.flow_net',
                    'self._hydr_comps'])
    ctx.same(R, S, ['exc'])


def recurse(ctx):
    o = dict(opaque=['_recursive_topology', '_get_flow_routine'])
    R = ctx.run('simenv:SimEnv._recursive_topology', **o)
    S = ctx.spec(RECURSE, like=R, **o)
    ctx.trace(R, S, ['_recursive_topology', '_get_flow_routine',
                     'move_to_end'])
    ctx.same_state(R, S)
    ctx.same(R, S, ['exc'])


PARTS = [('update', update), ('topo', topo), ('routines', routines),
         ('search', search), ('recursion', recurse)]
