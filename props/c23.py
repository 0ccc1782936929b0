"""C23 meters report what the simulation computed"""

LEVEL = 'other'
RULE = ('gated value-graph and call-trace equality of every meter with the '
        'quantity it stands for')
ASSUMPTIONS = ['pandas data frames keep columns and rows as assigned']
FLOOR = 40

INIT = '''
def __init__(self, simenv, start_time):
    self._simenv = simenv
    self.start_time = pd.to_datetime(start_time)
    if simenv._disk_store['resample']:
        self._resample = True
        self._resample_freq = simenv._disk_store['resample_freq']
    else:
        self._resample = False
        self._resample_freq = None
    self._time_index = pd.to_datetime(
        simenv.time_vec, origin=self.start_time, unit='s')
    if self._resample:
        self._meter_time_index = pd.Series(
            index=self._time_index, data=np.nan).resample(
                self._resample_freq).mean().interpolate().index
    else:
        self._meter_time_index = self._time_index
    self.meters = {'heat_meter': {}, 'temperature': {}, 'massflow': {},
                   'volumeflow': {}}
    mid = pd.MultiIndex(levels=[[]] * 3, codes=[[]] * 3,
                        names=['type', 'name', 'sensor'])
    self.__midx_names = ['type', 'name', 'sensor']
    self.meters_df = pd.DataFrame(columns=mid, index=self._meter_time_index)
    self._simenv.meters = self.meters
    self._simenv.meters_df = self.meters_df
    self._disk_saving = simenv._SimEnv__save_to_disk
    if self._disk_saving:
        self._dstore = simenv._disk_store['store']
'''

# every sensor: resampled, filed under its own type and name
FILE = '''
    df = self._resample_meter(df)
    cols = []
    for col in df.columns:
        cols.append(({0!r}, name, col))
    self.meters_df[pd.MultiIndex.from_tuples(
        tuples=cols, names=self.__midx_names)] = df
    self.meters[{0!r}][name] = df
    if self._disk_saving:
        self._save_to_disk(name, df)
'''

HEAT = '''
def heat_meter(self, *, name, warm_part, warm_cell, cold_part, cold_cell,
               massflow_from_hot_part=False, full_output=False,
               evenly_spaced=False, freq='1s', how='interpolate'):
    assert name not in self.meters['heat_meter']
    env = self._simenv
    env._check_isinrange(part=warm_part, index=warm_cell,
                         target_array='temperature')
    env._check_isinrange(part=cold_part, index=cold_cell,
                         target_array='temperature')
    if massflow_from_hot_part:
        i = env._massflow_idx_from_temp_idx(part=warm_part, index=warm_cell)
        dm = env.parts[warm_part].res_dm[:, i]
    else:
        i = env._massflow_idx_from_temp_idx(part=cold_part, index=cold_cell)
        dm = env.parts[cold_part].res_dm[:, i]
    dt = env.time_step_vec
    df = pd.DataFrame(index=self._time_index)
    df['T_ff'] = env.parts[warm_part].res[:, warm_cell]
    df['T_rf'] = env.parts[cold_part].res[:, cold_cell]
    df['T_diff'] = df['T_ff'] - df['T_rf']
    df['massflow_kgps'] = dm.copy()
    df['volume_flow_m3ps'] = df['massflow_kgps'] / RHO(df['T_rf'].values)
    df['flown_mass_kg'] = np.cumsum(dm * dt)
    df['flown_volume_m3'] = (df['volume_flow_m3ps'] * dt).cumsum()
    if full_output:
        pos = dm.copy()
        pos[pos < 0.0] = 0.0
        df['flown_mass_pos_kg'] = np.cumsum(pos * dt)
        df['flown_volume_pos_m3'] = np.cumsum(
            pos * dt / RHO(df['T_rf'].values))
    df['heatflow_kW'] = (
        (df['T_ff'] - df['T_rf']) * df['massflow_kgps'] / 1000.0
        * (CP(df['T_rf'].values) + CP(df['T_ff'].values)) / 2)
    df['flown_heat_MJ'] = np.cumsum(df['heatflow_kW'].copy() * dt) / 1000.0
    df['flown_heat_kWh'] = df['flown_heat_MJ'] / 3.6
    if full_output:
        hf = df['heatflow_kW'].copy()
        hf[hf < 0.0] = 0.0
        df['flown_heat_pos_MJ'] = np.cumsum(hf * dt) / 1000.0
        df['flown_heat_pos_kWh'] = df['flown_heat_pos_MJ'] / 3.6
    if evenly_spaced:
        raise DeprecationWarning('')
''' + FILE.format('heat_meter')

TEMP = '''
def temperature(self, *, name, part, cell):
    self._simenv._check_isinrange(part=part, index=cell,
                                  target_array='temperature')
    assert name not in self.meters['temperature']
    df = pd.DataFrame(index=self._time_index)
    res = self._simenv.parts[part].res
    if res.ndim == 2:
        df['T_' + name] = res[:, cell]
    elif res.ndim > 2:
        df['T_' + name] = res.reshape(-1, np.prod(res.shape[1:]))[:, cell]
''' + FILE.format('temperature')

FLOW = '''
def massflow(self, *, name, part, cell):
    self._simenv._check_isinrange(part=part, index=cell,
                                  target_array='temperature')
    i = self._simenv._massflow_idx_from_temp_idx(part=part, index=cell)
    assert name not in self.meters[{1!r}]
    df = pd.DataFrame(index=self._time_index)
    df[name] = {0}
'''
MASS = FLOW.format('self._simenv.parts[part].res_dm[:, i]', 'massflow') + \
    FILE.format('massflow')
VOL = FLOW.format(
    'self._simenv.parts[part].res_dm[:, i] / RHO('
    'self._simenv.parts[part].res[:, cell])', 'volumeflow') + FILE.format(
        'volumeflow')
RES = '''
def _resample_meter(self, df):
    if self._resample:
        return df.resample(self._resample_freq).mean().interpolate()
    return df
'''
RANGE = '''
def _check_isinrange(self, *, part, index, target_array=None):
    self._check_ispart(part=part)
    assert target_array in ['temperature', 'massflow', 'ports']
    assert isinstance(index, (int, np.integer))
    if target_array == 'temperature':
        assert index < self.parts[part].T.size
    elif target_array == 'massflow':
        assert index < self.parts[part]._dm_io.size
    elif target_array == 'ports':
        assert index < self.parts[part]._T_port.size
'''
IDX = '''
def _massflow_idx_from_temp_idx(self, part, index):
    self._check_isinrange(part=part, index=index, target_array='temperature')
    if self.parts[part].dm_invariant:
        return 0
    return index
'''
ISPART = '''
def _check_ispart(self, *, part):
    assert part in self.parts
'''
ISPORT = '''
def _check_isport(self, *, part, port):
    self._check_ispart(part=part)
    assert port in self.parts[part].port_names
'''
NOIN = ['_check_isinrange', '_massflow_idx_from_temp_idx', '_resample_meter',
        '_save_to_disk', '_check_ispart']


def meters(ctx):
    for m, rho, cp in (('_utility.meters', 'mp.rho_water', 'mp.cp_water'),
                       ('utility_functions', '_rho_water', '_cp_water')):
        R = ctx.run(m + ':Meters.__init__')
        S = ctx.spec(INIT, like=R)
        ctx.same_state(R, S)
        for name, text in (('heat_meter', HEAT), ('temperature', TEMP),
                           ('massflow', MASS), ('volumeflow', VOL),
                           ('_resample_meter', RES)):
            o = dict(no_inline=NOIN)
            R = ctx.run('{}:Meters.{}'.format(m, name), **o)
            S = ctx.spec(text.replace('RHO(', rho + '(').replace(
                'CP(', cp + '('), like=R, **o)
            if name == '_resample_meter':
                ctx.same(R, S, ['ret'])
                continue
            ctx.same_state(R, S)
            ctx.trace(R, S, ['_resample_meter', '_check_isinrange',
                             '_massflow_idx_from_temp_idx', '_save_to_disk'],
                      commute=[{'_check_isinrange',
                                '_massflow_idx_from_temp_idx'}])
            ctx.raises_when(R, S)


def ranges(ctx):
    for name, text in (('_check_isinrange', RANGE),
                       ('_massflow_idx_from_temp_idx', IDX),
                       ('_check_ispart', ISPART), ('_check_isport', ISPORT)):
        o = dict(no_inline=[x for x in NOIN if x != name])
        R = ctx.run('simenv:SimEnv.' + name, **o)
        S = ctx.spec(text, like=R, **o)
        ctx.same(R, S, ['ret'])
        ctx.raises_when(R, S)
        ctx.trace(R, S, ['_check_isinrange', '_check_ispart'])


PARTS = [('meters', meters), ('ranges', ranges)]
