"""C39 supervision by the predictive CHP controller"""
from sa import vg
from sa.vg import leaf

LEVEL = 'other'
RULE = ('gated value-graph equality of the state after each supervision method '
        'with the required state, effect traces of a control step, and a '
        'model of the long-term post processing')
ASSUMPTIONS = ['the optimizers of scipy are taken as given (N04)',
               'floats are reals: rounding is out of scope']
FLOOR = 100

CLS = 'parts.controllers:ModelPredCHP.'

EMPTY = '''
def f(self, x):
    made = np.cumsum(x * self._precalc_pth_oe_uf)
    return made - self._heat_dmd + self.tes_soc_min
'''
FULL = '''
def f(self, x):
    made = np.cumsum(x * self._precalc_pth_oe_uf)
    return self.tes_soc_max + self._heat_dmd - made
'''
HEAT = '''
def f(self):
    T = self._tes_temp
    cp = (_pf.cp_water(T) + _pf.cp_water(0.0)) / 2
    rho = (_pf.rho_water(T) + _pf.rho_water(0.0)) / 2
    return (self._unit_fac * self._tes_cell_vol * T * cp * rho).sum()
'''
ADAPT = '''
def _adapt_cap(self, lower, check=True):
    # only the first of consecutive emergency steps moves a bound
    if check and self._emerg_cnsctv:
        return
    now = self._tes_heat_content()
    t = self._models.time_sim
    i = 0 if lower else 1
    self._tes_caps_adpt[i] = now
    self._time_last_cap_adpt[i] = t
    if lower:
        self._tes_cap_adpt_lo = now
    else:
        self._tes_cap_adpt_hi = now
    self._tes_caps_res.append((t, -2 if lower else -1, *self._tes_caps_adpt))
    self._caps_adapted = True
'''
EMERG = '''
def f(self, hysteresis=True):
    self._hyst = self._hyst_val if hysteresis and self._emerg_cnsctv else 0.0
    hit = False
    on = self.on_sensor_val[0]
    if self._act_sgn == 'le':
        start = on < self._act_val + self._hyst
        full = on < self._act_val_full_power
    else:
        start = on > self._act_val - self._hyst
        full = on > self._act_val_full_power
    if start:
        hit = True
        self.cv = self._cv_sat_max
        self.opt_chp_now = 2 * self._cv_sat_max if full else self._cv_sat_max
        self._emerg_on = True
        self._adapt_cap(lower=self._act_sgn == 'le', check=True)
    # the limit which switches off has the last word
    if self._deact_sgn == 'ge':
        stop = self.pv[0] > self.sp[0]
    else:
        stop = self.pv[0] < self.sp[0]
    if stop:
        hit = True
        self.cv = self._off_state
        self.opt_chp_now = self._off_state
        self._emerg_on = False
        self._adapt_cap(lower=self._deact_sgn != 'ge', check=True)
    if not hit:
        self._emerg_cnsctv = False
    elif not self._emerg_cnsctv:
        self._emerg_cnsctv = True
    return hit, self._emerg_on if hit else True
'''
RESTORE = '''
def f(self):
    if not self._caps_adapted:
        return
    self._time_since_cap_adpt = (self._models.time_sim
                                 - self._time_last_cap_adpt)
    self._fctr_cap_rstr = self._time_since_cap_adpt / self._cap_restore_time
    done = np.all(self._fctr_cap_rstr >= 1.0)
    if done:
        self._caps_adapted = False
    w = self._fctr_cap_rstr
    w[w > 1.0] = 1.0
    self._tes_caps_adpt[0] = (self._tes_cap_adpt_lo
                              + (self._tes_caps[0] - self._tes_cap_adpt_lo)
                              * w[0])
    self._tes_caps_adpt[1] = (self._tes_cap_adpt_hi
                              + (self._tes_caps[1] - self._tes_cap_adpt_hi)
                              * w[1])
    self._tes_caps_res.append((self._models.time_sim, 1.0,
                               *self._tes_caps_adpt))
'''
CLIP = '''
def f(self, x, atol, copy=False):
    if copy:
        x = x.copy()
    x[x < self._mrc[0] - atol] = 0.0
    x[(x < self._mrc[0]) & (x != 0.0)] = 0.5
    x[x > 1.0] = 1.0
    if copy:
        return x
'''
CLIPC = '''
def f(self, atol=0.01):
    lo = self._mrc[0]
    x = self.opt_chp_now
    # switched on from half the lowest modulation, unless the plant is off
    # and its operation shall be continuous
    if self._inc_cont and self._lt_prev_opt < lo:
        least = lo - atol
    else:
        least = lo / 2
    if x > 1.0:
        self.opt_chp_now = 1.0
    elif x < lo:
        self.opt_chp_now = lo if x >= least else 0.0
'''
FINAL = '''
def f(self):
    self.num_opts += 1
    self._opt_steps.pop(-1)
    self._restore_adptd_caps()
    self._lt_prev_opt = self.opt_chp_now
'''
STEP = '''
def f(self, timestep):
    emerg, third = self._emergency_control(hysteresis=self._emerg_use_hyst)
    if self._models.time_sim >= self._opt_steps[-1]:
        if emerg:
            self._opt_status[self.num_opts] = 100 if self._emerg_on else -100
        else:
            self._longterm_opt_pred()
        self._longterm_finalize_step()
    if third and self.opt_chp_now > 0.0:
        self._shortterm_opt()
        if emerg:
            v = (self._res_opt_step3.x + self.opt_chp_now) / 2
        else:
            v = (self._res_opt_step3.x * 2 + self.opt_chp_now) / 3
        self._cv_prev_opt = v
        self.cv = v
    elif not emerg:
        self._cv_prev_opt = 0.0
        self.cv = 0.0
    self._clip_cv_to_saturation()
    self._cv_invert()
    self._subcontroller_check()
'''
KWKG = """
def f(pel_chp, as_sum=False, ersatz_alt=False, strompreis_negativ=False):
    if isinstance(pel_chp, (int, float)):
        pel_chp = np.array(pel_chp)
    assert isinstance(pel_chp, np.ndarray)
    p = np.atleast_1d(pel_chp)
    # share of the power in each range of the act
    share = np.zeros((p.shape[0], 5))
    share[:] = p[:, None] - np.array(
        [0.0, 50.0, 100.0, 250.0, 2000.0])[None, :]
    share = np.clip(np.where(share < 0, 0.0, share), 0.0,
                    np.diff(np.array([0.0, 50.0, 100.0, 250.0, 2000.0,
                                      np.inf])))
    esp = share * np.array([8.0, 6.0, 5.0, 4.4, 3.1])
    eig = share * np.array([4.0, 3.0, 2.0, 1.5, 1.0])
    if as_sum:
        return {'esp': esp.sum(axis=1), 'eig': eig.sum(axis=1)}
    return {'esp': esp, 'eig': eig}
"""
CARE = """
def f(pel_chp_max, verfahren='ASUE'):
    if verfahren == 'VDI2067':
        return 0.06 * 5.438 * pel_chp_max ** -0.351 * 1000 * pel_chp_max
    if isinstance(pel_chp_max, (int, float)):
        if not 1 <= pel_chp_max <= 100:
            raise ValueError
        if pel_chp_max >= 10:
            return 6.6626 * pel_chp_max ** -0.25
        return 3.2619 * pel_chp_max ** 0.1866
    assert np.all(pel_chp_max > 1) and np.all(pel_chp_max < 100)
    return np.where((10 <= pel_chp_max) & (pel_chp_max <= 100), 6.6626 * pel_chp_max ** -0.25,
                    3.2619 * pel_chp_max ** 0.1866)
"""
EEG = """
def f(pel_chp, jahr=2020, verbraucher='dritte'):
    assert verbraucher in ('dritte', 'eigen')
    full = {2020: 6.756, 2019: 6.405, 2018: 6.792, 2017: 6.88,
            2016: 6.354}[jahr]
    if isinstance(pel_chp, (int, float)):
        if verbraucher == 'dritte' or pel_chp >= 100:
            return full
        return 0.0 if pel_chp <= 10 else 0.4 * full
    if verbraucher == 'dritte':
        return np.full((len(pel_chp),), full)
    return np.where(pel_chp >= 100, full, np.where(pel_chp <= 10, 0.0, 0.4 * full))
"""
COST = """
def f(x, pel_baseload, pel_dmd_user_ms, pel_chp_max, eta_el,
      modrange_chp=(0.5, 1.0), freq_fac=0.25, flat_instandh=True,
      gaspreis=3.84, esteuerrueck_gas=0.55, netzneg=0.0, eex_baseload=3.745,
      strompreis_zukauf=25.0, aufschlag_verkauf=0.8, instandh_cost=69.0,
      penalty_wvk=0.0, penalty_pow_instandh=0.25, return_details=False):
    M = ModelPredCHP
    %s
    p = x * pel_chp_max
    gas = p / (eta_el * 1000.0)
    # the base load is served first
    own0 = np.where(p > pel_baseload, pel_baseload, p)
    buy0 = np.where(pel_baseload - p < 0.0, 0.0, pel_baseload - p)
    rest = p - own0
    left = pel_dmd_user_ms - rest
    # then the users, what remains is fed in
    own1 = np.where(rest > pel_dmd_user_ms, pel_dmd_user_ms, rest)
    buy1 = np.where(left < 0.0, 0.0, left)
    feed = np.where(left < 0.0, -left, 0.0)
    buy = buy0 + buy1
    own = own0 + own1
    own_kwkg = M._kwk_zuschlag(%s, ersatz_alt=False, as_sum=True)['eig']
    feed_kwkg = M._kwk_zuschlag(%s, ersatz_alt=False, as_sum=True)['esp']
    sell = strompreis_zukauf + 0.8
    e = {}
    e['gas'] = -gas * gaspreis * freq_fac
    e['esteuer_rueck'] = gas * esteuerrueck_gas * freq_fac
    e['vnetzentg'] = gas * netzneg * freq_fac
    if not flat_instandh:
        e['instandh'] = (-x ** penalty_pow_instandh * pel_chp_max / 1000.0
            * M._instandh_chp_nonflat(pel_chp_max / 1000.0, verfahren='ASUE')
            * freq_fac)
    else:
        e['instandh'] = np.where(x == 0, 0.0, -instandh_cost * freq_fac)
    e['eeg_umlage'] = freq_fac / 1000.0 * (
        -own0 * M._eeg_umlage(pel_chp_max, jahr=2020, verbraucher='eigen')
        - rest * M._eeg_umlage(pel_chp_max, jahr=2020, verbraucher='dritte'))
    e['zukauf_strom'] = -buy / 1000.0 * strompreis_zukauf * freq_fac
    e['weiterverk_strom'] = buy / 1000.0 * (sell - penalty_wvk) * freq_fac
    e['einspeis_kwkg'] = feed_kwkg * freq_fac
    e['einspeis_eex'] = feed / 1000.0 * eex_baseload * freq_fac
    e['eigennutz_kwkg'] = own_kwkg * freq_fac
    e['eigennutz_verk'] = own / 1000.0 * sell * freq_fac
    cost = -sum(e.values())
    if return_details:
        return e, cost
    return %s
"""
ONOFF = """x[x < modrange_chp[0] * 0.6] = 0
    x[x > modrange_chp[1]] = 1"""
ADJ = """
def f(self, x, atol=1e-2):
    n = x.size
    on = self._longterm_clip_array(x, atol, copy=True)
    if np.any(self.tes_cap_before_full(on)[:n] < 0.0):
        return x.copy()
    raw = x.copy()
    y = x.copy()
    i = 0
    while i < 5 and np.any(self.tes_cap_before_empty(y)[:n] < 0.0):
        raw /= raw.max() ** 0.5
        y = self._longterm_clip_array(raw, atol, copy=True)
        i += 1
    if np.any(self.tes_cap_before_empty(y)[:n] < 0.0):
        raw /= raw.max()
        y = self._longterm_clip_array(raw, atol, copy=True)
    if np.any(self.tes_cap_before_full(y)[:n] < 0.0):
        raw = x.copy()
    return np.clip(raw, 0, 1)
"""
PRED = """
def f(self):
    k = self.num_opts
    self._opt_steptime[k, :] = (k, self._models.time_sim)
    now = self._tes_heat_content()
    self._tes_soc_now = now
    self.tes_soc_min = now - self._tes_caps_adpt[0]
    self.tes_soc_max = self._tes_caps_adpt[1] - now
    self._tes_socs.append((self._models.time_sim, self._tes_soc_now,
                           self.tes_soc_min, self.tes_soc_max))
    base, user, heat = self._opt_profiles[k:k + self._optsize].loc[
        :, ['pel_baseload', 'pel_user', 'heat_dmd_kum']].T.values
    # heat demand from now on
    self._heat_dmd = heat - heat[0]
    a = (user + base) / self.pel_chp_max
    a[a > 1.0] = 1.0
    a[a < self._modrange_chp[0]] = 0.0
    self._res_optimizer = _sopt.minimize(
        ModelPredCHP._minimizer_input, x0=self._preopt_x0(a), method='SLSQP',
        args=(base, user, self.pel_chp_max, self.eta_el, self._mrc,
              self._freq_fac, self._flat_instandh, self._gaspreis,
              self._esr_gas, self._vnneg, self._eex, self._spz, self._awvk,
              self._instandh_cost, self._pwvk, self._ppic),
        bounds=self._opt_bounds[:base.size],
        constraints=self._opt_constraints,
        options={'maxiter': 200, 'ftol': 2e-3, 'disp': False})
    r = self._res_optimizer
    n = r.x.size
    self._opt_chp_mod_post[k, :n] = self._longterm_adj_by_soc(r.x)
    if r.status in (0, 3, 4, 8, 9):
        self._opt_chp_mod[k, :n] = r.x.copy()
        self._opt_status[k] = r.status
        self._opt_cost[k] = r.fun
        self.opt_chp_now = self._opt_chp_mod_post[k, 0]
        self._longterm_clip_w_cont()
    else:
        # no solution: follow the electricity demand
        self.opt_chp_now = self._longterm_adj_by_soc(
            (user[0:1] + base[0:1]) / self.pel_chp_max)[0]
        self._longterm_clip_w_cont()
        self._opt_chp_mod[k, :] = np.nan
        self._opt_chp_mod_post[k, 0] = self.opt_chp_now
        self._opt_status[k] = 99
        self._opt_cost[k] = ModelPredCHP._minimizer_input(
            np.array([self.opt_chp_now]), base[0:1], user[0:1],
            self.pel_chp_max, self.eta_el, self._mrc, self._freq_fac,
            self._flat_instandh, self._gaspreis, self._esr_gas, self._vnneg,
            self._eex, self._spz, self._awvk, self._instandh_cost,
            self._pwvk, self._ppic)
"""
SHORT = """
def f(self):
    base, user = self._ctrl_profiles.iloc[
        int(round(self._models.time_sim))].loc[
            ['pel_baseload', 'pel_user']].values
    self._res_opt_step3 = _sopt.minimize_scalar(
        ModelPredCHP._minimizer_input_scalar, method='bounded',
        args=(base, user, self.pel_chp_max, self.eta_el, self._mrc,
              self._freq_fac, self._flat_instandh, self._gaspreis,
              self._esr_gas, self._vnneg, self._eex, self._spz, self._awvk,
              self._instandh_cost, self._pwvk, self._ppic),
        bounds=self._mrc,
        options={'maxiter': 50, 'xatol': 2e-3, 'disp': False})
"""
PROF = """
def f(self, prfls, which, **kwds):
    assert which in ('opt', 'ctrl')
    assert isinstance(prfls, pd.DataFrame)
    assert isinstance(prfls.index, pd.DatetimeIndex)
    assert not prfls.isna().any().any()
    names = ['pel_baseload', 'pel_user', 'pel_user_noms']
    if which == 'opt':
        names = ['heat_dmd'] + names
    assert set(names) == set(prfls.columns)
    freq = getattr(prfls.index, 'freq', None)
    if freq is None:
        freq = getattr(prfls.index, 'inferred_freq', None)
    assert freq is not None
    try:
        prd = pd.to_timedelta(freq).total_seconds()
    except ValueError:
        prd = pd.to_timedelta('1{0}'.format(freq)).total_seconds()
    if which == 'opt':
        self._opt_prfl_input_prd = prd
        assert prd <= self._opt_every
    else:
        self._ctrl_prfl_input_prd = prd
        assert prd == 1.0
    # kilowatts given instead of watts
    if prfls['pel_user'].max() < 1000 and not kwds['silence_unit_warn']:
        raise ValueError
    if which == 'opt':
        prfls = prfls.resample(self._opt_every_td).mean().interpolate(
            method='time')
    # long enough for the simulation
    assert ((prfls.index[-1] - prfls.index[0]).total_seconds()
            >= self._models.timeframe)
    if which == 'opt':
        self._opt_profiles = prfls.copy()
        self._opt_profiles['heat_dmd_kum'] = self._opt_profiles[
            'heat_dmd'].cumsum() * self._opt_every / 3.6e6
        self._chp_on_heat = np.cumsum(np.full(
            self._optsize, self.pth_chp)) * self._opt_every / 3.6e6
    else:
        self._ctrl_profiles = prfls.copy()
"""
STEPS = ['_emergency_control', '_longterm_opt_pred', '_longterm_finalize_step',
         '_shortterm_opt', '_clip_cv_to_saturation', '_cv_invert',
         '_subcontroller_check']


def state(ctx, name, text, ret=True, what=None, **o):
    R = ctx.run(CLS + name, **o)
    S = ctx.spec(text, like=R, **o)
    if ret:
        ctx.same(R, S, what or ['ret'])
    ctx.same_state(R, S)
    ctx.raises_when(R, S)
    return R, S


def storage(ctx):
    """predicted heat content within the bounds"""
    state(ctx, 'tes_cap_before_empty', EMPTY)
    state(ctx, 'tes_cap_before_full', FULL)
    state(ctx, '_tes_heat_content', HEAT)
    o = dict(opaque=['_tes_heat_content'])
    state(ctx, '_adapt_cap', ADAPT, ret=False, **o)
    state(ctx, '_restore_adptd_caps', RESTORE, ret=False)


def emergency(ctx):
    R, S = state(ctx, '_emergency_control', EMERG, opaque=['_adapt_cap'])
    ctx.trace(R, S, ['_adapt_cap'])


def longterm(ctx):
    R = ctx.run(CLS + '_longterm_clip_array')
    S = ctx.spec(CLIP, like=R)
    ctx.same(R, S, ['ret', 'x[:]'])
    state(ctx, '_longterm_clip_w_cont', CLIPC, ret=False)
    state(ctx, '_longterm_finalize_step', FINAL, ret=False,
          opaque=['_restore_adptd_caps'])
    state(ctx, '_longterm_adj_by_soc', ADJ, opaque=['_longterm_clip_array'])
    o = dict(opaque=['_tes_heat_content', '_preopt_x0', '_minimizer_input',
                     '_longterm_adj_by_soc', '_longterm_clip_w_cont'])
    R, S = state(ctx, '_longterm_opt_pred', PRED, ret=False, **o)
    ctx.trace(R, S, ['_longterm_clip_w_cont'])
    state(ctx, '_shortterm_opt', SHORT, ret=False,
          opaque=['_minimizer_input_scalar'])


def profiles(ctx):
    for which in ('opt', 'ctrl', 'other'):
        given = {'which': leaf('s', which)}
        R = ctx.run(CLS + '_process_profiles', args=given)
        S = ctx.spec(PROF, like=R, args=given)
        ctx.raises_when(R, S)
        if which != 'other':
            ctx.same_state(R, S)


def step(ctx):
    o = dict(opaque=STEPS)
    R, S = state(ctx, 'run_controller', STEP, ret=False, **o)
    ctx.trace(R, S, STEPS)


def tariffs(ctx):
    """statutory surcharges, levies and maintenance cost"""
    for name, text in (('_kwk_zuschlag', KWKG), ('_eeg_umlage', EEG)):
        R = ctx.run(CLS + name)
        S = ctx.spec(text, like=R)
        ctx.same(R, S, ['ret'])
        ctx.raises_when(R, S)
    for how in ('ASUE', 'VDI2067'):
        given = {'verfahren': leaf('s', how)}
        R = ctx.run(CLS + '_instandh_chp_nonflat', args=given)
        S = ctx.spec(CARE, like=R, args=given)
        ctx.same(R, S, ['ret'])
        ctx.raises_when(R, S)


def cost(ctx):
    """electricity balance and its cost"""
    o = dict(opaque=['_kwk_zuschlag', '_instandh_chp_nonflat', '_eeg_umlage'])
    for name, text in (
            ('_minimizer_input', COST % (
                ONOFF, 'own / 1000.0', 'feed / 1000.0', 'np.sum(cost)')),
            ('_minimizer_input_scalar', COST % (
                '', 'np.array([own / 1000.0])', 'np.array([feed / 1000.0])',
                'sum(cost)'))):
        for flat in (vg.TRUE, vg.FALSE):
            for det in (vg.TRUE, vg.FALSE):
                given = {'flat_instandh': flat, 'return_details': det}
                R = ctx.run(CLS + name, args=given, **o)
                S = ctx.spec(text, like=R, args=given, **o)
                ctx.same(R, S, ['ret[0][%r]' % k for k in KEYS] + ['ret[1]']
                         if det is vg.TRUE else ['ret'])


KEYS = ['gas', 'esteuer_rueck', 'vnetzentg', 'instandh', 'eeg_umlage',
        'zukauf_strom', 'weiterverk_strom', 'einspeis_kwkg', 'einspeis_eex',
        'eigennutz_kwkg', 'eigennutz_verk']

PARTS = [('profiles', profiles), ('tariffs', tariffs), ('cost', cost), ('storage', storage), ('emergency', emergency),
         ('longterm', longterm), ('step', step)]
