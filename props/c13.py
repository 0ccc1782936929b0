"""C13 control pipeline"""
from sa import vg
from sa.spec import KW
from sa.vg import cnum

LEVEL = 'other'
RULE = ('gated value-graph and call-trace equality: in every control step the '
        'previous error, set point, control error, controller law, slope limit '
        'and hand-over to the actuator happen in this order and with these '
        'values')
ASSUMPTIONS = ['slope limits have negative < 0 < positive (enforced by the '
               'constructor)']
FLOOR = 20

CTRL = '''
def ctrl(self, timestep):
    if self._process_cv_mode == 'linked':
        return
    self._prev_cv = self.cv
    if not self._steady_state:
        if self.discrete_time:
            self.prev2_error = self.prev_error
        else:
            self.prev_i_term = self.i_term
        self.prev_error = self.error
    if self.use_ref:
        self.sp = self._ref + self._ref_diff
    {err}
    self.run_controller(timestep)
    if self._slope:
        d = (self.cv - self._prev_cv) / timestep
        if d > self._slope_p:
            self.cv = self._prev_cv + self._slope_p * timestep
        elif d < self._slope_n:
            self.cv = self._prev_cv + self._slope_n * timestep
    self._process_cv_fun(self)
'''
ERR = 'self.error = self.sp[0] - self.pv[0]'
DEAD = '''(self.error, self.delayed_pv, self.dt_idx,
     self.last_dt_idx) = ctrl_deadtime(
        self.deadtime, timestep, self.dt_arr, self.pv_arr, self.len_dt_arr,
        self.dt_idx, self.last_dt_idx, self.delayed_pv, self.sp, self.pv)'''
OUT = ['self.cv', 'self.error', 'self.prev_error', 'self.prev2_error',
       'self.prev_i_term', 'self._prev_cv', 'self.sp']


KINDS = ['PID', 'BangBang', 'TwoSensors', 'ModelPredCHP']


def pipeline(ctx):
    for cls in KINDS:
        for dead in (False, True):
            pr = {} if dead else {'deadtime': cnum(0)}
            opts = dict(no_inline=['ctrl_deadtime'], preset=pr,
                        havoc={'run_controller': ['cv', 'i_term']},
                        watch=['cv', 'error', 'prev_error', 'sp'])
            R = ctx.run('parts.controllers:%s.ctrl' % cls, **opts)
            S = ctx.spec(CTRL.format(err=DEAD if dead else ERR), like=R,
                         module='precomp_funs', **opts)
            lab = '{} control step{}'.format(
                cls, ' with dead time' if dead else '')
            assume = 'self._slope_n < 0 and self._slope_p > 0' + (
                ' and self.deadtime' if dead else '')
            g = vg.truth(S.pre(assume))
            ctx.same(R, S, OUT, assume=g, label=lab)
            ctx.trace(R, S, ['run_controller', '_process_cv_fun',
                             'ctrl_deadtime'], label=lab, assume=g)
            ctx.unchanged(R, ['self.pv', 'self._slope_n', 'self._slope_p',
                              'self._ref_diff'], label=lab)


N = '#num'
BASE = dict(actuator='#str', CV_saturation=(N, N), controlled_part='#str',
            off_state=N, deadtime=N, slope=(N, N))
SETUP = '''
def idx(p, port, isname):
    if isname:
        return p._port_own_idx[p.port_names.index(port)]
    return port if port > -1 else p.T.shape[0] + port


def f(self, name, master_cls, kwargs):
    k = kwargs
    parts = master_cls.parts
    a = parts[k['actuator']]
    self._process_cv_fun = {fun}
    self._cv_sat_min = k['CV_saturation'][0]
    self._cv_sat_max = k['CV_saturation'][1]
    self._llim = a._llim
    self._ulim = a._ulim
    self._act_cv = a._actuator_CV[:]
    p = parts[k['controlled_part']]
    i = idx(p, k['controlled_port'], {cname})
    self.pv = p.T[i:i + 1]
    self.use_ref = {ref}
    if {ref}:
        r = parts[k['reference_part']]
        j = idx(r, k['reference_port'], {rname})
        self._ref = r.T[j:j + 1]
        self._ref_diff = k['ref_SP_diff']
    else:
        self.sp = np.array([k['setpoint']])
    self.sub_ctrl = k['sub_controller']
    if {mctrl}:
        m = master_cls.ctrls[k['master_controller']]
        self._master_act_cv = m._act_cv[:]
        self._master_act_offst = m._off_state
    if self.sub_ctrl:
        self._concurrent = k['dependency_kind'] == 'concurrent'
    self._off_state = k['off_state']
    self.discrete_time = k['time_domain'] == 'discrete'
    self._slope_n = k['slope'][0]
    self._slope_p = k['slope'][1]
    self._slope = not (k['slope'][0] == 0 and k['slope'][1] == 0)
    self._invert = -1 if k['invert'] else 1
    self._steady_state = False
    self.deadtime = k['deadtime']
    self.cv = 0.0
    self.error = 0.0
    self.prev_error = 0.0
    a.ctrl_defined = True
    a._ctrld_by = name
'''


def setup(ctx):
    n = 0
    for mode in ('direct', 'part_specific'):
        for ref in (True, False):
            for cport in ('#str', '#int'):
                for sub in (None, 'concurrent', 'sequential'):
                    n += 1
                    k = KW(BASE, process_CV_mode=mode, controlled_port=cport,
                           sub_controller=sub is not None, invert=n % 2 == 0,
                           time_domain=('discrete', 'continuous')[n // 2 % 2])
                    if ref:
                        k.update(reference_part='part X',
                                 reference_port=cport, ref_SP_diff=N)
                    else:
                        k.update(reference_part='none', setpoint=N)
                    if sub:
                        k.update(master_type='controller',
                                 master_controller='#str',
                                 dependency_kind=sub)
                    lab = 'setup {} {} {} {}'.format(
                        mode, 'reference' if ref else 'setpoint', cport[1:],
                        sub or '')
                    R = ctx.run('controls:Controls.__init__',
                                args={'kwargs': k})
                    S = ctx.spec(SETUP.format(
                        fun='self._process_cv_direct' if mode == 'direct'
                        else 'a._process_cv', cname=cport == '#str',
                        rname=cport == '#str', ref=ref,
                        mctrl=sub is not None), like=R, args={'kwargs': k})
                    ok = vg.not_(R.st.exc)
                    ctx.accepts(R, lab)
                    ctx.same(R, S, [
                        'self._process_cv_fun', 'self._cv_sat_min',
                        'self._cv_sat_max', 'self._llim', 'self._ulim',
                        'self.use_ref', 'self.sub_ctrl', 'self._off_state',
                        'self.discrete_time', 'self._slope_n',
                        'self._slope_p', 'self._slope', 'self._invert',
                        'self._steady_state', 'self.deadtime', 'self.cv',
                        'self.error', 'self.prev_error', 'self.pv',
                        'master_cls.parts[kwargs["actuator"]].ctrl_defined',
                        'master_cls.parts[kwargs["actuator"]]._ctrld_by',
                        ] + (['self._ref', 'self._ref_diff'] if ref else
                             ['self.sp']) + ([
                                 'self._master_act_cv',
                                 'self._master_act_offst',
                                 'self._concurrent'] if sub else []),
                        assume=ok, label=lab)
                    ctx.shares(R, S, ['self.pv', 'self._act_cv'] + (
                        ['self._ref'] if ref else []) + (
                            ['self._master_act_cv'] if sub else []),
                        assume=ok, label=lab)


PARTS = [('pipeline', pipeline), ('setup', setup)]
