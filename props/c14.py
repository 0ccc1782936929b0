"""C14 PID law"""
from .c12 import CLIP
from sa import vg
from sa.spec import KW
from sa.vg import TRUE, FALSE

LEVEL = 'other'
RULE = ('gated value-graph equality: the controller output is the PID law of '
        'the current and previous errors with limited integral, filtered '
        'derivative, saturation and sub-controller lockout')
ASSUMPTIONS = ['anti_windup > 0 and saturation limits ordered (enforced by '
               'the constructor)']
FLOOR = 10
T = 'parts.controllers:PID.run_controller'

TEXT = CLIP + '''
def deriv(self, d, timestep):
    if self.filt_derivate:
        self._prev_deriv = self._deriv
        self._deriv_err = d
        self._bw_alpha = timestep / (self._RC + timestep)
        self._deriv = self._deriv + timestep / (self._RC + timestep) * (
            d - self._deriv)
    else:
        self._deriv = d


def run_controller(self, timestep):
    e = self.error
    if self.discrete_time:
        if self.ki != 0:
            base = clip(self.cv, -self._anti_windup, self._anti_windup)
            self._prev_cv_lim = base
            deriv(self, e - 2 * self.prev_error + self.prev2_error, timestep)
            u = base + self._invert * (
                self.kp * (e - self.prev_error) + self.ki * timestep * e
                + self.kd / timestep * self._deriv)
        else:
            deriv(self, e - self.prev_error, timestep)
            u = self._invert * (self.kp * e + self.kd / timestep * self._deriv)
    else:
        self.i_term = clip(self.prev_i_term + timestep * e,
                           -self._anti_windup, self._anti_windup)
        deriv(self, e - self.prev_error, timestep)
        self.d_term = self._deriv / timestep
        u = self._invert * (self.kp * e + self.ki * self.i_term
                            + self.kd * self.d_term)
    self.cv = clip(u, self._cv_sat_min, self._cv_sat_max)
    if self.sub_ctrl:
        off = self._master_act_cv[0] == self._master_act_offst
        if off if self._concurrent else not off:
            self.cv = self._off_state
            self.i_term = 0.0
'''


def law(ctx):
    for disc in (TRUE, FALSE):
        for filt in (TRUE, FALSE):
            pre = {'discrete_time': disc, 'filt_derivate': filt}
            R = ctx.run(T, preset=pre)
            S = ctx.spec(TEXT, like=R, preset=pre)
            lab = 'PID {} {}'.format(
                'discrete' if disc is TRUE else 'continuous',
                'filtered' if filt is TRUE else 'unfiltered')
            ctx.same(R, S, ['self.cv', 'self.i_term', 'self._deriv'],
                     assume='self._cv_sat_min < self._cv_sat_max and '
                     '-self._anti_windup < self._anti_windup', label=lab)
            ctx.unchanged(R, ['self.error', 'self.prev_error',
                              'self.prev2_error', 'self.prev_i_term',
                              'self.kp', 'self.ki', 'self.kd'], label=lab)


GAINS = '''
def f(self, kwargs):
    self.kp, self.ki, self.kd = {g}
    m = kwargs['K_mult'] if 'K_mult' in kwargs else (1, 1, 1)
    self.kp = self.kp * m[0]
    self.ki = self.ki * m[1]
    self.kd = self.kd * m[2]
    self.filt_derivate = {filt}
    if {filt}:
        self._RC = 1 / (2 * np.pi * kwargs['cutoff_freq'])
    self._anti_windup = {aw}
'''
N = '#num'
MAN = {'P': ('Kp',), 'PI': ('Kp', 'Ki'), 'PD': ('Kp', 'Kd'),
       'PID': ('Kp', 'Ki', 'Kd')}
ZN = {'P': (0.5, 0, 0), 'PI': (0.45, 0.85, 0), 'PD': (0.55, 0, 0.15),
      ('PID', 'classic'): (0.6, 0.5, 0.125),
      ('PID', 'pessen-int'): (0.7, 0.4, 0.15),
      ('PID', 'some-os'): (0.33, 0.5, 0.33),
      ('PID', 'no-os'): (0.2, 0.5, 0.33)}


def gains(ctx):
    """constructor: every combination of terms and tuning method"""
    cases = []
    for terms, ks in MAN.items():
        kw = {'terms': terms, 'loop_tuning': 'manual'}
        kw.update({k: N for k in ks})
        g = ', '.join("kwargs['%s']" % k if k in ks else '0'
                      for k in ('Kp', 'Ki', 'Kd'))
        cases.append((kw, g))
        cases.append((dict(kw, K_mult=[N, N, N]), g))
    for key, (a, n, v) in ZN.items():
        terms = key if isinstance(key, str) else key[0]
        kw = {'terms': terms, 'loop_tuning': 'ziegler-nichols',
              'Kp_crit': N, 'T_crit': N}
        if not isinstance(key, str):
            kw['rule'] = key[1]
        kp = "kwargs['Kp_crit'] * %s" % a
        g = '{0}, {1}, {2}'.format(
            kp, '%s / (kwargs["T_crit"] * %s)' % (kp, n) if n else '0',
            '%s * kwargs["T_crit"] * %s' % (kp, v) if v else '0')
        cases.append((kw, g))
    for kw, g in cases:
        for filt in ((True, False) if 'D' in kw['terms'] else (False,)):
            for aw in ((N, 'auto', 'auto_2.5') if 'I' in kw['terms']
                       else (None,)):
                k = KW(kw)
                if 'D' in kw['terms']:
                    k['filter_derivative'] = filt
                    if filt:
                        k['cutoff_freq'] = N
                if aw is not None:
                    k['anti_windup'] = aw
                R = ctx.run('parts.controllers:PID.__init__',
                            args={'kwargs': k}, no_inline=['__init__'])
                S = ctx.spec(GAINS.format(
                    g=g, filt=filt, aw='np.inf' if aw is None else
                    "kwargs['anti_windup']" if aw == N else
                    ('2.5' if '_' in aw else '1') + ' / self.ki'),
                    like=R, args={'kwargs': k})
                lab = 'PID gains {} {} {} {} {}'.format(
                    kw['terms'], kw['loop_tuning'], kw.get('rule', ''),
                    'filtered' if filt else '', aw or '')
                ctx.accepts(R, lab)
                ctx.same(R, S, ['self.kp', 'self.ki', 'self.kd',
                                'self._anti_windup', 'self.filt_derivate']
                         + (['self._RC'] if filt else []), label=lab,
                         assume=vg.not_(R.st.exc))


PARTS = [('law', law), ('gains', gains)]
