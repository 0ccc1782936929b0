"""C15 on/off controllers"""
from sa import vg
from sa.spec import KW
from sa.vg import cnum

LEVEL = 'other'
RULE = ('gated value-graph equality: the output switches exactly on leaving '
        'the hysteresis band / at the two sensor thresholds and is held '
        'otherwise, for either action direction')
ASSUMPTIONS = []
FLOOR = 8
LOCK = '''
def lock(self):
    if self.sub_ctrl:
        off = self._master_act_cv[0] == self._master_act_offst
        if off if self._concurrent else not off:
            self.cv = self._off_state
'''
BB = LOCK + '''
def run_controller(self, timestep):
    h = self._hysteresis / 2
    if self.pv < self.sp - h:
        self.cv = self._invert * (
            self._off_state if self._reversed else self._cv_sat_max)
    elif self.pv > self.sp + h:
        self.cv = self._invert * (
            self._cv_sat_max if self._reversed else self._off_state)
    lock(self)
'''
TS = LOCK + '''
def run_controller(self, timestep):
    x = self.on_sensor_val[0]
    on = x < self._act_val if self._act_sgn == 'le' else x > self._act_val
    if self._deact_sgn == 'ge':
        off = self.pv[0] > self.sp[0]
    else:
        off = self.pv[0] < self.sp[0]
    if off:
        self.cv = self._invert * self._off_state
    elif on:
        self.cv = self._invert * self._cv_sat_max
    lock(self)
'''


def one(target, text, name):
    def part(ctx):
        for inv in (1, -1):
            pre = {'_invert': cnum(inv)}
            R = ctx.run(target, preset=pre)
            S = ctx.spec(text, like=R, preset=pre)
            lab = name + (' inverted' if inv < 0 else '')
            # (the constructor leaves the amount of the hysteresis)
            ctx.same(R, S, ['self.cv'], label=lab, assume=(
                'self._hysteresis >= 0' if 'bang' in name else None))
            ctx.unchanged(R, ['self.pv', 'self.sp', 'self._off_state',
                              'self._cv_sat_max'], label=lab)
    return part


HYS = '''
def f(self, kwargs):
    self._hysteresis = abs(kwargs['hysteresis'])
    self._reversed = kwargs['hysteresis'] < 0
'''
SENS = '''
def f(self, kwargs):
    self._act_val = kwargs['activation_value']
    self._act_sgn = '{a}'
    self._deact_sgn = '{d}'
    p = self._models.parts[kwargs['on_sensor_part']]
    i = kwargs['on_sensor_port']
    if {n}:
        i = p._port_own_idx[p.port_names.index(i)]
    else:
        i = i if i > -1 else p.T.shape[0] + i
    self.on_sensor_val = p.T[i:i + 1]
'''


def setup(ctx):
    k = KW(hysteresis='#num')
    R = ctx.run('parts.controllers:BangBang.__init__', args={'kwargs': k},
                no_inline=['__init__'])
    S = ctx.spec(HYS, like=R, args={'kwargs': k})
    ctx.accepts(R, 'bang-bang setup')
    ctx.same(R, S, ['self._hysteresis', 'self._reversed'],
             label='bang-bang setup', assume=vg.not_(R.st.exc))
    for a in ('lower', 'greater'):
        for d in ('lower', 'greater'):
            pt = '#str' if a == d else '#int'
            k = KW(on_sensor_part='#str', on_sensor_port=pt,
                   activation_value='#num', activation_sign=a,
                   deactivation_sign=d)
            R = ctx.run('parts.controllers:TwoSensors.__init__',
                        args={'kwargs': k}, no_inline=['__init__'])
            S = ctx.spec(SENS.format(a='le' if a == 'lower' else 'ge',
                                     d='le' if d == 'lower' else 'ge',
                                     n=pt == '#str'),
                         like=R, args={'kwargs': k})
            ctx.accepts(R, 'two sensors setup')
            ctx.same(R, S, ['self._act_val', 'self._act_sgn',
                            'self._deact_sgn', 'self.on_sensor_val'],
                     label='two sensors setup {} {}'.format(a, d),
                     assume=vg.not_(R.st.exc))
            ctx.shares(R, S, ['self.on_sensor_val'],
                       assume=vg.not_(R.st.exc), label='two sensors setup')


PARTS = [('bang-bang', one('parts.controllers:BangBang.run_controller', BB,
                           'bang-bang')),
         ('two sensors', one('parts.controllers:TwoSensors.run_controller',
                             TS, 'two sensors')),
         ('setup', setup)]
