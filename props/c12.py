"""C12 actuator limits"""
LEVEL = 'other'
RULE = ('gated value-graph equality: whatever control value arrives, the '
        'actuated quantity is that value clipped to the limits of the '
        'actuator; valve positions are complementary')
ASSUMPTIONS = ['lower limit < upper limit (enforced by the constructors)']
FLOOR = 12
LIM = 'self._llim < self._ulim'

CLIP = '''
def clip(x, lo, hi):
    if x > hi:
        return hi
    if x < lo:
        return lo
    return x
'''
PUMP = CLIP + '''
def _process_cv(self, {a}):
    self.dm[:] = clip({a}.cv * {f}, self._llim, self._ulim)
'''
VALVE = CLIP + '''
def _process_cv(self, {a}):
    self.pf_arr[0] = clip({a}.cv, self._llim, self._ulim)
    self.pf_arr[1] = 1 - clip({a}.cv, self._llim, self._ulim)
'''


def one(target, text, out, f='1'):
    def part(ctx):
        R = ctx.run(target)
        a = R.fn.node.args.args[1].arg
        S = ctx.spec(text.format(a=a, f=f), like=R)
        ctx.same(R, S, [out], assume=LIM)
        ctx.unchanged(R, [a + '.cv', 'self._llim', 'self._ulim'])
    return part


DIRECT = CLIP + '''
def f(self, x):
    self._act_cv[:] = clip(self.cv, self._llim, self._ulim)
'''
SAT = CLIP + '''
def f(self):
    self.cv = clip(self.cv, self._cv_sat_min, self._cv_sat_max)
'''


def direct(ctx):
    R = ctx.run('controls:Controls._process_cv_direct')
    ctx.same(R, ctx.spec(DIRECT, like=R), ['self._act_cv'], assume=LIM)
    ctx.unchanged(R, ['self.cv'])
    R = ctx.run('controls:Controls._clip_cv_to_saturation')
    ctx.same(R, ctx.spec(SAT, like=R), ['self.cv'],
             assume='self._cv_sat_min < self._cv_sat_max')


PARTS = [
    ('pump', one('parts.pump:Pump._process_cv', PUMP, 'self.dm')),
    ('pipe with pump', one('parts.pipe_with_pump:PipeWithPump._process_cv',
                           PUMP, 'self.dm', 'self._flow_at_max_speed')),
    ('mixing valve', one('parts.mixingvalve:MixingValve._process_cv', VALVE,
                         'self.pf_arr')),
    ('pipe with valve', one(
        'parts.pipe_with_valve:PipeWith3wValve._process_cv', VALVE,
        'self.pf_arr')),
    ('direct', direct),
]
