"""C31 pre-assembled modules are complete, consistent systems"""
import re

from sa import vg
from sa import spec
from sa.spec import KW, opname

LEVEL = 'other'
RULE = ('the parts, connections, open ports and controllers a module adds '
        '(guarded event graph, constants folded) are checked against the '
        'required topology and against the ports and indices of the parts')
ASSUMPTIONS = ['the caller passes unused names of existing parts and ports',
               'a part added under a constant name has the ports of its class']
FLOOR = 200

IO = ('in', 'out')
V3 = ('A', 'B', 'AB')
HX = ('sup_in', 'sup_out', 'dmd_in', 'dmd_out')
PORTS = dict(Pipe=IO, PipeWithPump=IO, HeatedPipe=IO, CHPPlant=IO,
             PipeBranched=IO, PipeWith3wValve=V3, Tes=IO, HexNum=HX,
             HeatExchanger=HX, HEXCondPoly=(
                 'water_in', 'water_out', 'fluegas_in', 'fluegas_out'))
ACTS = ('PipeWithPump', 'HeatedPipe', 'CHPPlant', 'PipeWith3wValve')


def val(x):
    return KW().val('x', x)


def const(v):
    """python constant of a value, or None"""
    if v is None or v.atom is not None:
        return None
    p = v.p
    if p[0] == 's':
        return p[1]
    return spec_const(v)


def spec_const(v):
    t = vg.show(v, 6)
    if t in ('True', 'False'):
        return t == 'True'
    try:
        return float(t) if '.' in t or 'e' in t else int(t)
    except ValueError:
        return None


def ints(v):
    """the numbers of a constant tuple or list, or None"""
    t = vg.show(v, 6)
    if not re.fullmatch(r'[\[(][-\d, ]*[\])]', t):
        return None
    return [int(x) for x in t[1:-1].split(',') if x.strip()]


class Model:
    """what the module adds in one configuration"""

    def __init__(self, ctx, R, lab):
        self.ctx, self.R, self.lab = ctx, R, lab
        self.parts, self.ctrl, self.open = {}, {}, {}
        self.conn = []
        self.vague = []
        for e in R.st.events:
            n = opname(e)
            if n not in ('add_part', 'connect_ports', 'add_open_port',
                         'add_control'):
                continue
            g = vg.and_(e.guard, vg.not_(R.st.exc))
            if vg.satisfiable(g) is None:
                continue
            if vg.satisfiable(vg.and_(vg.not_(e.guard),
                                      vg.not_(R.st.exc))) is not None \
                    or e.loops:
                self.vague.append('{} at {} depends on values'.format(
                    n, spec.fmt_loc(e.loc)))
            kw = dict(e.kw)
            a = list(e.args)
            if n == 'connect_ports':
                for k in ('first_part', 'first_port', 'scnd_part',
                          'scnd_port'):
                    if k in kw:
                        a.append(kw[k])
                c = [const(x) for x in a]
                if len(c) != 4 or None in c:
                    self.vague.append('connection of computed names at ' +
                                      spec.fmt_loc(e.loc))
                    continue
                self.conn.append((tuple(c[:2]), tuple(c[2:]), e))
                continue
            if n != 'add_open_port':
                cls = a.pop(0) if a else kw.pop(
                    'part' if n == 'add_part' else 'controller', None)
            else:
                cls = None
            nm = a.pop(0) if a else kw.pop('name', None)
            nm = const(nm)
            if nm is None:
                self.vague.append('{} with a computed name at {}'.format(
                    n, spec.fmt_loc(e.loc)))
                continue
            d = {'add_part': self.parts, 'add_control': self.ctrl,
                 'add_open_port': self.open}[n]
            self.rec(nm + ' added once', nm not in d, 'the name is used '
                     'for two additions', e)
            c = vg.show(cls, 2).split(':')[-1] if cls is not None else None
            d[nm] = (c, kw, e)

    def rec(self, label, ok, detail, e=None, und=False):
        self.ctx.record('{}: {}'.format(self.lab, label), 'discharged' if ok
                        else 'undecided' if und or self.vague else
                        'violated', '' if ok else detail +
                        (' (%s)' % self.vague[0] if self.vague else ''),
                        e.loc if e is not None else self.R.where('exc'),
                        'wiring')

    def load(self, v, text):
        st = self.R.st
        st.env['__x'] = v
        return self.R._eval('__x' + text, st)

    # -- rules valid for every assembled system
    def general(self, ext, given):
        own = [n for d in (self.parts, self.ctrl, self.open) for n in d]
        for n in own:
            self.rec(n + ' carries the segment name', 'SEG' in n, 'two '
                     'segments of the system would clash')
        allp = {}
        for n, (c, kw, e) in self.parts.items():
            if c not in PORTS:
                self.rec(n, False, 'unknown part class %s' % c, e, True)
                continue
            for p in PORTS[c]:
                allp[n, p] = e
            np_ = given.get(n) or self.keys(kw.get('new_ports'))
            for p in np_ or ():
                allp[n, p] = e
            if 'new_ports' in kw and np_ is None:
                self.rec(n + ' ports', False, 'ports not constant', e, True)
        for n, (c, kw, e) in self.open.items():
            allp['BoundaryCondition', n] = e
        for x in ext:
            allp[x] = None
        use = {}
        for a, b, e in self.conn:
            for x in (a, b):
                use.setdefault(x, []).append(e)
                if x not in allp:
                    self.rec('%s;%s' % x, False, 'connected, but there is no '
                             'such part or port', e)
        for x, e in sorted(allp.items()):
            k = use.get(x, [])
            self.rec('%s;%s connected once' % x, len(k) == 1, 'connected %d '
                     'times' % len(k), k[1] if len(k) > 1 else e)
        for n, (c, kw, e) in sorted(self.parts.items()):
            self.grid(n, c, kw, e)
        self.controls()

    def keys(self, v):
        if v is None:
            return None
        return re.findall(r"\['(\w+)'\]=", vg.show(v, 6)) or None

    def grid(self, n, c, kw, e):
        gp = const(kw['grid_points']) if 'grid_points' in kw else None
        if gp is None:
            return
        at = {}
        for k in ('store_results', 'heated_cells'):
            if k in kw:
                i = ints(kw[k])
                if i is None and const(kw[k]) is not None and \
                        const(kw[k]) is not True:
                    i = [const(kw[k])]
                if i is None and const(kw[k]) is not True:
                    self.rec('%s %s' % (n, k), False, 'not constant', e, True)
                for x in i or ():
                    at.setdefault(k, []).append(x - (k == 'heated_cells'))
        if 'valve_location' in kw:
            at['valve_location'] = [const(kw['valve_location'])]
        for p in self.keys(kw.get('new_ports')) or ():
            x = const(self.load(kw['new_ports'], "[%r][0]" % p))
            how = const(self.load(kw['new_ports'], "[%r][1]" % p))
            if how == 'index':
                at['port ' + p] = [x]
        for k, i in sorted(at.items()):
            if None in i:
                self.rec('%s %s' % (n, k), False, 'not constant', e, True)
                continue
            self.rec('%s: %s within the %d cells' % (n, k, gp), all(
                0 <= x < gp for x in i), 'cell %s' % i, e)
        for k, (cc, ckw, ce) in sorted(self.ctrl.items()):
            for a, b in (('controlled_part', 'controlled_port'),
                         ('on_sensor_part', 'on_sensor_port')):
                if a in ckw and const(ckw[a]) == n:
                    x = const(ckw.get(b)) if b in ckw else None
                    if x is None:
                        self.rec('%s sensor' % k, False, 'not constant', ce,
                                 True)
                    else:
                        self.rec('%s: sensor within the %d cells of %s' % (
                            k, gp, n), -gp <= x < gp, 'cell %s' % x, ce)

    def controls(self):
        acted = {}
        for k, (c, kw, e) in sorted(self.ctrl.items()):
            a = const(kw.get('actuator')) if 'actuator' in kw else None
            acted.setdefault(a, []).append(e)
            ok = a in self.parts and self.parts[a][0] in ACTS
            self.rec('%s drives an actuator of the module' % k, ok,
                     '%s is none' % a, e)
            for f, d in (('controlled_part', self.parts),
                         ('master_part', self.parts),
                         ('master_controller', self.ctrl)):
                if f in kw and const(kw[f]) is not None:
                    x = const(kw[f])
                    self.rec('%s: %s exists' % (k, f), x in d,
                             '%s is not part of the module' % x, e)
            sub = const(kw.get('sub_controller')) if 'sub_controller' in kw \
                else None
            m = 'master_part' in kw or 'master_controller' in kw
            self.rec('%s: master' % k, sub is m, 'a sub controller needs a '
                     'master, others have none', e, sub is None)
        for n, (c, kw, e) in sorted(self.parts.items()):
            if c not in ACTS:
                continue
            req = 'ctrl_required' not in kw or \
                const(kw['ctrl_required']) is not False
            if 'no_control' in kw and const(kw['no_control']) is True:
                req = False
            k = len(acted.get(n, []))
            self.rec('%s controlled %s' % (n, 'once' if req else 'by its '
                                           'given values'), k == (
                1 if req else 0), '%d controllers' % k, e)
            given = [x for x in ('const_val', 'time_series') if x in kw]
            self.rec('%s: given values' % n, len(given) == (
                0 if req else 1), 'given: %s' % given, e)

    # -- the required system
    def required(self, parts, conn, ctrl):
        S = self.R
        for l in parts.strip().split('\n'):
            f = l.split()
            if not f:
                continue
            n = f[1]
            c, kw, e = self.parts.get(n, (None, {}, None))
            self.rec('%s is a %s' % (n, f[0]), c == f[0], 'it is %s' % (
                'missing' if c is None else 'a ' + c), e)
            if c is not None:
                self.pipe(n, kw, [x for x in f[2:] if x[:2] in (
                    'DN', 'F=')], e)
                self.eq(n, kw, ' '.join(x for x in f[2:] if x[:2] not in (
                    'DN', 'F=')) + ' T_amb=Tamb', e)
        for n, (c, kw, e) in self.parts.items():
            self.rec(n + ' belongs to the module', n in parts.split(),
                     'unexpected part', e)
        want = set()
        for l in conn.split('\n'):
            if l.strip():
                a, b = l.split()
                want.add(frozenset((tuple(a.split(';')),
                                    tuple(b.split(';')))))
        have = {frozenset((a, b)): e for a, b, e in self.conn}
        for x in sorted(want, key=lambda s: sorted(s)):
            t = ' - '.join('%s;%s' % y for y in sorted(x))
            self.rec('connection ' + t, x in have, 'missing')
        for x, e in have.items():
            self.rec('connection ' + ' - '.join('%s;%s' % y for y in sorted(
                x)), x in want, 'not part of the required system', e)
        for l in ctrl.strip().split('\n'):
            f = l.split()
            if not f:
                continue
            c, kw, e = self.ctrl.get(f[1], (None, {}, None))
            self.rec('%s is a %s' % (f[1], f[0]), c == f[0], 'it is %s' % (
                'missing' if c is None else 'a ' + c), e)
            if c is not None:
                self.eq(f[1], kw, ' '.join(f[2:]), e)
        for n, (c, kw, e) in self.ctrl.items():
            self.rec(n + ' belongs to the module', n in ctrl.split(),
                     'unexpected controller', e)

    def pipe(self, n, kw, f, e):
        d = dict(x.split('=', 1) for x in f)
        if not d:
            return
        if 'pipe_specs' not in kw:
            self.rec(n + ' pipe size', False, 'not given', e)
            return
        v, R = kw['pipe_specs'], self.R
        src = self.load(v, '')
        adj = [x for x in R.st.events if opname(x) == 'adjust_pipes']
        if adj:
            m = re.search(r"\['(\w+)'\]$", vg.show(v, 3))
            if not m or not vg.show(v, 3).startswith('call:adjust_pipes'):
                self.rec(n + ' adjusted pipe size', False, 'not the adjusted '
                         'specification', e, 'adjust' not in vg.show(v, 9)
                         and vg.show(v, 9).find("'DN'") < 0)
                return
            src = self.load(adj[0].args[0], '[%r][0]' % m.group(1))
            fac = self.load(adj[0].args[0], '[%r][1]' % m.group(1))
            self.ctx.equal('%s: %s flow ratio' % (self.lab, n), R.I.rv(
                fac, R.st), R.get(d['F']), vg.not_(R.st.exc), e.loc,
                'wiring', (R, R))
        dn = const(self.load(src, "['all']['DN']"))
        self.rec(n + ' reference pipe', dn == d['DN'], 'is %s, required %s' %
                 (dn, d['DN']), e, dn is None)

    def eq(self, n, kw, text, e):
        for x in text.split(' '):
            if not x:
                continue
            k, _, t = x.partition('=')
            if t == '-':
                continue
            if k not in kw:
                self.rec('%s: %s' % (n, k), False, 'not given', e)
                continue
            v = kw[k]
            self.ctx.equal('%s: %s %s' % (self.lab, n, k), self.R.I.rv(
                v, self.R.st), self.R.get(t), vg.not_(self.R.st.exc),
                e.loc, 'wiring', (self.R, self.R))


def build(ctx, target, lab, **args):
    a = {}
    for k, v in args.items():
        a[k] = v if isinstance(v, (KW, vg.Val)) or callable(v) else val(v)
    R = ctx.run(target, args=a, opaque=['adjust_pipes', 'database_import'])
    ctx.accepts(R, lab)
    return R, Model(ctx, R, lab)


# ------------------------------------------------------------- gas boiler
GF = '(gasb_pth/150e3*15/(gasboiler_ctrl["theta_ff_gasb"]-60))'
GL = 'gasb_pth/(4180*(gasboiler_ctrl["theta_ff_gasb"]-60))'
GP = """
PipeWithPump pwp_gasb_ff_SEG DN=DN50 F=%(GF)s lower_limit=0 upper_limit=%(GL)s maximum_flow=%(GL)s
HeatedPipe ph_gasb_SEG DN=DN125 F=%(GF)s no_control=False lower_limit=0 upper_limit=gasb_pth
Pipe p_gasb_rf_SEG DN=DN50 F=%(GF)s
""" % dict(GF=GF, GL=GL)
GC = """
FP;fp pwp_gasb_ff_SEG;out
pwp_gasb_ff_SEG;in ph_gasb_SEG;out
ph_gasb_SEG;in p_gasb_rf_SEG;out
p_gasb_rf_SEG;in LP;lp
"""
g = 'gasboiler_ctrl["%s"]'
GK = """
TwoSensors c_gasb_pth_SEG actuator="ph_gasb_SEG" CV_saturation=(0,gasb_pth) process_CV_mode="direct" controlled_part=%s controlled_port=%s on_sensor_part=%s on_sensor_port=%s setpoint=%s activation_value=%s activation_sign="lower" deactivation_sign="greater" invert=False
PID c_gasb_pump_SEG actuator="pwp_gasb_ff_SEG" process_CV_mode="part_specific" controlled_part="ph_gasb_SEG" controlled_port=4 setpoint=%s master_type="part" master_part="ph_gasb_SEG" master_variable="_dQ_heating" dependency_kind="concurrent" invert=True
""" % tuple(g % x for x in ('off_sens_part', 'off_sens_port', 'on_sens_part',
                            'on_sens_port', 'off_val', 'setpoint',
                            'theta_ff_gasb'))
SUP = 'parts.part_modules.suppliers:'
OLD = 'parts.part_modules.chp_with_fluegas_hex:add_chp_with_fghex'
CNS = 'parts.part_modules.consumers:'


def gasboiler(ctx):
    for adj in (True, False):
        R, M = build(ctx, SUP + 'gasboiler', 'gasboiler', n_rf_ports=1,
                     segment_name='SEG', adjust_pipes=adj,
                     ff_connector=KW({'FP': 'fp'}),
                     ltrf_connector=KW({'LP': 'lp'}),
                     htrf_connector=KW({'HP': 'hp'}))
        M.required(GP, GC, GK)
        M.general([('FP', 'fp'), ('LP', 'lp')], {})


# --------------------------------------------------- chp with flue gas hex
CF = ('(chp_kwds["power_electrical"]/chp_kwds["p2h_ratio"]/38.7e3*(82.5-73)/'
      '(chp_kwds["theta_ff"]-chp_ctrl["off_val"]))')
CL = ('chp_kwds["power_electrical"]/chp_kwds["p2h_ratio"]/4180/'
      '(chp_kwds["theta_ff"]-chp_ctrl["off_val"])')
CH = ('CHPPlant {CHP} DN=DN80 F={CF} power_electrical=chp_kwds['
      '"power_electrical"] eta_el=chp_kwds["eta_el"] p2h_ratio=chp_kwds['
      '"p2h_ratio"] theta_ff=chp_kwds["theta_ff"] connect_fluegas_hex={fg}\n'
      'PipeWithPump {pwp} DN={d40} F={CF} lower_limit=0 {lim}\n')
HEX = 'HEXCondPoly {hex} DN={d40} F={CF}\n'
CHP = {
    3: (CH + HEX + """
PipeWith3wValve {rf} DN={d40} F={CF}
Pipe {lt} DN=DN25 F={CF}
PipeWith3wValve {htA} DN={d32} F={CF}
Pipe {htB} DN={d32} F={CF}
""", """
{CHP};out {pwp};in
{rf};AB {CHP};in
{htA};AB {rf};B
{htB};out {htA};B
{lt};out {hex};water_in
{hex};water_out {rf};A
BoundaryCondition;{bi} {hex};fluegas_in
BoundaryCondition;{bo} {hex};fluegas_out
{pwp};out FP;fp
{lt};in NP;np
{htA};A AP;ap
{htB};in BP;bp
"""),
    2: (CH + HEX + """
PipeWith3wValve {rf} DN={d40} F={CF}
Pipe {lt} DN=DN25 F={CF}
Pipe {ht} DN={d40} F={CF}
""", """
{CHP};out {pwp};in
{rf};AB {CHP};in
{ht};out {rf};B
{lt};out {hex};water_in
{hex};water_out {rf};A
BoundaryCondition;{bi} {hex};fluegas_in
BoundaryCondition;{bo} {hex};fluegas_out
{pwp};out FP;fp
{lt};in NP;np
{ht};in AP;ap
"""),
    1: (CH + HEX + """
Pipe {prf} DN={d40} F={CF}
Pipe {lt} DN={d40} F={CF}
""", """
{CHP};out {pwp};in
{prf};out {CHP};in
{lt};out {hex};water_in
{hex};water_out {prf};in
BoundaryCondition;{bi} {hex};fluegas_in
BoundaryCondition;{bo} {hex};fluegas_out
{pwp};out FP;fp
{lt};in NP;np
"""),
    0.5: (CH + """
Pipe {prf} DN={d40} F={CF}
""", """
{CHP};out {pwp};in
{prf};out {CHP};in
{pwp};out FP;fp
{prf};in NP;np
""")}
NEW = dict(CHP='CHPSEG', pwp='pwp_chp_ff_SEG', rf='p3v_chp_rf_SEG',
           prf='p_chp_rf_SEG', lt='p_chp_rf_lt_SEG', ht='p_chp_rf_ht_SEG',
           htA='p3v_chp_rf_htA_SEG', htB='p_chp_rf_htB_SEG',
           hex='hex_chp_fg_SEG', bi='BC_fg_in_SEG', bo='BC_fg_out_SEG',
           CF=CF, d40='DN40', d32='DN32', cpel='c_chp_pel_SEG',
           cp='c_chp_pump_SEG', cmp='chp_modelpred_SEG',
           cfg='c_chp_3v_hex_fg_SEG', cht='c_chp_3v_htrf_SEG', cfp=1, htp=7,
           lim='upper_limit=%s maximum_flow=%s' % (CL, CL), osp=
           'on_sensor_port')
OLDN = dict(NEW, pwp='pwp_chpSEG_ff', rf='p3v_chpSEG_rf', prf='p_chpSEG_rf',
            lt='p_chpSEG_rf_lt', ht='p_chpSEG_rf_ht', htA='p3v_chpSEG_rf_htA',
            htB='p3v_chpSEG_rf_htB', hex='hex_chpSEG_fg', bi='BC_fgSEG_in',
            bo='BC_fgSEG_out', CF='(chp_kwds["power_electrical"]/'
            'chp_kwds["p2h_ratio"]/38.7e3)', d40='DN32', d32='DN25',
            cpel='c_pel_chpSEG', cp='c_p_chpSEG', cfg='c_3v_chp_hex_fgSEG',
            cht='c_3v_chp_htrfSEG', cfp=2, htp=8,
            lim='upper_limit=chp_ff_pump_ulim', osp='on_sens_port')
PEL = ('controlled_part="{cpart}" controlled_port=-1 '
       'process_CV_mode="direct" actuator="{CHP}" '
       'setpoint=chp_ctrl["off_val"] on_sensor_part=chp_ctrl["ctrld_part"] '
       'on_sensor_port=chp_ctrl["{osp}"] '
       'activation_value=chp_ctrl["setpoint"] activation_sign="lower" '
       'deactivation_sign="greater" invert=False')
CTR = """
%s
PID {cp} actuator="{pwp}" process_CV_mode="part_specific" controlled_part="{CHP}" controlled_port=4 setpoint=chp_kwds["theta_ff"] master_type="part" master_part="{CHP}" master_variable="_dQ_heating" dependency_kind="concurrent" invert=True
"""
CFG = 'PID {cfg} actuator="{rf}" actuator_port="A" process_CV_mode="part_specific" controlled_part="{rf}" controlled_port={cfp} setpoint=fluegashex_theta_out_water invert=True\n'
CHT = 'PID {cht} actuator="{htA}" actuator_port="A" process_CV_mode="part_specific" controlled_part="{htA}" controlled_port={htp} setpoint=ht_rf_theta_mix invert=True\n'


def chp(ctx, target, N, counts, modes, **more):
    for n in counts:
        parts, conn = CHP[n]
        for mode in modes:
            for ts in (False, True):
                d = dict(N, cpart=N['rf'] if n in (2, 3) else N['prf'],
                         fg=n != 0.5)
                pel = 'TwoSensors {cpel} ' + PEL if mode == 'heat' else \
                    'ModelPredCHP {cmp} opt_profiles=chp_ctrl["opt_profiles"] ' \
                    'ctrl_profiles=chp_ctrl["ctrl_profiles"] ' \
                    'tes_soc_minmax=tuple(chp_ctrl["tes_cap_mpred"]) ' + PEL
                ctrl = CTR % pel
                if n in (2, 3):
                    ctrl += CFG
                if n == 3:
                    ctrl += CHT
                osp = N['osp']
                cc = KW(ctrld_part='#any', setpoint='#num', off_val='#num',
                        chp_mode=mode, tes_cap_mpred=('#num', '#num'),
                        opt_profiles='#any', ctrl_profiles='#any')
                cc[osp] = '#any'
                kw = dict(power_electrical='#num', eta_el='#num',
                          p2h_ratio='#num', modulation_range='#any',
                          theta_ff='#num', heat_spread='range',
                          heated_cells=(1, 5), no_control=False,
                          lower_limit=0.0, upper_limit=1.0,
                          fluegas_flow='#num', pipe_specs=KW(
                              all=KW(pipe_type='EN10255_medium', DN='DN80')))
                R, M = build(
                    ctx, target, 'chp %s%s' % (n, ' old' if N is OLDN else
                                               ''), number_rf_ports=n,
                    segment_name='SEG', adjust_pipes=ts,
                    ctrl_chp_pump_by_ts=ts, ctrl_hex_by_ts=ts,
                    ctrl_htrf_by_ts=ts, chp_ctrl=cc, chp_kwds=KW(kw),
                    fluegas_hex_kwds=KW(hex_regression_pipeline='#any'),
                    chp_ff_connection=('FP', 'fp'),
                    chp_ntrf_connection=('NP', 'np'),
                    chp_htrfA_connection=('AP', 'ap'),
                    chp_htrfB_connection=('BP', 'bp'))
                M.required(parts.format(**d), conn.format(**d),
                           ctrl.format(**d))
                ext = [('FP', 'fp'), ('NP', 'np'), ('AP', 'ap'),
                       ('BP', 'bp')]
                M.general(ext[:{3: 4, 2: 3}.get(n, 2)], {})
                if n != 0.5:
                    c, k, e = M.parts.get(d['CHP'], (0, {}, None))
                    M.eq(d['CHP'], k, 'fg_hex_name="%s"' % d['hex'], e)
    for n in counts:
        R = ctx.run(target, args=dict(number_rf_ports=val(n)),
                    opaque=['adjust_pipes'])
        ctx.unchanged(R, ['chp_kwds', 'chp_ctrl', 'fluegas_hex_kwds'])


def chp_new(ctx):
    chp(ctx, SUP + 'chp_with_fghex', NEW, (3, 2, 1, 0.5), ('heat', 'el_mod'))


def chp_old(ctx):
    chp(ctx, OLD, OLDN, (3, 2, 1), ('heat',))


# -------------------------------------------- drinking water, circulation
PW = '(np.mean(phw_dmd)/0.020426520552047665)'
RCF = '(np.mean(rc_flow)/0.11555245060523046)'
# an even number of plates
EVEN = '((%s)if((%s)%%2==0)else(%s)+1)'
MIX = '(%s/3+%s*2/3)' % (PW, RCF)
LP_ = """
PipeWith3wValve p3v_phwrc_ff_mix_SEG DN=DN32 F={MIX} lower_limit=0 upper_limit=1
PipeBranched pb_phwrc_ff_SEG DN=DN32 F={MIX}
PipeWithPump pwp_phw_ff_SEG DN=DN25 F={PW} lower_limit=0 upper_limit=0.5*{PW} maximum_flow=0.5*{PW}
PipeWithPump pwp_rc_ff_SEG DN=DN25 F={RC} lower_limit=0 upper_limit=0.2*{RC} maximum_flow=0.2*{RC}
HexNum hex_phw_SEG DN=DN25 F={PW} HEx_type="plate_hex" passes=2 flow_type="counter"
HeatExchanger hex_rc_SEG DN=DN25 F={RC} HEx_type="plate_hex" passes=1 plates={NR}
PipeBranched pb_rc_rf_SEG DN=DN25 F={RC}
Pipe p_rc_to_mixSEG DN=DN25 F={RC}
Pipe p_phw_rf_SEG DN=DN25 F={PW}
Pipe p_rc_dmd_SEG DN=DN25 F={RC}
PipeBranched pb_phwrc_dmd_SEG DN=DN50 F={MIX}
PipeWithPump pwp_rc_SEG DN=DN25 F={RC} start_massflow=rc_flow const_val=rc_flow
PipeWithPump pwp_cw_SEG DN=DN32 F={PW} start_massflow=phw_dmd[0] time_series=phw_dmd
""".format(MIX=MIX, PW=PW, RC=RCF, NR=EVEN %
           (('int(round(8/0.11555245060523046*np.mean(rc_flow)))',) * 3))
LC = """
FP;fp p3v_phwrc_ff_mix_SEG;A
p3v_phwrc_ff_mix_SEG;AB pb_phwrc_ff_SEG;in
pb_phwrc_ff_SEG;out pwp_phw_ff_SEG;in
pb_phwrc_ff_SEG;out_rc pwp_rc_ff_SEG;in
pwp_phw_ff_SEG;out hex_phw_SEG;sup_in
pwp_rc_ff_SEG;out hex_rc_SEG;sup_in
hex_rc_SEG;sup_out pb_rc_rf_SEG;in
pb_rc_rf_SEG;out CP;cp
pb_rc_rf_SEG;rc_to_mix p_rc_to_mixSEG;in
p_rc_to_mixSEG;out p3v_phwrc_ff_mix_SEG;B
hex_phw_SEG;sup_out p_phw_rf_SEG;in
p_phw_rf_SEG;out RP;rp
hex_rc_SEG;dmd_out p_rc_dmd_SEG;in
hex_phw_SEG;dmd_out pb_phwrc_dmd_SEG;in
p_rc_dmd_SEG;out pb_phwrc_dmd_SEG;in_rc_flow
pb_phwrc_dmd_SEG;out BoundaryCondition;BC_phwrc_theta_ff_SEG
pwp_rc_SEG;out hex_rc_SEG;dmd_in
BoundaryCondition;BC_rc_theta_rf_SEG pwp_rc_SEG;in
BoundaryCondition;BC_phw_theta_cw_SEG pwp_cw_SEG;in
pwp_cw_SEG;out hex_phw_SEG;dmd_in
"""
V = ('PID %s actuator="%s" controlled_part="%s" controlled_port=%d '
     'actuator_port="A" process_CV_mode="part_specific" setpoint=%s '
     'invert=False\n')
LK = V % ('c_3v_mixSEG', 'p3v_phwrc_ff_mix_SEG', 'p3v_phwrc_ff_mix_SEG', 7,
          '65') + """
PID c_pump_phw_SEG actuator="pwp_phw_ff_SEG" process_CV_mode="part_specific" controlled_part="pb_phwrc_dmd_SEG" controlled_port=1 setpoint=60 master_type="part" master_part="pwp_cw_SEG" master_variable="dm" master_variable_index=0 dependency_kind="concurrent" invert=False
PID c_pump_rcSEG actuator="pwp_rc_ff_SEG" process_CV_mode="part_specific" controlled_part="p_rc_dmd_SEG" controlled_port=1 setpoint=60 invert=False
"""


def opened(M, d):
    for n, (c, t) in d.items():
        _, kw, e = M.open.get(n, (None, {}, None))
        M.rec(n + ' open', n in M.open, 'missing')
        if n in M.open:
            M.eq(n, kw, 'constant=%s temperature=%s' % (c, t), e)


def seg(adj, **K):
    return dict(K, segment_name='SEG', adjust_pipes=adj,
                ff_connector=KW({'FP': 'fp'}), rf_connector=KW({'RP': 'rp'}))


WATER = {'BC_phwrc_theta_ff_SEG': ('True', '60'),
         'BC_rc_theta_rf_SEG': ('True', '55'),
         'BC_phw_theta_cw_SEG': ('True', '13')}
EXT = [('FP', 'fp'), ('RP', 'rp')]


def lowex(ctx):
    for adj in (True, False):
        R, M = build(ctx, CNS + 'lowex_phwrc', 'lowex', **seg(
            adj, rc_connector=KW({'CP': 'cp'})))
        M.required(LP_, LC, LK)
        M.general(EXT + [('CP', 'cp')], {})
        opened(M, WATER)


# ------------------------------------------------- storage charging system
DT = ('((np.mean(phw_dmd)*47+np.mean(rc_flow)*5)*4180)')
DF = '(%s/20e3)' % DT
SP = """
Tes sps_store_phw_SEG volume=lhs.v_stor_phw grid_points=store_gp outer_diameter=store_dia shell_thickness=store_shell new_ports=store_ports T_init=store_init
PipeWith3wValve sps_p3v_ff_hex_SEG DN=DN25 F={DF}*1.1 lower_limit=0 upper_limit=1
PipeWithPump sps_pwp_ff_hex_SEG DN=DN25 F={DF}*1.03 lower_limit=0 upper_limit={DT}*5/(4180*(theta_ff_phwstore-55)) maximum_flow={DT}*5/(4180*(theta_ff_phwstore-55)) start_massflow={DT}/(4180*(theta_ff_phwstore-45))
PipeBranched sps_pb_rf_hex_SEG DN=DN25 F={DF}*0.95
Pipe sps_p_rf_hex_to_mix_SEG DN=DN25 F={DF}*0.95
HexNum sps_hex_phw_store_SEG DN=DN25 F={DF} HEx_type="plate_hex" passes=1 flow_type="counter" plates={NS}
Pipe sps_p_ff_store_SEG DN=DN32 F={DF}*0.92
PipeWithPump sps_pwp_rf_store_SEG DN=DN32 F={DF} lower_limit=0 upper_limit={DT}*5/(4180*7.15) maximum_flow={DT}*5/(4180*7.15) start_massflow={DT}/(4180*17.15)
Pipe sps_p_phwrc_dmd_SEG DN=DN50 F={MIX}
PipeWithPump sps_pwp_rc_SEG DN=DN25 F={RC} start_massflow=rc_flow const_val=rc_flow
PipeWithPump sps_pwp_cw_SEG DN=DN32 F={PW} start_massflow=phw_dmd[0] time_series=phw_dmd
""".format(DF=DF, DT=DT, MIX=MIX, PW=PW, RC=RCF, NS=EVEN % (
    ('int(round(61/1607*lhs.wfl/7))',) * 3))
SC = """
FP;fp sps_p3v_ff_hex_SEG;A
sps_p3v_ff_hex_SEG;AB sps_pwp_ff_hex_SEG;in
sps_pwp_ff_hex_SEG;out sps_hex_phw_store_SEG;sup_in
sps_hex_phw_store_SEG;sup_out sps_pb_rf_hex_SEG;in
sps_pb_rf_hex_SEG;out RP;rp
sps_pb_rf_hex_SEG;out_mix_sps_ff sps_p_rf_hex_to_mix_SEG;in
sps_p_rf_hex_to_mix_SEG;out sps_p3v_ff_hex_SEG;B
sps_hex_phw_store_SEG;dmd_out sps_p_ff_store_SEG;in
sps_p_ff_store_SEG;out sps_store_phw_SEG;ff_tes
sps_store_phw_SEG;out sps_pwp_rf_store_SEG;in
sps_pwp_rf_store_SEG;out sps_hex_phw_store_SEG;dmd_in
sps_store_phw_SEG;in sps_p_phwrc_dmd_SEG;in
sps_p_phwrc_dmd_SEG;out BoundaryCondition;BC_phwrc_theta_ff_SEG
sps_pwp_rc_SEG;out sps_store_phw_SEG;rc
BoundaryCondition;BC_rc_theta_rf_SEG sps_pwp_rc_SEG;in
BoundaryCondition;BC_phw_theta_cw_SEG sps_pwp_cw_SEG;in
sps_pwp_cw_SEG;out sps_store_phw_SEG;cw
"""
SK = V % ('sps_c_3v_hex_ff_SEG', 'sps_p3v_ff_hex_SEG', 'sps_p3v_ff_hex_SEG',
          4, 'theta_ff_phwstore') + """
PID sps_c_pump_hex_SEG actuator="sps_pwp_ff_hex_SEG" process_CV_mode="part_specific" controlled_part="sps_p_ff_store_SEG" controlled_port=1 setpoint=60.15 master_type="part" master_part="sps_pwp_rf_store_SEG" master_variable="dm" master_variable_index=0 dependency_kind="concurrent" invert=False
PID sps_c_pump_store_SEG actuator="sps_pwp_rf_store_SEG" process_CV_mode="part_specific" controlled_part="sps_store_phw_SEG" controlled_port=int(0.35*store_gp) setpoint=58.5 invert=False
"""


def charging(ctx):
    for adj in (True, False):
        R, M = build(ctx, CNS + 'speicherladesys', 'charging system',
                     **seg(adj))
        M.required(SP, SC, SK)
        M.general(EXT, {'sps_store_phw_SEG': ('ff_tes', 'rc', 'cw')})
        opened(M, WATER)


# ----------------------------------------------------------- space heating
FF = 'space_heating.loc[:,"theta_ff"]'
RF = 'space_heating.loc[:,"theta_rf"]'
SHF = ('(np.mean(space_heating.loc[:,"sh_dmd"])/(np.max(%s)-np.max(%s))*'
       '(75-50))' % (FF, RF))
SGF = ('(aux_gasboiler_pth/150e3/(aux_gasboiler_theta_ff-np.mean(%s))*15)'
       % RF)
HP = """
PipeWithPump pwp_sh_ff_SEG DN=DN40 F={S} time_series=space_heating.loc[:,"sh_dmd"]
PipeBranched pb_sh_rf_SEG DN=DN40 F={S}
PipeWith3wValve p3v_sh_tes_gb_SEG DN=DN40 F={S} lower_limit=0.01 upper_limit=0.99
PipeWith3wValve p3v_sh_tes_rf_SEG DN=DN32 F={S} lower_limit=0.01 upper_limit=0.99
Pipe p_sh_gasb_ff_SEG DN=DN50 F={G}
HeatedPipe ph_sh_gasb_SEG DN=DN125 F={G} no_control=False lower_limit=0 upper_limit=aux_gasboiler_pth
""".format(S=SHF, G=SGF)
HC = """
pwp_sh_ff_SEG;out BoundaryCondition;BC_sh_theta_ff_SEG
BoundaryCondition;BC_sh_theta_rf_SEG pb_sh_rf_SEG;in
pb_sh_rf_SEG;out RP;rp
p3v_sh_tes_gb_SEG;AB pwp_sh_ff_SEG;in
p3v_sh_tes_rf_SEG;AB p3v_sh_tes_gb_SEG;B
FP;fp p3v_sh_tes_rf_SEG;A
p3v_sh_tes_rf_SEG;B pb_sh_rf_SEG;rf_to_valve
p3v_sh_tes_gb_SEG;A p_sh_gasb_ff_SEG;out
p_sh_gasb_ff_SEG;in ph_sh_gasb_SEG;out
ph_sh_gasb_SEG;in pb_sh_rf_SEG;rf_to_gb
"""
HK = """
PID c_sh_3v_tesrf_SEG actuator="p3v_sh_tes_rf_SEG" controlled_part="p3v_sh_tes_rf_SEG" controlled_port=5 actuator_port="A" process_CV_mode="part_specific" invert=False
PID c_sh_3v_tesgb_SEG actuator="p3v_sh_tes_gb_SEG" controlled_part="p3v_sh_tes_gb_SEG" controlled_port=2 actuator_port="A" process_CV_mode="part_specific" invert=False
PID c_sh_gasb_pth_SEG actuator="ph_sh_gasb_SEG" process_CV_mode="direct" CV_saturation=(0,aux_gasboiler_pth) controlled_part="ph_sh_gasb_SEG" controlled_port=4 setpoint=aux_gasboiler_theta_ff master_type="controller" master_controller="c_sh_3v_tesgb_SEG" dependency_kind="concurrent" invert=False
"""


def heating(ctx):
    for adj in (True, False):
        R, M = build(ctx, CNS + 'space_heating', 'space heating',
                     segment_name='SEG', configuration='4w_valve',
                     adjust_pipes=adj, tes_ff_connector=KW({'FP': 'fp'}),
                     tes_rf_connector=KW({'RP': 'rp'}))
        M.required(HP, HC, HK)
        M.general(EXT, {})
        opened(M, {'BC_sh_theta_ff_SEG': ('True', 'np.mean(%s)' % FF),
                   'BC_sh_theta_rf_SEG': ('False', RF)})


PARTS = [('gas boiler', gasboiler), ('chp', chp_new), ('chp (old)', chp_old),
         ('drinking water', lowex), ('charging system', charging),
         ('space heating', heating)]
