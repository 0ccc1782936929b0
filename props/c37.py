"""C37 simulations are independent of each other and of their inputs"""
import ast

from sa.effects import Effects

LEVEL = 'other'
RULE = ('interprocedural alias and effect analysis of every function: no '
        'writes to module or class level objects, process settings, default '
        'values of parameters or arguments of public functions')
ASSUMPTIONS = ['functions of other libraries do not write to their arguments '
               'unless named in the analysis (container methods, inplace=, '
               'out=)', 'numba kernels in precomp_funs fill the arrays they '
               'are given by design',
               'functions only the package calls may fill the objects they '
               'are handed; what they write counts for their callers']
FLOOR = 400

SETTERS = {'np.seterr', 'np.seterrcall', 'np.random.seed', 'random.seed',
           'np.set_printoptions', 'os.chdir', 'os.putenv', 'os.umask',
           'pd.set_option', 'pd.reset_option', 'warnings.simplefilter',
           'warnings.filterwarnings', 'locale.setlocale', 'plt.style.use',
           'sys.setrecursionlimit', 'sys.settrace', 'nb.set_num_threads',
           'numpy.seterr', 'numpy.random.seed', 'pandas.set_option',
           'plt.rc', 'mpl.rc', 'np.random.set_state'}
SETVARS = {'os.environ', 'sys.path', 'sys.modules', 'mpl.rcParams',
           'plt.rcParams', 'matplotlib.rcParams', 'nb.config', 'pd.options'}

# what users call, even if the package calls it as well
API = {'__init__', 'init_part', 'init_controller', 'add_part', 'add_control',
       'add_open_port', 'assign_boundary_cond', 'connect_ports',
       'set_timeframe', 'set_solver', 'set_disksaving', 'initialize_sim',
       'start_sim', 'return_stored_data', 'temperature', 'massflow',
       'heat_meter', 'volumeflow'}


# tables handed in to collect design results (documented output)
RESULT = {'calculations_df'}


def text(e):
    if isinstance(e, ast.Name):
        return e.id.lstrip('_')
    if isinstance(e, ast.Attribute):
        return text(e.value) + '.' + e.attr
    return '?'


def effects(ctx):
    if not hasattr(ctx.prog, '_effects'):
        ctx.prog._effects = Effects(ctx.prog, skip=('_precompiled',))
    return ctx.prog._effects


def funcs(ctx):
    e = effects(ctx)
    for f in e.funcs:
        ctx.funcs.add(f.qual)
        yield e, f, e.sum(f)


def short(f):
    return f.qual.replace('multisim/', '').replace('.py:', ':')


def shared(ctx):
    for e, f, s in funcs(ctx):
        bad = [(r, n, how) for (r, d), (n, how) in s.writes.items()
               if r[0] in ('global', 'class')]
        for r, n, how in bad:
            ctx.record('%s: state shared by all simulations' % short(f),
                       'violated', '%s %s: %s' % (r[0], '.'.join(r[1:]), how),
                       e.loc(f, n), 'effect')
        if not bad:
            ctx.record('%s: state shared by all simulations' % short(f),
                       'discharged', '', e.loc(f, f.node), 'effect')


def process(ctx):
    for e, f, s in funcs(ctx):
        for n in ast.walk(f.node):
            what = None
            if isinstance(n, ast.Call):
                t = text(n.func)
                if t in SETTERS:
                    what = t
                elif isinstance(n.func, ast.Attribute) and n.func.attr in (
                        'update', 'append', 'insert', 'setdefault', 'pop') \
                        and text(n.func.value) in SETVARS:
                    what = t
            elif isinstance(n, (ast.Subscript, ast.Attribute)) and \
                    isinstance(n.ctx, (ast.Store, ast.Del)):
                t = text(n.value)
                if any(t == v or t.startswith(v + '.') for v in SETVARS):
                    what = t
            if what:
                ctx.record('%s: setting of the whole process' % short(f),
                           'violated', what, e.loc(f, n), 'effect')


def defaults(ctx):
    from sa.effects import mutable
    for e, f, s in funcs(ctx):
        a = f.node.args
        ps = a.posonlyargs + a.args
        dv = list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [
            (p, v) for p, v in zip(a.kwonlyargs, a.kw_defaults) if v]
        for p, v in dv:
            if not mutable(v):
                continue
            lab = '%s: default of %s' % (short(f), p.arg)
            hit = [x for (r, d), x in s.writes.items()
                   if r[0] in ('param', 'augparam') and r[1] == p.arg]
            kept = [(k, n) for k, (roots, n) in s.keeps.items()
                    for r, d in roots if r == ('param', p.arg)]
            kept = [(n, 'kept as %s.%s, which is written' % k)
                    for k, n in kept if written(e, k)]
            for n, how in hit + kept:
                ctx.record(lab, 'violated', how, e.loc(f, n), 'effect')
            if not hit + kept:
                ctx.record(lab, 'discharged', '', e.loc(f, f.node), 'effect')


def written(e, k):
    return any((('attr',) + k, d) in e.sum(g).writes
               for g in e.funcs for d in (0, 1))


def arguments(ctx):
    for e, f, s in funcs(ctx):
        if f.module.path.endswith('precomp_funs.py') or not (
                f.name in API or f.node not in e.called
                and not f.name.startswith('_')):
            continue
        lab = '%s: arguments of the caller' % short(f)
        hit = [(n, '%s: %s' % (r[1], how))
               for (r, d), (n, how) in s.writes.items()
               if r[0] == 'param' and r[1] not in RESULT]
        hit += [(n, '%s is kept as %s.%s, which is written' % (
            (r[1],) + k)) for k, (roots, n) in s.keeps.items()
            for r, d in roots if r[0] == 'param' and written(e, k)]
        for n, how in hit:
            ctx.record(lab, 'violated', how, e.loc(f, n), 'effect')
        if not hit:
            ctx.record(lab, 'discharged', '', e.loc(f, f.node), 'effect')


PARTS = [('shared state', shared), ('process settings', process),
         ('default values', defaults), ('arguments', arguments)]
