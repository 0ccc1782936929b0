#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [-v]: decide one property from the
source in /repo.  exit 0 held / 1 VIOLATION / 2 analysis broken."""
import argparse
import importlib
import json
import os
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def load_known():
    out = []
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        out = json.load(open(p))
    return out


def decide(pid, prog=None, tier='quick', verbose=False):
    from sa import spec, vg
    from sa.loader import AnalysisBroken
    mod = importlib.import_module('props.' + pid.lower())
    ctx = spec.Ctx(pid, prog, tier, verbose)
    for name, part in mod.PARTS:
        try:
            part(ctx)
        except AnalysisBroken:
            raise
        except (vg.Blowup, RecursionError, KeyError, TypeError, IndexError,
                AttributeError, ValueError, AssertionError) as e:
            if verbose:
                print(traceback.format_exc(limit=-6, chain=False))
            ctx.record(name, 'undecided', 'analysis gave up: {} {}'.format(
                type(e).__name__, str(e)[:200]))
    return ctx, mod


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--repo', default='/repo')
    a = ap.parse_args()
    if a.selftest:
        from sa.loader import Program
        print('{} modules parsed'.format(len(Program(a.repo).modules)))
        return 0
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    t0 = time.time()
    from sa.loader import AnalysisBroken, Program
    try:
        ctx, mod = decide(a.pid, Program(a.repo), a.tier, a.v)
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property={} {}'.format(a.pid, e))
        return 2
    known = [k for k in load_known() if k.get('status') == 'known'
             and k['property'] == a.pid]
    viol = [o for o in ctx.obs if o['status'] == 'violated']
    und = [o for o in ctx.obs if o['status'] == 'undecided']
    dis = [o for o in ctx.obs if o['status'] == 'discharged']
    new = []
    for o in viol:
        k = [x for x in known if x['label'] == o['label'] and
             x.get('match', '') in o['detail'] + ' ' + o['loc']]
        if k:
            print('KNOWN-FINDING: property={} {}'.format(a.pid, k[0]['what']))
        else:
            new.append(o)
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, a.pid + '.json')
    if os.path.exists(rp):
        os.remove(rp)
    extra = {}
    if a.tier == 'thorough':
        from sa import audit
        extra = audit.audit(a.pid, mod)
    ev = {
        'property': a.pid, 'tier': a.tier,
        'seed': int(os.environ.get('VERIF_SEED', '0') or 0),
        'level': mod.LEVEL,
        'coverage': dict({
            'obligations': len(ctx.obs), 'discharged': len(dis),
            'undecided': len(und), 'violated': len(viol),
            'functions_analysed': len(ctx.funcs),
            'calls_inlined': ctx.stats['calls_inlined'],
            'stores_tracked': ctx.stats['stores'],
            'branches_merged': ctx.stats['branches'],
            'loops_summarised': ctx.stats['loops'],
            'functions': sorted(ctx.funcs),
            'rule': mod.RULE,
            'obligation_list': [o['label'] + ' [' + o['rule'] + '] ' +
                                o['status'] for o in ctx.obs],
            'undecided_list': [o['label'] + ': ' + o['detail'][:300]
                               for o in und],
            'checker_cmd': 'python3 /verif/check.py {} --tier {}'.format(
                a.pid, a.tier),
            'trusted_base': [
                'Python ast', 'sa/loader.py (name resolution)',
                'sa/interp.py (value-flow construction)',
                'sa/vg.py (canonical value graph, 61-bit algebraic hash)',
                'required-behaviour texts in props/'],
            'explanation': mod.RULE,
        }, **extra),
        'wall_s': round(time.time() - t0, 2),
        'assumptions': mod.ASSUMPTIONS,
        'violations': len(new),
    }
    ev['coverage']['violation_list'] = [
        {'label': o['label'], 'where': o['loc'], 'detail': o['detail'][:2000]}
        for o in new]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', a.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('{}: {} obligations, {} discharged, {} undecided, {} violated; {} '
          'functions; {:.1f}s'.format(a.pid, len(ctx.obs), len(dis), len(und),
                                      len(viol), len(ctx.funcs),
                                      time.time() - t0))
    for o in und:
        print('UNDECIDED {} {}: {}'.format(o['label'], o['loc'],
                                           o['detail'][:300]))
    if new:
        with open(rp, 'w') as f:
            json.dump(new, f, indent=1)
        for o in new[:20]:
            print('  violated: {} at {}\n      {}'.format(
                o['label'], o['loc'], o['detail'][:600]))
        print('VIOLATION property={} replay={}'.format(a.pid, rp))
        return 1
    if len(ctx.obs) < mod.FLOOR and not und:
        print('ANALYSIS-BROKEN property={} only {} obligations (floor {})'
              .format(a.pid, len(ctx.obs), mod.FLOOR))
        return 2
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except MemoryError:
        print('ANALYSIS-BROKEN out of memory')
        sys.exit(2)
