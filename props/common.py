from sa import vg
from sa.vg import leaf
from sa.loader import AnalysisBroken
from . import model as M

SETUP_OPAQUE = ('_get_specs_n_props', '_chk_amb_temp', '_print_arg_errs',
                'calc_flow_length', 'get_plate_hex_geometry',
                'find_reynolds_correction', 'find_Reynolds_correction')


def input_names(ctx, target, preset=None):
    """the argument list of a part's differential, as built by its init_part"""
    key = ('inames', target)
    if key not in ctx.cache:
        R = ctx.run(target + '.init_part', no_inline=SETUP_OPAQUE,
                    preset=preset)
        v = R.get('self._input_arg_names_sorted')
        if v.atom is not None or v.p[0] != 't' or not all(
                x.atom is None and x.p[0] == 's' for x in v.p[2]):
            raise vg.Blowup()
        ctx.cache[key] = [x.p[1] for x in v.p[2]]
    return ctx.cache[key]


def star(ctx, target, attr='_input_args', preset=None):
    names = input_names(ctx, target, preset)

    def hook(I, v, st):
        if v.atom is not None:
            return None
        p = v.p
        if p[0] == 'r' and p[1][0] == 'a' and p[1][2] == attr and not p[2]:
            base = vg.num(p[1][1])
            return [I.getattr_leaf(base, n, st) for n in names]
        return None
    return hook
