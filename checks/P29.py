"""P29 former names of functions and options"""
import ast
from .common import *
from .P19 import LIBRARY

EXPLANATION = ('Static evaluation of every function and option that is kept under a former name: the call it results in (function, binding of the arguments and options, value returned) is compared with that of the '
               'current name; names are resolved by the last binding of their module.')
SPEC = 'spec.former.'
OPTIONS = ('EPSG', 'METHOD', 'MODEL', 'DIRECTORY')
# former function -> (reference, positional arguments, options)
COMPUTE = ['tide_masks', 'tide_elevations', 'LPET_elevations', 'LPT_displacements', 'OPT_displacements', 'SET_displacements']
TARGETS = ['pyTMD.compute.' + k for k in COMPUTE] + ['pyTMD.astro.doodson_arguments', 'pyTMD.spatial.scale_factors', 'pyTMD.io.IERS.read_binary_file']
C_ = 'pyTMD.compute_tide_corrections.'
XYT = ('x', 'y', 't')
FUNCTIONS = [('pyTMD.check_points.check_points', 'check_points', ('x', 'y'), OPTIONS)]
FUNCTIONS += [(C_ + f'compute_{n}_corrections', {'tide': 'ocean'}.get(n, n), XYT, ('EPSG', 'TIME', 'TYPE', 'FILL_VALUE')) for n in ('tide', 'LPET', 'LPT', 'OPT', 'SET')]
FUNCTIONS += [('pyTMD.astro.phase_angles', 'phase_angles', ('MJD',), ()), ('pyTMD.spatial.scale_areas', 'scale_areas', ('lat',), ('flat', 'reference_latitude', 'metric')),
              ('pyTMD.io.IERS.ocean_pole_tide', 'ocean_pole_tide', ('file',), ()), ]
TIME = dict(parse=(('d',), ()), parse_date_string=(('d',), ()), split_date_string=(('d',), ()), datetime_to_list=(('d',), ()), calendar_days=(('y',), ()),
            convert_datetime=(('d', 'e'), ('epoch',)), convert_delta_time=(('d',), ('epoch1', 'epoch2', 'scale')), convert_calendar_dates=(('y', 'm', 'd'), ('hour', 'epoch', 'scale')),
            convert_calendar_decimal=(('y', 'm'), ('day', 'hour', 'DofY')), convert_julian=(('j',), ('astype', 'format')))
EOP = dict(update_mean_pole=((), ('verbose', 'mode')), calculate_mean_pole=((), ('verbose', 'mode')), pull_pole_coordinates=(('f',), ('verbose',)), update_finals_file=((), ('username', 'timeout', 'mode')),
           iers_mean_pole=(('t',), ('convention', 'fill_value')), iers_daily_EOP=((), ('input_file',)), iers_polar_motion=(('t',), ('file', 'k', 's')))
NOTHING = ('update_mean_pole', 'calculate_mean_pole', 'update_finals_file')     # called for their effects
FUNCTIONS += [('pyTMD.time.' + k, k, *v) for k, v in TIME.items()] + [('pyTMD.eop.' + k, k, *v) for k, v in EOP.items()]
# options of the readers of constants
KEYS = dict(METHOD='method', EXTRAPOLATE='extrapolate', CUTOFF='cutoff')
READERS = {'OTIS': (dict(KEYS, TYPE='type', GRID='grid'), dict(grid_file=S('g'), model_file=S('m'), projection=S('EPSG'))), 'ATLAS': (dict(KEYS, TYPE='type', GZIP='compressed', SCALE='scale'), dict(grid_file=S('g'), model_files=T('list', S('m')))),
           'GOT': (dict(KEYS, GZIP='compressed', SCALE='scale'), dict(model_files=T('list', S('m')))), 'FES': (dict(KEYS, TYPE='type', VERSION='version', GZIP='compressed', SCALE='scale'), dict(model_files=T('list', S('m'))))}
GIVEN = dict(METHOD=('bilinear', 'spline', 'linear'), EXTRAPOLATE=(True, False), TYPE=('z', 'u', 'v'), GRID=('OTIS', 'ATLAS', 'TMD3'), GZIP=(True, False), VERSION=('FES2012', 'FES2014', 'EOT20'))


def run(ctx):
    ctx.rule('function', 'a function under its former name does what the current one does', 25)
    ctx.rule('correction', 'the wrapper for corrections computes the one that is asked for', 12)
    ctx.rule('option', 'an option under its former name has the effect of the current one', 30)
    for qual, ref, pos, options in FUNCTIONS:
        with ctx.case(qual):
            for given in (options, ()) if options else ((),):
                args, kw = [S('%' + p) for p in pos], {k: S('%' + k) for k in given}
                called = []

                def on_call(I, f, a, k, st, node):
                    if f.op == 'ext' and f.args[0].startswith('timescale.'):
                        called.append(T('call', f.args[0], *[I.rd(x, st) for x in a], *[T('kw', n, k[n]) for n in sorted(k)]))
                    return None
                a = value(ctx, qual, args=args, kwargs=dict(kw), opaque=TARGETS, on_call=on_call)
                mine, called = called, []
                b = value(ctx, SPEC + ref, args=args, kwargs=dict(kw), opaque=TARGETS, on_call=on_call)
                name = qual[6:] + (':' + ','.join(given) if given else '')
                if ref in NOTHING and qual.startswith('pyTMD.eop.'):
                    a, b = T('tuple', *mine), T('tuple', *called)
                a, b = (rewrite(t, lambda x: T(x.op, *[y for y in x.args if y is not T('star', S('*args'))]) if x.op == 'call' else x) for t in (a, b))
                compare(ctx, 'function', name, a, b, NF(), where(ctx, qual))
    with ctx.case('corrections'):
        for name, ref in (('ocean', 'ocean'), ('load', 'ocean'), ('LPET', 'LPET'), ('LPT', 'LPT'), ('OPT', 'OPT'), ('SET', 'SET')):
            for text in (name, name.swapcase()):
                kw = {k: S('%' + k) for k in ('EPSG', 'TIME')}
                a = value(ctx, C_ + 'compute_corrections', args=[S('%x'), S('%y'), S('%t')], kwargs=dict(kw, CORRECTION=C(text)), opaque=TARGETS)
                b = value(ctx, SPEC + ref, args=[S('%x'), S('%y'), S('%t')], kwargs=dict(kw), opaque=TARGETS)
                compare(ctx, 'correction', text, a, b, NF(), where(ctx, C_ + 'compute_corrections'))
    for model, (keys, files) in READERS.items():
        f = f'pyTMD.io.{model}.extract_constants'
        for old, new in keys.items():
            with ctx.case(f'{model}:{old}'):
                for v in GIVEN.get(old, (None,)):
                    v = S('%v') if v is None else C(v)
                    base = dict(ilon=S('lon'), ilat=S('lat'), **files)
                    fn = ctx.repo.func(f)
                    names = [x.arg for x in fn.node.args.args]
                    base = {k: x for k, x in base.items() if k in names}
                    helpers = [f'pyTMD.io.{model}.{x.name}' for x in fn.module.tree.body if isinstance(x, ast.FunctionDef) and x.name != 'extract_constants'] + LIBRARY
                    extra = {} if old == 'VERSION' or model != 'FES' else dict(version=C('FES2014'))
                    extra.update({} if old in ('EXTRAPOLATE', 'METHOD') else dict(extrapolate=C(old == 'CUTOFF'), method=C('linear')))
                    a = value(ctx, f, kwargs=dict(base, **extra, **{old: v}), opaque=helpers)
                    b = value(ctx, f, kwargs=dict(base, **extra, **{new: v}), opaque=helpers)
                    a, b = (rewrite(t, lambda x: x.args[1] if x.op == 'call' and x.args[0] in ('copy.copy', 'copy.deepcopy') and len(x.args) == 2 else x) for t in (a, b))
                    if a is not b:
                        compare(ctx, 'option', f'{model}:{old}={show(v)}', a, b, NF(), where(ctx, f))
                    else:
                        ctx.ob('option', f'{model}:{old}={show(v)}', True, '', where(ctx, f))

