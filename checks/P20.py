"""P20 containers of model constituents"""
from .common import *
from .P19 import LIBRARY, READERS, METHODS, FILES, SCALES, settled, masked, arrays, at_point, constants_at, case, tag
from sa.equiv import compare_cases, compare_all, spread
from sa.interp import getattr_term

EXPLANATION = ('Static equivalence: contents of a container of two constituents read from symbolic files, constants interpolated from it at a symbolic point and '
               'its contents afterwards, compared with a definition; readers of files and interpolation methods are uninterpreted, their arguments are compared.')
NAMES = {'m0': 'm2', 'm1': 'k1'}
PARSERS = {'pyTMD.io.GOT.read_ascii_file': 3, 'pyTMD.io.GOT.read_netcdf_file': 3, 'pyTMD.io.ATLAS.read_netcdf_file': 1, 'pyTMD.io.model.model.parse_file': 0}
GRIDS = dict(ilon=S('ilon'), ilat=S('ilat'), lon=S('lon'), lat=S('lat'), m2=S('m2'), k1=S('k1'))


def named(I, f, args, kws, st, node):
    """readers name the constituents of the files of the analysis"""
    if f.op == 'exc':
        return FALSE
    if f.op != 'fn' or f.args[0] not in PARSERS:
        return None
    t = I.opaque_call(I.repo.func(f.args[0]), args, kws, I.starkw, st)
    for x in walk(t):
        if x.op == 'sym' and x.args[0] in NAMES:
            name = C(NAMES[x.args[0]])
            break
    else:
        return None
    if f.args[0].endswith('parse_file'):
        return name
    parts = [T('idx', t, C(i)) for i in range(PARSERS[f.args[0]])]
    return T('tuple', *parts, name)


def cells(I, f, args, kws, st, node):
    return I.alloc(st, args[0]) if f.op == 'fn' and f.args[0] == 'spec.models.array' else None


def shared(t):
    """the files of a model share a grid"""
    def one(x):
        if x.op == 'idx' and x.args[1] in (C(1), C(2)) and x.args[0].op == 'call' and x.args[0].args[0] in READERS:
            return rewrite(x, lambda y: S('m0') if y is S('m1') else y)
        return x
    return rewrite(t, one)


def run(ctx):
    ctx.rule('read', 'fields, coordinates and names of the constituents read into a container', 500)
    ctx.rule('interpolate', 'amplitude and phase of each constituent of a container at each point', 60)
    ctx.rule('unchanged', 'a container holds after an interpolation what it held before', 200)
    nf = NF(scalars=('scale', 'cutoff'))
    areas = [dict(), dict(crop=TRUE, bounds=S('bounds')), dict(crop=TRUE, bounds=S('bounds'), buffer=S('buffer')), dict(crop=TRUE)]
    kinds = [('GOT', dict(grid=C(g))) for g in ('ascii', 'netcdf')] + [('FES', dict(version=C(x), type=S('type'))) for x in ('FES1999', 'FES2004', 'FES2012', 'FES2014', 'FES2022', 'EOT20', 'HAMTIDE11')] + [
        ('ATLAS', dict(type=C(t), grid_file=S('grid_file'))) for t in ('z', 'u', 'U', 'v', 'V')]
    for model, opts in kinds:
        for k in areas:
            q = f'pyTMD.io.{model}.read_constants'
            label = ':'.join([model] + [x.args[0] for x in opts.values() if x.op == 'c'] + [tag(k)])
            with ctx.case(label):
                opts = dict(opts, compressed=S('compressed'))
                a = shared(settled(value(ctx, f'spec.models.held_{model}', kwargs=dict(opts, **k, model_files=FILES), opaque=list(READERS), on_call=named)))
                ctx.analysed(q)
                compare(ctx, 'read', f'{label}:fields', a.args[0], strs(('m2', 'k1')), nf, where(ctx, q))
                area = dict(dict(crop=FALSE, bounds=NONE, buffer=C(0)), **k)
                for i, f in enumerate(FILES.args):
                    b = spread(shared(settled(value(ctx, f'spec.models.read_{model}', kwargs=dict(opts, **area, model_file=f), opaque=list(READERS), on_call=named))))
                    for n, x, y in zip(('data', 'longitude', 'latitude', 'bathymetry', 'mask'), (a.args[3 + i],) + a.args[1:3] + a.args[5:], b.args):
                        parts = ((n, x, y),) if n != 'data' else [(m, arrays(getattr_term(x, m)), arrays(getattr_term(y, m))) for m in ('data', 'mask')]
                        for m, u, v in parts:
                            compare(ctx, 'read', f'{label}:{f.args[0]}:{m}', u, v, nf, where(ctx, q))
    cases = [case(m, e) for m in METHODS for e in (False, True)]
    kinds = [('GOT', {}), ('FES', {})] + [(m, dict(type=C(t))) for m in ('ATLAS', 'OTIS') for t in ('z', 'u', 'U', 'v', 'V')]
    for model, opts in kinds:
        deep = dict(depth=S('depth'), land=S('land')) if opts else {}
        if model == 'OTIS':
            deep['crs'] = S('crs')
        scales = {n: x for n, x in SCALES.items() if model != 'OTIS' or n != 'scale'}
        for k in cases if not opts or opts['type'] in (C('z'), C('u')) else cases[2:3]:
            k = {n: x for n, x in k.items() if n in ('method', 'extrapolate')}
            label = ':'.join([model] + [x.args[0] for x in opts.values()] + [tag(k)])
            q = f'pyTMD.io.{model}.interpolate_constants'
            with ctx.case(label):
                v = settled(value(ctx, f'spec.models.from_{model}', kwargs=dict(GRIDS, **deep, **opts, **k, **scales), opaque=LIBRARY, on_call=cells))
                ctx.analysed(q)
                given = {n: GRIDS[n] for n in ('ilon', 'ilat', 'lon', 'lat')}
                for i, n in enumerate(('m2', 'k1')):
                    ref = 'interpolated' + (f'_{model}' if deep else '')
                    b = spread(settled(value(ctx, f'spec.models.{ref}', kwargs=dict(given, **deep, **opts, hc=GRIDS[n], **k, **scales, p=S('p')), opaque=LIBRARY)))
                    if deep:
                        d, m = spread(b.args[1]).args
                        if i == 0:
                            compare_cases(ctx, 'interpolate', f'{label}:depth', T('tuple', *at_point(v.args[2], S('p'))), T('tuple', ite(m, C(0), d), m), nf, where=where(ctx, q))
                        b = spread(b.args[0])
                    compare_cases(ctx, 'interpolate', f'{label}:{n}', constants_at(v, i), b, nf, where=where(ctx, q))
                held = v.args[3 if deep else 2:]
                want = [strs(('m2', 'k1'))] + [S(n) for n in ('lon', 'lat', 'm2', 'k1') + (('depth', 'land') if deep else ())]
                for n, x, y in zip(('fields', 'longitude', 'latitude', 'm2', 'k1', 'bathymetry', 'mask'), held, want):
                    compare(ctx, 'unchanged', f'{label}:{n}', x, y, nf, where(ctx, q))
