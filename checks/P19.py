"""P19 constants of gridded models at points"""
from .common import *
from . import grids
from sa.equiv import compare_cases, spread
from sa.nf import strip_index
from sa.term import selector, boolterm

EXPLANATION = ('Static equivalence: amplitude, phase and masks that extraction gives a symbolic point, compared under every combination of its conditions with a '
               'definition by grid, continuation, interpolation and units; readers of files and interpolation methods are uninterpreted, their arguments are compared.')
I = 'pyTMD.interpolate.'
METHODS = ('bilinear', 'spline', 'linear')
LIBRARY = [I + k for k in ('bilinear', 'spline', 'regulargrid', 'extrapolate')]
READERS = {'pyTMD.io.FES.read_ascii_file': ('input_file', 'compressed'),
           'pyTMD.io.FES.read_netcdf_file': ('input_file', 'compressed', 'type', 'version'),
           'pyTMD.io.GOT.read_ascii_file': ('input_file', 'compressed'),
           'pyTMD.io.GOT.read_netcdf_file': ('input_file', 'compressed'),
           'pyTMD.io.ATLAS.read_netcdf_grid': ('input_file', 'variable', 'compressed'),
           'pyTMD.io.ATLAS.read_netcdf_file': ('input_file', 'variable', 'compressed')}


NAN = T('const', 'nan')


def masked(x, loose):
    """grid as data and mask, without the values stored at nodes which carry no value: finite ones do not reach valid points,
    and bilinear and nearest-neighbour interpolation (loose) leave out nodes which are masked or not a number"""
    while True:
        if x.op == 'ite':
            return ite(x.args[0], masked(x.args[1], loose), masked(x.args[2], loose))
        if loose and x.op == 'setattr' and x.args[1] == 'mask' and unmasked(x.args[0], x.args[2]):
            x = x.args[0]
            continue
        stays = x.op == 'setattr' and x.args[1] == 'data'
        v = x.args[2] if stays else x
        if v.op != 'store' or selector(v.args[1]) is not getattr_term(x.args[0], 'mask') or not (loose and (stays or v.args[2] is NAN) or stays and v.args[2] is not NAN):
            base = x.args[0] if x.op == 'setattr' and x.args[1] == 'mask' else x
            data = base.args[1] if base.op == 'call' and base.args[0] == 'numpy.ma.array' else getattr_term(x, 'data')
            return T('call', 'masked', arrays(data), arrays(getattr_term(x, 'mask')))
        x = x.args[0]


def unmasked(base, mask):
    """nodes which are not a number lose their mask"""
    v = base.args[2] if base.op == 'setattr' and base.args[1] == 'data' else base
    return v.op == 'store' and v.args[2] is NAN and mask is T('store', getattr_term(base, 'mask'), v.args[1], FALSE)


def arrays(t):
    """masked stores of whole arrays as gated values"""
    def one(x):
        if x.op == 'store' and boolterm(selector(x.args[1])):
            return ite(selector(x.args[1]), strip_index(x.args[2], x.args[1]), x.args[0])
        if x.op == 'fill':
            return x.args[1]
        return x
    return rewrite(t, one)


def dtype(x):
    """type of the elements of an array"""
    if x.op in ('setattr', 'store'):
        return dtype(x.args[0])
    if x.op == 'attr' and x.args[0] in ('data', 'dtype') or x.op == 'call' and x.args[0] in ('numpy.ma.array', 'numpy.copy', 'numpy.ma.copy'):
        return dtype(x.args[1])
    if x.op == 'ite':
        return ite(x.args[0], dtype(x.args[1]), dtype(x.args[2]))
    if x.op == 'call' and x.args[0] in ('numpy.ma.zeros', 'numpy.zeros'):
        for k in x.args:
            if isinstance(k, T) and k.op == 'kw' and k.args[0] == 'dtype':
                return dtype(k.args[1])
    return T('attr', 'dtype', x)


def settled(t):
    """model grids are masked arrays; arguments which do not reach the values of a reader; conversions of paths"""
    def one(x):
        if x.op == 'call' and x.args[0] in READERS:
            return T('call', x.args[0], *[k for k in x.args[1:] if k.op != 'kw' or k.args[0] in READERS[x.args[0]]])
        if x.op == 'call' and x.args[0] in LIBRARY:
            loose = x.args[0].split('.')[-1] in ('bilinear', 'extrapolate')
            args = [T('kw', 'idata', masked(k.args[1], loose)) if k.op == 'kw' and k.args[0] == 'idata' else k for k in x.args[1:]]
            return T('call', x.args[0], *[T('kw', k.args[0], arrays(k.args[1])) if k.op == 'kw' else arrays(k) for k in args if k.op != 'kw' or k.args[0] != 'fill_value'])
        if x.op == 'call' and x.args[0] == 'numpy.ma.isMA':
            return TRUE
        if x.op == 'cmp' and x.args[0] == '==' and any(y.op == 'attr' and y.args[0] == 'fill_value' for y in x.args[1:]):
            return FALSE    # values outside of a grid are masked
        if x.op == 'cmp' and x.args[0] == '==' and x.args[2] is C(0) and (x.args[1].op == 'setattr' or x.args[1] in GRIDS):
            return T('cmp', '==', getattr_term(x.args[1], 'data'), C(0))
        if x.op == 'idx' and x.args[1] is FULL:
            return x.args[0]
        if x.op == 'attr' and x.args[0] == 'dtype':
            return dtype(x.args[1])
        if x.op == 'attr' and x.args[0] in ('mask', 'data'):
            return getattr_term(x.args[1], x.args[0])
        if x.op == 'meth' and x.args[0] in ('expanduser', 'absolute', 'resolve'):
            return x.args[1]
        if x.op == 'call' and x.args[0] == 'pathlib.Path' and len(x.args) == 2:
            return x.args[1]
        return ite(*x.args) if x.op == 'ite' else x
    return rewrite(t, one)


def at_point(x, *at):
    """value of an output at a point, without the values stored where it is masked, and its mask"""
    at = T('tuple', *at) if len(at) > 1 else at[0]
    mask = T('idx', getattr_term(x, 'mask'), at)
    return ite(mask, C(0), T('idx', getattr_term(x, 'data'), at)), mask


def unscaled(x):
    """scalars have no mask"""
    if x is T('attr', 'mask', S('scale')) or x.op == 'idx' and x.args[0] is FALSE:
        return FALSE
    if x.op in ('or', 'and', 'not'):
        return {'not': tnot, 'and': tand, 'or': tor}[x.op](*x.args)
    return ite(*x.args) if x.op == 'ite' else x


def constants_at(v, i):
    """amplitude, phase and their masks of constituent i at a point"""
    (a, m), (b, n) = at_point(v.args[0], S('p'), C(i)), at_point(v.args[1], S('p'), C(i))
    return rewrite(T('tuple', a, b, m, n), unscaled)


def case(method, extrapolate=False, crop=False, bounds=NONE, buffer=NONE):
    return dict(crop=C(crop), bounds=bounds, buffer=buffer, method=C(method), extrapolate=C(extrapolate))


CASES = [case(m, e) for m in METHODS for e in (False, True)] + [
    case('spline', crop=True), case('linear', crop=True, bounds=S('bounds'), buffer=S('buffer'))]
SCALES = dict(cutoff=S('cutoff'), scale=S('scale'))
GRIDS = S('m2'), S('k1')
FILES = T('list', S('m0'), S('m1'))


def tag(k):
    return ','.join(f'{n}={show(x)}' for n, x in k.items() if x not in (NONE, FALSE))


def run(ctx):
    ctx.rule('FES', 'amplitude and phase of each constituent at each point, for every reader, interpolation method and crop', 12)
    ctx.rule('GOT', 'amplitude and phase of each constituent at each point, and the names of the constituents', 20)
    ctx.rule('ATLAS', 'amplitude, phase and depth at each point, and the names of the constituents', 30)
    ctx.rule('keywords', 'deprecated names of options and the name of a single file have the value of the current ones', 3)
    ctx.rule('grid', 'values and longitudes of each column of continued, shifted and cropped grids', 40)
    plain = NF()
    for M in ('FES', 'GOT', 'ATLAS'):
        grids.extended(ctx, 'grid', M, plain)
        grids.shifted(ctx, 'grid', M, ('ilon', 'lon0'), plain)
        grids.cropped(ctx, 'grid', M, ('ilon', 'ilat'), plain)
    nf = NF(scalars=('scale', 'cutoff'))

    def model(name, qual, spec, opts, k, columns, names=False, depth=False):
        label = f'{name}:{tag(k)}'
        with ctx.case(label):
            opq = LIBRARY + list(READERS)
            v = settled(value(ctx, qual, kwargs=dict(opts, **k, **SCALES), opaque=opq))
            for i in columns:
                b = settled(value(ctx, spec, kwargs=dict(opts, **k, **SCALES, i=C(i), p=S('p')), opaque=opq))
                if not names:
                    compare_cases(ctx, name.split(':')[0], f'{label}[{i}]', constants_at(v, i), spread(b), nf, where=where(ctx, qual))
                    continue
                b = spread(b)
                compare_cases(ctx, name.split(':')[0], f'{label}[{i}]', constants_at(v, i), spread(b.args[0]), nf, where=where(ctx, qual))
                compare(ctx, name.split(':')[0], f'{label}:name[{i}]', T('idx', v.args[-1], C(i)), b.args[-1], nf, where(ctx, qual))
                if depth and i == 0:
                    d, m = spread(b.args[1]).args
                    compare_cases(ctx, name.split(':')[0], f'{label}:depth', T('tuple', *at_point(v.args[2], S('p'))), T('tuple', ite(m, C(0), d), m), nf, where=where(ctx, qual))

    old = dict(METHOD=C('bilinear'), EXTRAPOLATE=TRUE, CUTOFF=S('cutoff'), GZIP=S('compressed'), SCALE=S('scale'))
    names = dict(METHOD='method', EXTRAPOLATE='extrapolate', CUTOFF='cutoff', GZIP='compressed', SCALE='scale', TYPE='type', VERSION='version')
    for qual, more, opts in (('pyTMD.io.FES.extract_constants', dict(TYPE=C('u'), VERSION=C('FES2012')), {}), ('pyTMD.io.GOT.extract_constants', {}, {}),
                             ('pyTMD.io.ATLAS.extract_constants', dict(TYPE=C('u')), dict(grid_file=S('grid_file')))):
        with ctx.case(f'{qual}:deprecated'):
            a = value(ctx, qual, kwargs=dict(opts, model_files=C('m0'), **old, **more), opaque=LIBRARY + list(READERS))
            b = value(ctx, qual, kwargs=dict(opts, model_files=T('list', C('m0')), **{names[k]: v for k, v in dict(old, **more).items()}), opaque=LIBRARY + list(READERS))
            compare(ctx, 'keywords', qual, settled(a), settled(b), nf, where(ctx, qual))

    for k in CASES:
        columns = (0, 1) if k is CASES[-2] else (0,)
        for version in ('FES2014',) if k is not CASES[2] else ('FES1999', 'FES2004', 'FES2012', 'FES2014', 'FES2022', 'EOT20', 'HAMTIDE11'):
            opts = dict(model_files=FILES, version=C(version), type=S('type'), compressed=S('compressed'))
            model(f'FES:{version}', 'pyTMD.io.FES.extract_constants', 'spec.models.FES', opts, k, columns)
        for grid in ('ascii', 'netcdf'):
            opts = dict(model_files=FILES, grid=C(grid), compressed=S('compressed'))
            model(f'GOT:{grid}', 'pyTMD.io.GOT.extract_constants', 'spec.models.GOT', opts, k, columns, names=True)
        for kind in ('z', 'u', 'U', 'v', 'V') if k is CASES[2] else ('z', 'u'):
            opts = dict(grid_file=S('grid_file'), model_files=FILES, type=C(kind), compressed=S('compressed'))
            model(f'ATLAS:{kind}', 'pyTMD.io.ATLAS.extract_constants', 'spec.models.ATLAS', opts, k, columns, names=True, depth=True)
