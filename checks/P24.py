"""P24 constants of OTIS, ATLAS-compact and TMD3 models"""
from .common import *
from . import grids
from .P19 import LIBRARY, METHODS, settled, arrays, at_point, constants_at, case, tag
from sa.cells import Cells, lin
from sa.equiv import compare_cases, spread

EXPLANATION = ('Static equivalence: amplitude, phase, depth and masks that extraction gives a symbolic point, and the contents of containers, compared under every combination of their conditions '
               'with a definition by nodes, masks, interpolation and units; readers of files, interpolation methods and projections are uninterpreted, their arguments are compared. '
               'Elements of the grids of transports and of continued, shifted and cropped grids are compared at symbolic positions.')
M = 'pyTMD.io.OTIS.'
READERS = [M + k for k in ('read_otis_grid', 'read_atlas_grid', 'read_netcdf_grid', 'read_constituents', 'read_otis_elevation', 'read_atlas_elevation', 'read_otis_transport',
                           'read_atlas_transport', 'create_atlas_mask', 'combine_atlas_model', 'read_netcdf_file')]
PARTS = [M + k for k in ('_crop', '_extend_array', '_extend_matrix', '_mask_nodes', '_interpolate_zeta')]
NAMES = ('m2', 'k1')
FILES = T('list', S('m0'), S('m1'))


def named(I, f, args, kws, st, node):
    """names of the constituents of the files of the analysis"""
    if f.op == 'fn' and f.args[0] == M + 'read_constituents':
        t = I.opaque_call(I.repo.func(f.args[0]), args, kws, I.starkw, st)
        syms = {x.args[0] for x in walk(t) if x.op == 'sym'}
        names = ['m2'] if 'm0' in syms else ['k1'] if 'm1' in syms else NAMES
        return T('tuple', I.alloc(st, strs(names)), C(len(names)))
    return None


def parts(t):
    """conditions on nodes are taken before or after the grid is cropped and continued; coordinates do not depend on the field"""
    def given(x, v):
        return T('call', *[T('kw', 'input_matrix', v) if isinstance(a, T) and a.op == 'kw' and a.args[0] == 'input_matrix' else a for a in x.args])

    def moved(x, pick):
        f = next(a.args[1] for a in x.args if isinstance(a, T) and a.op == 'kw' and a.args[0] == 'input_matrix')
        if f.op == 'meth' and f.args[0] == 'astype' and f.args[1].op in ('not', 'and', 'or', 'cmp'):
            f = f.args[1]
        if f.op == 'ite':
            return ite(f.args[0], moved(given(x, f.args[1]), pick), moved(given(x, f.args[2]), pick))
        if f.op in ('not', 'and', 'or', 'cmp'):
            return T(f.op, *[moved(given(x, a), pick) if isinstance(a, T) and a.op != 'c' else a for a in f.args])
        return pick(x)

    def one(x):
        if x.op == 'call' and x.args[0] == M + '_extend_matrix':
            return moved(x, lambda y: y)
        if x.op == 'idx' and x.args[0].op == 'call' and x.args[0].args[0] == M + '_crop':
            if x.args[1] in (C(1), C(2)):
                return T('idx', given(x.args[0], NONE), x.args[1])
            return moved(x.args[0], lambda y: T('idx', y, C(0)))
        return x
    return rewrite(t, one)


SOURCES = {'OTIS': ('OTIS', C('file')), 'OTIS:list': ('OTIS', FILES), 'ATLAS': ('ATLAS', C('file')), 'TMD3': ('TMD3', C('file')), 'TMD3:flexure': ('TMD3', C('file'))}
AREAS = [dict(), dict(crop=TRUE, bounds=S('bounds')), dict(crop=TRUE, bounds=S('bounds'), buffer=S('buffer'))]


def files(kind):
    grid, file = SOURCES[kind]
    return dict(grid_file=S('grid_file'), model_file=file, projection=S('projection'), grid=C(grid), apply_flexure=C(kind.endswith('flexure')))


def evaluated(ctx, fn, opaque=LIBRARY + READERS + PARTS, **kw):
    return parts(settled(value(ctx, fn, kwargs=kw, opaque=opaque, on_call=named)))


def extremes(x):
    """the test of the convention of longitudes which a condition is: (minimum or maximum, of the points or the grid)"""
    if x.op == 'cmp' and x.args[0] == '<':
        for y, z in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
            if y.op == 'call' and y.args[0] in ('numpy.min', 'numpy.max') and num(z) is not None:
                return y.args[0][6:], y.args[1].op == 'idx' and y.args[1].args[0].op == 'meth' and y.args[1].args[0].args[0] == 'transform'
    return None


CONVENTIONS = [('', {('min', True): False, ('max', True): False}), (':west', {('min', True): True, ('max', False): True}),
               (':east', {('min', True): False, ('max', True): True, ('min', False): True}),
               (':east of the grid', {('min', True): True, ('max', False): False, ('max', True): False}), (':west of the grid', {('min', True): False, ('max', True): True, ('min', False): False})]


def situations(nf, *terms):
    """terms for models in geographic and in projected coordinates, continued across the seam or not, by the longitudes of points and grid"""
    def put(t, known):
        def one(x):
            if x.op == 'attr' and x.args[0] == 'is_geographic':
                return C(known['geographic'])
            if (x.op == 'call' and x.args[0] == 'numpy.isclose' or extremes(x)) and len(known) > 1 and plain(x):
                v = nf.vid(nf.bool(x))
                return C(known[v]) if v in known else x
            if x.op in ('not', 'and', 'or'):
                return {'not': tnot, 'and': tand, 'or': tor}[x.op](*x.args)
            return ite(*x.args) if x.op == 'ite' else x
        return rewrite(t, one)

    def plain(x):
        return not any(y.op == 'ite' for y in walk(x))
    yield 'projected', [put(t, dict(geographic=False)) for t in terms]
    geo = [put(t, dict(geographic=True)) for t in terms]
    ways = [('geographic', {})]
    for x in walk(geo[-1]):
        if x.op == 'call' and x.args[0] == 'numpy.isclose' and plain(x):
            v = nf.vid(nf.bool(x))
            ways = [('regional', {v: False}), ('global', {v: True})]
            break
    tests = {}
    for x in walk(geo[-1]):
        if extremes(x) and plain(x):
            tests.setdefault(extremes(x), nf.vid(nf.bool(x)))
    if set(tests) == {(m, points) for m in ('min', 'max') for points in (True, False)}:
        ways = [(n + m, {**k, **{tests[c]: b for c, b in w.items()}}) for n, k in ways for m, w in CONVENTIONS]
    for n, k in ways:
        yield n, [put(t, dict(k, geographic=True)) for t in geo]


def points(ctx, nf):
    q = M + 'extract_constants'
    at = where(ctx, q)
    for kind in SOURCES:
        for type in 'zuUvV':
            full = type in 'zu' and kind == 'OTIS'
            deep = ctx.tier == 'thorough' or full
            cases = [case('spline')] + [case(m, e) for m in METHODS for e in (False, True) if (m, e) != ('spline', False)]*full
            cases += [case('spline', True)]*(not full and (deep or kind == 'ATLAS' and type == 'u'))
            cases += [case('spline', crop=True)]*(deep or type in 'zuv' and ':' not in kind)
            cases += [case('linear', crop=True, bounds=S('bounds'), buffer=S('buffer'))]*(deep or kind == 'TMD3' and type == 'v')
            for k in cases:
                opts = dict(files(kind), type=C(type), cutoff=S('cutoff'), **k)
                label = f'{kind}:{type}:{tag(k)}'
                with ctx.case(label):
                    v = evaluated(ctx, q, **opts)
                    for i, name in enumerate(NAMES):
                        if i and k is not cases[0]:
                            continue
                        b = spread(evaluated(ctx, 'spec.otis.extracted', **opts, i=C(i), name=C(name), p=S('p')))
                        for g, (x, y) in situations(nf, constants_at(v, i), spread(b.args[0])):
                            compare_cases(ctx, 'points', f'{label}[{i}]:{g}', x, y, nf, where=at)
                        if not i:
                            d, m = spread(b.args[1]).args
                            for g, (x, y) in situations(nf, T('tuple', *at_point(v.args[2], S('p'))), T('tuple', ite(m, C(0), d), m)):
                                compare_cases(ctx, 'points', f'{label}:depth:{g}', x, y, nf, where=at)
                    compare(ctx, 'points', f'{label}:names', v.args[3], strs(NAMES), nf, where=at)
    old = dict(TYPE=('type', C('u')), METHOD=('method', C('bilinear')), EXTRAPOLATE=('extrapolate', TRUE), CUTOFF=('cutoff', S('cutoff')), GRID=('grid', C('TMD3')))
    with ctx.case('deprecated'):
        given = dict(grid_file=S('grid_file'), model_file=C('file'), projection=S('projection'))
        a = evaluated(ctx, q, **given, **{n: x for n, (_, x) in old.items()})
        b = evaluated(ctx, q, **given, **{n: x for n, x in old.values()})
        compare(ctx, 'points', 'deprecated', a, b, nf, at)


def containers(ctx, nf):
    q = M + 'read_constants'
    for kind in SOURCES:
        for type in 'zuUvV':
            for k in AREAS:
                opts = dict(files(kind), type=C(type))
                label = f'{kind}:{type}:{tag(k)}'
                with ctx.case(f'read:{label}'):
                    a = evaluated(ctx, 'spec.otis.held', **opts, **k)
                    ctx.analysed(q)
                    compare(ctx, 'containers', f'{label}:fields', a.args[0], strs(NAMES), nf, where(ctx, q))
                    area = dict(dict(crop=FALSE, bounds=NONE, buffer=C(0)), **k)
                    for i, name in enumerate(NAMES):
                        b = spread(evaluated(ctx, 'spec.otis.read', **opts, **area, i=C(i), name=C(name)))
                        for n, x, y in zip(('x', 'y', 'longitude', 'latitude', 'bathymetry', 'mask', 'crs'), a.args[1:8], b.args[:7]):
                            if not i:
                                compare(ctx, 'containers', f'{label}:{n}', x, y, nf, where(ctx, q))
                        for n in ('data', 'mask'):
                            compare(ctx, 'containers', f'{label}:{name}:{n}', arrays(getattr_term(a.args[8 + i], n)), arrays(getattr_term(b.args[7], n)), nf, where(ctx, q))


def transports(ctx, nf):
    """depth and mask of the nodes of transports: mean of the two adjacent nodes of elevations where both are wet"""
    g = S('g')
    k, q, r, s = (lin(S(n)) for n in 'kqrs')
    nx, ny = k.plus(q).plus(grids.ONE), r.plus(s).plus(grids.ONE)
    for seam in (False, True):
        with ctx.case(f'nodes:{seam}'):
            masks = value(ctx, M + '_mask_nodes', kwargs=dict(hz=g, is_global=C(seam)))
            depths = value(ctx, M + '_interpolate_zeta', kwargs=dict(hz=g, is_global=C(seam)))
            cells = Cells({g.id: (ny, nx)})
            at = lambda j, i: T('idx', g, T('tuple', grids.term(j), grids.term(i)))
            one, zero, end = grids.ONE, grids.Lin(), nx.plus(grids.ONE, -1)
            for name, n, here, there in (
                    ('u', 0, (r, k.plus(one)), (r, k)), ('u', 0, (r, zero), (r, end if seam else zero)),
                    ('v', 1, (r.plus(one), k), (r, k)), ('v', 1, (zero, k), (zero, k))):
                a, b = at(*here), at(*there)
                wet = tand(T('cmp', '<', C(0), a), T('cmp', '<', C(0), b))
                label = f'{name}:{"global" if seam else "regional"}:{"first" if zero in here else "inner"}'
                size = {('u', 0): nx.plus(one), ('v', 0): ny.plus(one)}
                wide = Cells({g.id: (ny.plus(one) if name == 'v' else ny, nx.plus(one) if name == 'u' else nx)}) if zero not in here else cells
                q1 = where(ctx, M + '_mask_nodes')
                q2 = where(ctx, M + '_interpolate_zeta')
                grids.compare_at(ctx, 'nodes', f'mask:{label}', wide, T('idx', masks, C(n)) if masks.op != 'tuple' else masks.args[n], list(here), ite(wet, C(1), C(0)), nf, q1)
                grids.compare_at(ctx, 'nodes', f'depth:{label}', wide, depths.args[n], list(here), ite(wet, T('div', T('add', a, b), C(2)), C(0)), nf, q2)


def run(ctx):
    ctx.rule('points', 'amplitude, phase, depth and masks of each constituent at each point, and the names of the constituents', 200)
    ctx.rule('containers', 'coordinates, depth, masks and fields of the constituents read into a container', 700)
    ctx.rule('nodes', 'depth and mask of each node of transports', 16)
    ctx.rule('grid', 'values and coordinates of each column of continued, shifted and cropped grids', 10)
    plain = NF()
    grids.extended(ctx, 'grid', 'OTIS', plain)
    grids.shifted(ctx, 'grid', 'OTIS', ('ix', 'x0'), plain)
    grids.cropped(ctx, 'grid', 'OTIS', ('ix', 'iy'), plain)
    transports(ctx, plain)
    nf = NF(scalars=('cutoff',))
    points(ctx, nf)
    containers(ctx, nf)
