"""P17 interpolation of gridded constants to points"""
import itertools
from .common import *
from sa.nf import UNARY, ERASE_METH
from sa.term import selector
from sa.equiv import spread, compare_cases

EXPLANATION = ('Static equivalence: the value and the mask given to a symbolic point by each interpolation method, compared in canonical form with a definition '
               'by cells, corner values and weights; library interpolators are uninterpreted, their nodes, values, options and query points are compared.')
M = 'pyTMD.interpolate.'
MASKED = T('ext', 'numpy.ma.MaskedArray')


def settled(t, **facts):
    """terms under decided conditions: masked, complex, empty"""
    def one(x):
        if x.op == 'cmp' and x.args[0] == 'isinstance' and x.args[2] is MASKED and 'masked' in facts:
            return TRUE if facts['masked'] else FALSE
        if x.op == 'call' and x.args[0] == 'numpy.iscomplexobj' and 'complex' in facts:
            return TRUE if facts['complex'] else FALSE
        if x.op == 'cmp' and x.args[0] == '==' and C(0) in x.args and any(y.op == 'len' for y in x.args if isinstance(y, T)) and 'empty' in facts:
            return TRUE if facts['empty'] else FALSE
        if x.op == 'call' and x.args[0] in ('numpy.ndim', 'ndim') and x.args[1].op == 'idx' and x.args[1].args[0].op == 'call' and x.args[1].args[0].args[0] == 'numpy.meshgrid':
            return C(2)
        if x.op == 'cmp' and x.args[0] == '==' and num(x.args[1]) is not None and num(x.args[2]) is not None:
            return TRUE if num(x.args[1]) == num(x.args[2]) else FALSE
        if x.op == 'attr' and x.args[0] in ('data', 'mask', 'real', 'imag'):
            return getattr_term(x.args[1], x.args[0])
        if x.op == 'idx' and x.args[1] is C(0) and single(x.args[0]):
            return x.args[0]
        if x.op == 'idx' and (x.args[0] in (FALSE, C(0)) or x.args[0].op == 'call' and x.args[0].args[0] == 'numpy.zeros_like' and not facts.get('masked')):
            return FALSE
        if x.op == 'call' and x.args[0] in ('numpy.column_stack', 'numpy.stack') and columns_of(x):
            return T('idx', T('ext', 'numpy.c_'), T('tuple', *columns_of(x)))
        if x.op == 'meth' and x.args[0] == '__call__':
            return T('callv', *x.args[1:])
        if x.op == 'callv' and x.args[-1] is T('kw', 'grid', FALSE):
            return T('meth', 'ev', *x.args[:-1])
        if x.op in ('and', 'or', 'not'):
            return {'not': tnot, 'and': tand, 'or': tor}[x.op](*x.args)
        return ite(*x.args) if x.op == 'ite' else x
    return rewrite(t, one)


def single(t):
    """arithmetic of elements at the one grid cell containing a point"""
    if t.op == 'idx':
        return any(y.op == 'call' and y.args[0] == 'numpy.nonzero' for y in walk(t.args[1]))
    if t.op == 'meth' and t.args[0] in ERASE_METH:
        return single(t.args[1])
    return (t.op in NF.ELEM or t.op == 'call' and t.args[0] in UNARY) and any(single(y) for y in t.args if isinstance(y, T))


def content(t):
    """the values which an array has been filled with"""
    while t.op == 'fill':
        t = t.args[1]
    return t


def part(v, name):
    """real or imaginary part assigned to an array of values"""
    while v.op in ('setattr', 'fill'):
        if v.op == 'setattr' and v.args[1] == name:
            return content(v.args[2])
        v = v.args[0] if v.op == 'setattr' else v.args[1]
    return getattr_term(v, name)


def library(ctx, rule, name, spec, options, opts):
    q = M + name
    v = value(ctx, q, kwargs=opts)
    full = {**{k: C(x) for k, x in options.items()}, **opts}
    for masked in (True, False):
        for cplx in ((True, False) if name == 'spline' else (None,)):
            facts = dict(masked=masked) if cplx is None else dict(masked=masked, complex=cplx)
            data, mask = settled(getattr_term(v, 'data'), **facts), settled(getattr_term(v, 'mask'), **facts)
            tag = f'{name}({", ".join(opts)})[{"masked" if masked else "plain"}{"" if cplx is None else " complex" if cplx else " real"}]'
            idata = S('idata')
            values = T('attr', 'data', idata) if masked else idata
            invalid = T('attr', 'mask', idata) if masked else T('call', 'numpy.zeros_like', idata)
            nf = NF(complex_syms=('idata',), keep=('T',))
            for field in (('real', 'imag') if cplx else ('values',)):
                x = T('attr', field, values) if cplx else values
                k = dict(values=x, invalid=invalid, **full)
                if name == 'regulargrid':
                    k['fill_value'] = S('fill_value')
                want = settled(value(ctx, spec, kwargs=k))
                have = part(data, field) if cplx else content(data)
                compare(ctx, rule, f'{tag}.{field}', have, want.args[0], nf, where(ctx, q))
            compare(ctx, rule, f'{tag}.mask', content(mask), want.args[1], nf, where(ctx, q))


def run(ctx):
    ctx.rule('bilinear', 'weighted mean of the valid corners of the cell; exact at corners; masked outside', 2)
    q = M + 'bilinear'
    p = S('%p')
    with ctx.case('bilinear'):
        v = value(ctx, q)
        for masked in (True, False):
            values = T('attr', 'data', S('idata')) if masked else S('idata')
            invalid = T('attr', 'mask', S('idata')) if masked else T('call', 'numpy.zeros_like', S('idata'))
            k = dict(x=T('idx', S('lon'), p), y=T('idx', S('lat'), p), values=values, invalid=invalid)
            b = settled(spread(value(ctx, 'spec.interpolation.bilinear_point', kwargs=k)), masked=masked)
            nf = NF(scalars=('fill_value',))
            for name, j in (('data', 0), ('mask', 1)):
                a = nf.elem(settled(getattr_term(v, name), masked=masked), p)
                compare_cases(ctx, 'bilinear', f'bilinear[{"masked" if masked else "plain"}].{name}', a, b.args[j], nf, where(ctx, q))

    ctx.rule('spline', 'splines of values and mask over (longitude, latitude); both parts of complex values', 10)
    for opts in ({}, dict(kx=S('kx'), ky=S('ky'))):
        with ctx.case('spline'):
            library(ctx, 'spline', 'spline', 'spec.interpolation.spline', dict(kx=1, ky=1), opts)
    ctx.rule('regulargrid', 'values and mask over (latitude, longitude); invalid outside of the grid', 8)
    for opts in ({}, dict(method=S('method'), bounds_error=S('bounds_error'))):
        with ctx.case('regulargrid'):
            library(ctx, 'regulargrid', 'regulargrid', 'spec.interpolation.regulargrid', dict(bounds_error=False, method='linear'), opts)

    ctx.rule('extrapolate', 'nearest valid neighbour within the cutoff distance, in kilometers for geographic grids; masked otherwise', 20)
    for geographic in (True, False):
        with ctx.case('extrapolate'):
            neighbour(ctx, geographic)


def onmesh(t):
    """grids of coordinates as the coordinates of row %i and column %j"""
    def one(x):
        if x.op == 'idx' and x.args[0].op == 'call' and x.args[0].args[0] == 'numpy.meshgrid' and len(x.args[0].args) == 3 and num(x.args[1]) in (0, 1):
            k = int(num(x.args[1]))
            return T('idx', x.args[0].args[1 + k], S('%j' if k == 0 else '%i'))
        if x.op == 'idx' and x.args[0].op == 'cmp':
            return x
        if x.op == 'call' and x.args[0] in ('numpy.atleast_1d', 'numpy.copy', 'numpy.ravel') and len(x.args) == 2:
            return x.args[1]
        return ite(*x.args) if x.op == 'ite' else x
    return rewrite(t, one)


def neighbour(ctx, geographic):
    q = M + 'extrapolate'
    tag = 'extrapolate[geographic]' if geographic else 'extrapolate[projected]'
    w = where(ctx, q)
    idata = S('idata')
    cart = ['pyTMD.spatial.to_cartesian']
    v = value(ctx, q, kwargs={'is_geographic': TRUE if geographic else FALSE}, opaque=cart)
    data, mask = (settled(getattr_term(v, k), empty=False) for k in ('data', 'mask'))
    queries = {x for x in walk(data) if x.op == 'meth' and x.args[0] == 'query'}
    trees = {x for x in walk(data) if x.op == 'call' and x.args[0].split('.')[-1] in ('cKDTree', 'KDTree')}
    if len(queries) != 1 or len(trees) != 1:
        ctx.ob('extrapolate', tag, False, f'{len(queries)} queries of {len(trees)} trees where one of each is required', w)
        return
    (Q,), (tree,) = queries, trees
    nf = NF(scalars=('fill_value', 'cutoff', '%i', '%j'))
    near, dist = T('attr', 'nearest', Q), T('attr', 'distance', Q)

    # nodes of the tree
    nodes = tree.args[1]
    cols = columns_of(nodes)
    sels = {c.args[1] for c in cols if c.op == 'idx'}
    ctx.ob('extrapolate', tag + '.nodes', len(sels) == 1 and all(c.op == 'idx' for c in cols), f'{len(cols)} coordinates with {len(sels)} selections of grid points', w)
    if len(sels) != 1:
        return
    sel, = sels
    lon, lat, ilon, ilat = (S(k) for k in ('lon', 'lat', 'ilon', 'ilat'))
    gx, gy = T('idx', ilon, S('%j')), T('idx', ilat, S('%i'))
    if geographic:
        want = value(ctx, 'spec.interpolation.cartesian_km', kwargs=dict(lon=gx, lat=gy), opaque=cart).args
        out = value(ctx, 'spec.interpolation.cartesian_km', opaque=cart).args
    else:
        want, out = (gx, gy), (lon, lat)
    have = [onmesh(c.args[0]) for c in cols]
    # query points in the order of the coordinates of the nodes
    points = [x for x in Q.args[2:] if x.op != 'kw']
    kw = {x.args[0]: x.args[1] for x in Q.args[2:] if x.op == 'kw'}
    kw.update({k: x for k, x in zip(('k', 'eps', 'p', 'distance_upper_bound'), points[1:])})
    outs = [onmesh(c) for c in columns_of(points[0])]
    ctx.ob('extrapolate', tag + '.dimension', len(have) == len(outs) == len(want), f'{len(have)} coordinates of nodes and {len(outs)} of points', w)
    if len(have) == len(outs) == len(want):
        perm = next((p for p in itertools.permutations(range(len(want))) if all(nf.equal(nf.nf(h), nf.nf(want[k])) for h, k in zip(have, p))), range(len(want)))
        for h, o, k in zip(have, outs, perm):
            compare(ctx, 'extrapolate', f'{tag}.node[{k}]', h, want[k], nf, w)
            compare(ctx, 'extrapolate', f'{tag}.point[{k}]', o, out[k], nf, w)
    ctx.ob('extrapolate', tag + '.k', num(kw.get('k', C(1))) == 1, 'one neighbour', w)
    ctx.ob('extrapolate', tag + '.cutoff', kw.get('distance_upper_bound') is S('cutoff') and num(kw.get('p', C(2))) == 2 and num(kw.get('eps', C(0))) == 0,
           'distance within the cutoff', w)

    # selected nodes: every valid point which can be within the cutoff distance
    cond = selector(sel)
    parts = cond.args if cond.op == 'and' else (cond,)
    found = set()
    data_ = lambda t: nf.nf(t)
    for c in parts:
        c = onmesh(c)
        B = nf.bool(c)
        if nf.equal(B, nf.bool(tnot(T('attr', 'mask', idata)))):
            found.add('mask')
        elif nf.equal(B, nf.bool(T('call', 'numpy.isfinite', T('attr', 'data', idata)))):
            found.add('finite')
        elif nf.equal(B, nf.const(1)):
            pass
        elif c.op == 'cmp' and c.args[0] in ('<', '<='):
            d = nf.sub(nf.nf(c.args[2]), nf.nf(c.args[1]))
            ok = False
            for X, x in zip(want, out):
                for y in (T('sub', X, T('call', 'numpy.min', x)), T('sub', T('call', 'numpy.max', x), X)):
                    e = nf.sub(d, nf.nf(y))
                    ok = ok or len(e) == 1 and next(iter(e.values())) >= 1 and nf.equal(e, nf.scale(nf.nf(S('cutoff')), next(iter(e.values()))))
            ctx.ob('extrapolate', f'{tag}.bounds', ok, f'grid points further than the cutoff distance: {nf.show(d, 3)[:300]}', w)
        else:
            ctx.ob('extrapolate', f'{tag}.selection', False, f'excludes valid grid points: {show(c, 4)[:300]}', w)
    ctx.ob('extrapolate', tag + '.valid', found == {'mask', 'finite'}, f'neighbours are restricted by {sorted(found)}', w)

    # value and mask of a point
    values = T('idx', T('attr', 'data', idata), sel)
    some = T('call', 'numpy.any', cond)

    def one(x):
        if x.op == 'idx' and x.args[0] is Q and num(x.args[1]) == 0:
            return dist
        if x.op == 'idx' and x.args[0] in (values, T('idx', idata, sel)):
            i = x.args[1]
            if i.op == 'idx' and i.args[0].op == 'idx' and i.args[0].args[0] is Q and num(i.args[0].args[1]) == 1:
                return T('idx', near, i.args[1])
            if i.op == 'idx' and i.args[0] is Q and num(i.args[1]) == 1:
                return near
        return x
    data, mask = (rewrite(k, one) for k in (data, mask))
    # (the selection of finite distances is written with the distances themselves)
    data, mask = (rewrite(k, one) for k in (data, mask))
    for c, name in ((TRUE, 'neighbours'), (FALSE, 'no neighbours')):
        put = lambda t: settled(rewrite(t, lambda x: c if x is some else x))
        d, m = (nf.elem(put(k), S('%p')) for k in (data, mask))
        inside = T('call', 'numpy.isfinite', T('idx', dist, S('%p'))) if c is TRUE else FALSE
        compare_cases(ctx, 'extrapolate', f'{tag}.mask[{name}]', m if m is not None else put(mask), tnot(inside), nf, w)
        if c is TRUE:
            compare_cases(ctx, 'extrapolate', f'{tag}.data[{name}]', ite(inside, d, C(0)), ite(inside, T('idx', near, S('%p')), C(0)), nf, w)


def columns_of(t):
    """columns of a two-dimensional array of coordinates"""
    if t.op == 'idx' and t.args[0] is T('ext', 'numpy.c_') and t.args[1].op == 'tuple':
        return t.args[1].args
    if t.op == 'call' and t.args[0] == 'numpy.column_stack' and len(t.args) == 2 and t.args[1].op in ('tuple', 'list'):
        return t.args[1].args
    if t.op == 'call' and t.args[0] == 'numpy.stack' and len(t.args) == 3 and t.args[1].op in ('tuple', 'list') and num(t.args[2].args[1]) in (1, -1):
        return t.args[1].args
    if t.op == 'attr' and t.args[0] == 'T' and t.args[1].op == 'call' and t.args[1].args[0] in ('numpy.array', 'numpy.vstack', 'numpy.stack'):
        return t.args[1].args[1].args
    return ()
