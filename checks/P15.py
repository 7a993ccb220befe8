"""P15 conversions between geographic, cartesian and local coordinates"""
from .common import *
from sa.equiv import spread, compare_cases
from fractions import Fraction

EXPLANATION = ('Static equivalence: value numbers of the coordinate conversions, for arrays and scalars, compared in canonical form with their definitions; '
               'iterative conversions are compared step by step (initial value, one step, result).')
M = 'pyTMD.spatial.'
EPS = T('attr', 'eps', T('call', 'numpy.finfo', T('ext', 'numpy.float64')))


def run(ctx):
    ctx.rule('conversion', 'each conversion is its definition', 35)
    ctx.rule('inverse', 'local coordinates converted to geocentric and back are unchanged', 3)
    ctx.rule('ellipsoid', 'latitude and height on another ellipsoid', 2)
    ctx.rule('options', 'methods and metrics are accepted in any case, unknown ones rejected; documented defaults', 12)
    ax = dict(a_axis=S('a_axis'), flat=S('flat'))
    pos = ['a_axis', 'a1', 'a2']

    def ndim(k):
        def hook(I, fn, args, kws, st, node):
            if fn.op == 'ext' and fn.args[0] == 'numpy.ndim':
                return C(k)
            return None
        return hook

    def size(I, fn, args, kws, st, node):
        if fn.op == 'ext' and fn.args[0] == 'len':
            return C(2)
        return None

    def go(name, spec, kw=None, skw=None, names=None, rule='conversion', tag='', fold=True, opaque=(), **nfk):
        q = M + name
        params = ctx.repo.func(q).params()
        for rank, scalars in ((1, ()), (0, params)):
            key = name + tag + ('' if rank else ':scalar')
            with ctx.case(key):
                a = value(ctx, q, kwargs=kw or {}, opaque=opaque, on_call=ndim(rank))
                b = value(ctx, 'spec.geometry.' + spec, kwargs=skw or {}, opaque=opaque)
                compare_all(ctx, rule, key, a, b, NF(positive=pos, scalars=scalars + [M + 'to_cartesian'] if scalars else (), fold=fold, **nfk), where(ctx, q), names=names)
    XYZ = ('x', 'y', 'z')
    LLH = ('lon', 'lat', 'height')
    go('to_cartesian', 'cartesian', names=XYZ)
    go('to_sphere', 'sphere', names=('lon', 'lat', 'rad'))
    eps = dict(eps=S('eps'), iterations=C(0))
    for m, kw in (('moritz', eps), ('bowring', eps), ('zhu', {})):
        go('to_geodetic', 'geodetic_' + m, kw=dict(kw, method=C(m)), names=LLH, tag=':' + m, fold=False)
    ENU = ('E', 'N', 'U')
    cart = [M + 'to_cartesian']
    go('to_ENU', 'enu', names=ENU, opaque=cart)
    go('from_ENU', 'xyz', names=XYZ, opaque=cart)
    go('to_horizontal', 'horizontal', names=('alpha', 'phi', 'D'))
    go('to_zenith', 'zenith', opaque=[M + 'to_ENU'])
    go('compute_delta_h', 'delta_h')
    go('wrap_longitudes', 'wrap')
    go('to_dms', 'dms', names=('degree', 'minute', 'second'))
    go('from_dms', 'degrees_of')
    for metric in ('distance', 'area'):
        go('scale_factors', 'scale', kw=dict(metric=C(metric)), skw=dict(metric=C(metric)), tag=':' + metric)
    with ctx.case('round trip'):
        a = value(ctx, 'spec.geometry.roundtrip', opaque=cart, on_call=ndim(1))
        ctx.analysed(M + 'to_ENU', M + 'from_ENU')
        compare_all(ctx, 'inverse', 'to_ENU(from_ENU)', a, T('tuple', S('E'), S('N'), S('U')), NF(), where(ctx, M + 'to_ENU'), names=ENU)
    f = 'convert_ellipsoid'
    with ctx.case(f):
        it = dict(itmax=C(0), eps=S('eps'))
        I = Interp(ctx.repo)
        L = lambda k: T('list', S(k + '0'), S(k + '1'))
        a = spread(value(ctx, M + f, kwargs=dict(it, phi1=L('phi'), h1=L('h')), on_call=size))
        pair = a.op in ('tuple', 'list') and len(a.args) == 2
        ctx.ob('ellipsoid', f'{f}:pair', pair, f'returns {show(a, 2)}', where(ctx, M + f))
        for k in (0, 1) if pair else ():
            b = spread(value(ctx, 'spec.geometry.ellipsoid', kwargs=dict(phi=S(f'phi{k}'), h=S(f'h{k}'))))
            for j, name in enumerate(('lat', 'height')):
                compare_cases(ctx, 'ellipsoid', f'{f}[{k}][{name}]', I.index(a.args[j], C(k), State({}, {}, ())), b.args[j], NF(positive=pos, fold=False, trig=False), where(ctx, M + f))
    # methods, metrics and documented defaults
    q = M + 'to_geodetic'
    steps = [M + '_moritz_iterative', M + '_bowring_iterative', M + '_zhu_closed_form']
    for m, call in zip(('moritz', 'bowring', 'zhu'), steps):
        for spelled in (m, m.upper(), m.capitalize()):
            with ctx.case(f'method={spelled}'):
                v = value(ctx, q, kwargs=dict(method=C(spelled)), opaque=steps)
                used = {x.args[0] for x in walk(v) if x.op == 'call' and x.args[0] in steps}
                ctx.ob('options', f'to_geodetic:method={spelled}', used == {call}, f'converted with {sorted(used)}', where(ctx, q))
    for f, name, good in (('to_geodetic', 'method', ()), ('scale_factors', 'metric', ())):
        with ctx.case(f'{f}:unknown {name}'):
            v = value(ctx, M + f, kwargs={name: C('unknown')}, opaque=steps)
            ctx.ob('options', f'{f}:unknown {name}', v.op == 'noreturn', 'rejected' if v.op == 'noreturn' else f'accepted: {show(v, 2)}'[:200], where(ctx, M + f))
    W = (Fraction(6378137), 1 / Fraction('298.257223563'))
    WGS = dict(a_axis=W[0], flat=W[1])
    want = {'to_cartesian': dict(WGS, h=0), 'to_geodetic': dict(WGS, method='bowring', iterations=10, eps=EPS),
            '_moritz_iterative': dict(WGS, iterations=10, eps=EPS), '_bowring_iterative': dict(WGS, iterations=10, eps=EPS),
            '_zhu_closed_form': WGS, 'to_ENU': dict(WGS, lon0=0, lat0=0, h0=0), 'from_ENU': dict(WGS, lon0=0, lat0=0, h0=0),
            'to_zenith': dict(WGS, lon0=0, lat0=0, h0=0), 'scale_factors': dict(flat=W[1], reference_latitude=70, metric='area'),
            'convert_ellipsoid': dict(eps=Fraction('1e-12'), itmax=10)}
    nf = NF()
    for f, ds in want.items():
        with ctx.case(f'defaults:{f}'):
            found = defaults(ctx, ctx.repo.func(M + f))
            for k, v in ds.items():
                x = found.get(k)
                same = x is not None and (sval(x) == v if isinstance(v, str) else x is v or v is not EPS and nf.equal(nf.nf(x), nf.const(v)))
                ctx.ob('options', f'default:{f}.{k}', same, f'default {k} = {show(x, 3) if x is not None else "none"}'[:200], where(ctx, M + f))
