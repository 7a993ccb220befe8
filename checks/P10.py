"""P10 astronomical arguments, ephemerides and rotations"""
import hashlib
import json
from .common import *
from sa.report import ROOT

EXPLANATION = ('Static equivalence of the mean longitudes, Doodson and Delaunay arguments, obliquity, nutation, precession, sidereal time and approximate '
               'positions of sun and moon with their published definitions (rotation matrices as products of elementary rotations); the rows '
               'of the distributed series tables that the readers consume are compared with reference digests.')
A = 'pyTMD.astro.'
TS = 'timescale.time.Timescale'


def timescale_constants(t):
    """unit conversions of the time object are known constants"""
    deg = T('div', T('pi'), C(180))
    K = dict(deg2rad=deg, asec2rad=T('div', deg, C(3600)), masec2rad=T('div', deg, C(3600 * 10**6)), century=C(36525),
             tau=T('mul', C(2), T('pi')), deg2asec=C(3600), turndeg=C(360), turn=C(1), day=C(86400))

    def f(x):
        if x.op == 'attr' and x.args[0] in K and x.args[1].op == 'call' and x.args[1].args[0] == TS:
            return K[x.args[0]]
        if x.op == 'attr' and x.args[0] == 'T' and x.args[1].op == 'call' and x.args[1].args[0] == TS:
            return T('attr', 'centuries', x.args[1])
        return x
    return rewrite(t, f)


# rows of the series tables consumed by the readers: (field names, formats, digest of the rows)
TABLES = {
    '_parse_table_5_2e': ('tab5.2e.txt', 'Cs', 'Cc', ((53, 33), (90, 1))),
    '_parse_table_5_3a': ('tab5.3a.txt', 'As', 'Ac', ((22, 1320), (1348, 38))),
    '_parse_table_5_3b': ('tab5.3b.txt', 'Bs', 'Bc', ((22, 1037), (1065, 19))),
}


def run(ctx):
    ctx.rule('longitudes', 'mean longitudes of moon, sun, lunar perigee, node and solar perigee for each series', 15)
    ctx.rule('arguments', 'Doodson and Delaunay arguments', 20)
    ctx.rule('position', 'earth-fixed positions of sun and moon', 12)
    ctx.rule('rotation', 'rotation matrices are the products of elementary rotations through the conventional angles', 50)
    ctx.rule('angles', 'obliquity, nutation, equation of the equinoxes and sidereal time', 5)
    ctx.rule('standard', 'the transformation to earth-fixed coordinates has the conventional order of rotations', 1)
    ctx.rule('dispatch', 'the requested ephemerides are used whatever the case of the name', 6)
    ctx.rule('tables', 'the series tables are read from the rows and columns of the conventional tables', 9)
    M = S('MJD')
    nf = lambda: NF(shapes={'MJD': ['nt'], 'T': ['nt']})
    tc = timescale_constants

    def tup(rule, key, q, spec, kw, skw, opaque=(), names=None):
        with ctx.case(key):
            a = tc(value(ctx, A + q, kwargs=kw, opaque=[A + o for o in opaque]))
            b = tc(value(ctx, 'spec.astro.' + spec, kwargs=skw, opaque=[A + o for o in opaque]))
            compare_all(ctx, rule, key, a, b, nf(), where(ctx, A + q), names=names)

    for m, kw in (('MEEUS', dict(MEEUS=TRUE, ASTRO5=FALSE)), ('ASTRO5', dict(MEEUS=FALSE, ASTRO5=TRUE)), ('linear', dict(MEEUS=FALSE, ASTRO5=FALSE)),
                  ('default', defaults(ctx, ctx.repo.func(A + 'mean_longitudes')))):
        tup('longitudes', m, 'mean_longitudes', 'mean_longitudes', dict(MJD=M, **kw), dict(MJD=M, method=C(m)), names='shpnw')
    for e in (TRUE, FALSE):
        for c in (TRUE, FALSE):
            kw = dict(MJD=M, equinox=e, apply_correction=c)
            tup('arguments', f'doodson:{e}:{c}', 'doodson_arguments', 'doodson_arguments', kw, kw)
    tup('arguments', 'delaunay', 'delaunay_arguments', 'delaunay_arguments', dict(MJD=M), dict(MJD=M))
    tup('angles', 'obliquity', 'mean_obliquity', 'mean_obliquity', dict(MJD=M), dict(MJD=M))
    AT = dict(T=S('T'))
    tup('angles', 'nutation', '_nutation_angles', 'nutation_angles', AT, AT, opaque=['delaunay_arguments', '_parse_table_5_3a', '_parse_table_5_3b'])
    tup('angles', 'complement', '_eqeq_complement', 'eqeq_complement', AT, AT, opaque=['_parse_table_5_2e'])
    tup('angles', 'sidereal', 'gast', 'gast', AT, AT, opaque=['mean_obliquity', '_nutation_angles', '_eqeq_complement'])
    tup('position', 'sun', 'solar_approximate', 'solar', dict(MJD=M), dict(MJD=M), names='xyz')
    tup('position', 'moon', 'lunar_approximate', 'lunar', dict(MJD=M), dict(MJD=M), names='xyz')
    for q, body in (('solar_ephemerides', 'sun'), ('lunar_ephemerides', 'moon')):
        tup('position', 'jpl:' + body, q, 'ephemerides', dict(MJD=M, kernel=S('kernel')), dict(MJD=M, kernel=S('kernel'), body=C(body)), opaque=['itrs'], names='xyz')

    def matrix(rule, key, q, spec, kw, skw, opaque=(), third=True):
        with ctx.case(key):
            op = ['pyTMD.math.rotate' if o == 'rotate' else A + o for o in opaque]
            a = tc(value(ctx, q, kwargs=kw, opaque=op))
            b = tc(value(ctx, 'spec.astro.' + spec, kwargs=skw, opaque=op))
            for i in range(3):
                for j in range(3):
                    compare(ctx, rule, f'{key}[{i},{j}]', T('idx', a, T('tuple', C(i), C(j))), b.args[i].args[j],
                            nf(), where(ctx, q), 'element')

    for x in 'xyzZ':
        kw = dict(theta=S('T'), axis=C(x))
        matrix('rotation', 'rotate:' + x, 'pyTMD.math.rotate', 'rotate', kw, kw)
    kw = dict(mean_obliquity=S('MJD'), true_obliquity=S('T'), psi=S('psi'))
    matrix('rotation', 'nutation', A + '_nutation_matrix', 'nutation_matrix', kw, kw)
    matrix('rotation', 'precession', A + '_precession_matrix', 'precession_matrix', AT, AT)
    matrix('rotation', 'frame_bias', A + '_frame_bias_matrix', 'frame_bias_matrix', {}, {})
    matrix('rotation', 'polar_motion', A + '_polar_motion_matrix', 'polar_motion_matrix', AT, AT)
    op = ['mean_obliquity', '_nutation_angles', '_precession_matrix', '_nutation_matrix', '_frame_bias_matrix', '_polar_motion_matrix', 'gast', 'rotate']
    op = ['pyTMD.math.rotate' if o == 'rotate' else A + o for o in op]
    with ctx.case('itrs'):
        a = tc(value(ctx, A + 'itrs', kwargs=AT, opaque=op))
        five = tc(value(ctx, 'spec.astro.itrs', kwargs=AT, opaque=op))
        N0 = nf()
        names = dict(zip('PNBWG', five.args))
        keep = {}

        def symbol(x):
            if x.op == 'call' and str(x.args[0]).startswith('pyTMD.'):
                if x not in keep:
                    keep[x] = next((S(k) for k, t in names.items() if t.args[0] == x.args[0] and N0.eq(t, x)), x)
                return keep[x]
            return x
        a = rewrite(a, symbol)
        sh = dict(P=[C(3), C(3), 'nt'], N=[C(3), C(3), 'nt'], B=[C(3), C(3)], W=[C(3), C(3), 'nt'], G=[C(3), C(3), 'nt'])
        F = lambda n: value(ctx, 'spec.astro.' + n, args=[S(k) for k in 'PNBWG'])
        b, c = F('itrs_factors'), F('itrs_standard')
        E = [(i, j) for i in range(3) for j in range(3)]
        # either order is a composition of all five rotations; the order itself is judged separately
        m = NF(shapes=sh)
        elem = {e: T('idx', a, T('tuple', C(e[0]), C(e[1]))) for e in E}
        std = all(m.eq(elem[e], c.args[e[0]].args[e[1]]) for e in E)
        for e in E:
            compare(ctx, 'rotation', f'itrs{list(e)}', elem[e], (c if std else b).args[e[0]].args[e[1]], NF(shapes=sh), where(ctx, A + 'itrs'), 'element')
        ctx.ob('standard', 'itrs-order', std, 'W * R3(GAST) * N * P * B required', where(ctx, A + 'itrs'))
    want = json.loads((ROOT / 'spec' / 'series_digest.json').read_text(encoding='utf8'))
    for q, (name, sn, cs, blocks) in TABLES.items():
        with ctx.case(q):
            v = value(ctx, A + q)
            if v.op != 'tuple' or len(v.args) != 2:
                raise AnalysisBroken(f'{q}: does not return two tables')
            for x, (start, n) in zip(v.args, blocks):
                b = value(ctx, 'spec.astro.row', kwargs=dict(path=S('path'), start=C(start), n=C(n), sine=C(sn), cosine=C(cs), k=S('row')))
                compare(ctx, 'tables', f'{q}:{start}', filepath(T('idx', x, S('row')), name), b, NF(), where(ctx, A + q), 'row')
                lengths = {int(num(y.args[1])) for y in walk(x) if y.op == 'call' and y.args[0] in ('numpy.zeros', 'numpy.empty') and num(y.args[1]) is not None}
                ctx.ob('tables', f'{q}:{start}:length', lengths <= {n}, f'{lengths} rows allocated, {n} in the table', where(ctx, A + q))
        p = ctx.repo.root / 'pyTMD' / 'data' / name
        ctx.require(p.exists(), f'{p} not found')
        lines = p.read_text(encoding='utf8').split('\n')
        for start, n in blocks:
            bad = []
            for k, r in enumerate(lines[start:start + n]):
                try:
                    h = hashlib.sha256(' '.join(repr(float(t)) for t in r.split()).encode()).hexdigest()[:6]
                except ValueError:
                    h = None
                if h != want[f'{name}:{start}'][6 * k:6 * k + 6]:
                    bad.append(start + k + 1)
            ctx.ob('tables', f'{name}:{start}', not bad and len(lines) >= start + n, f'lines {bad[:10]} differ from the reference series', f'pyTMD/data/{name}')
    for q in ('solar_ecef', 'lunar_ecef'):
        b = q.split('_')[0]
        op = [A + b + '_approximate', A + b + '_ephemerides']
        for e, target in (('approximate', '_approximate'), ('APPROXIMATE', '_approximate'), ('JPL', '_ephemerides'), ('jpl', '_ephemerides')):
            with ctx.case(f'dispatch:{q}:{e}'):
                v = value(ctx, A + q, kwargs=dict(MJD=M, ephemerides=C(e)), opaque=op)
                ok = v.op == 'call' and v.args[0] == A + b + target and kwarg(v, 'MJD') is M
                ctx.ob('dispatch', f'{q}:{e}', ok, f'value {show(v, 3)}', where(ctx, A + q))
        with ctx.case(f'dispatch:{q}:default'):
            v, _ = Interp(ctx.repo, opaque=op, open_kwargs=False).run(ctx.repo.func(A + q), kwargs=dict(MJD=M))
            ctx.ob('dispatch', f'{q}:default', v.op == 'call' and v.args[0] == A + b + '_approximate', f'value {show(v, 3)}', where(ctx, A + q))


def filepath(t, name):
    """the path of the distributed file is a symbol"""
    def f(x):
        if x.op == 'meth' and x.args[0] == 'joinpath' and any(sval(y) == name for y in x.args[2:] if isinstance(y, T)) or \
                x.op == 'div' and sval(x.args[1]) == name or \
                x.op == 'call' and x.args[0] in ('pyTMD.utilities.get_data_path', 'pathlib.Path') and any(sval(y) == name for y in walk(x)):
            return S('path')
        if x.op == 'meth' and x.args[0] in ('absolute', 'expanduser', 'resolve') and x.args[1] is S('path'):
            return S('path')
        return x
    return rewrite(t, f)


def kwarg(v, name):
    for x in v.args[1:]:
        if isinstance(x, T) and x.op == 'kw' and x.args[0] == name:
            return x.args[1]
