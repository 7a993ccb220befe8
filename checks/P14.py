"""P14 reference ellipsoids and normal gravity"""
import importlib.util
import pathlib
from sa.equiv import spread
from .common import *

EXPLANATION = ('Static equivalence: the constants of every named ellipsoid are propagated through the constructor and compared with a reference table; '
               'the derived parameters and normal gravity of a user-defined ellipsoid with symbolic constants are compared in canonical form with their definitions.')
UNITS = dict(MKS=(1, 1, 1, 1, 1, 1), CGS=(100, 1, 10**6, 1, 1000, 100))


def table(name):
    """literal tables of the reference definitions"""
    import ast
    t = ast.parse((pathlib.Path(__file__).parent.parent / 'spec' / 'geodesy.py').read_text())
    for n in t.body:
        if isinstance(n, ast.Assign) and n.targets[0].id == name:
            return eval(compile(ast.Expression(n.value), name, 'eval'), {'dict': dict})


def run(ctx):
    ctx.rule('constants', 'axis, flattening, gravitational constant, rotation rate and universal constants of every named ellipsoid in both systems of units', 15 * 2 * 6)
    ctx.rule('derived', 'derived geometric and gravimetric parameters are their definitions', 25)
    ctx.rule('gravity', 'normal gravity at the ellipsoid and at height', 2)
    ctx.rule('options', 'user constants take precedence, unknown names and units are rejected, names are accepted in any case', 20)
    q = 'pyTMD.crs.datum'
    init = ctx.repo.func(q + '.__init__')
    w = init.where
    E, GM, OM = table('ELLIPSOIDS'), table('GRAVITATION'), table('ROTATION')
    nf = NF()
    given = lambda *ks: {k: T('call', 'numpy.float64', S(k)) for k in ks}
    names = ('a_axis', 'flat', 'GM', 'omega', 'G', 'gamma')
    ctx.analysed(*[f.qual for f in ctx.repo.functions() if f.qual.startswith(q + '.')])
    for name, (a, fi) in E.items():
        for u, scale in UNITS.items():
            with ctx.case(f'{name}:{u}'):
                x = value(ctx, 'spec.geodesy.of_name', kwargs=dict(ellipsoid=C(name), units=C(u)))
                want = [C(a), T('div', C(1.0), C(fi)), C(GM.get(name, 3.986004418e14)), C(OM.get(name, 7.292115e-5)), C(6.67430e-11), C(9.80665)]
                want = [T('mul', v, C(s)) for v, s in zip(want, scale)]
                compare_all(ctx, 'constants', f'{name}:{u}', x, T('tuple', *want), nf, w, names=names)
        with ctx.case(name + ':options'):
            x = value(ctx, 'spec.geodesy.of_name', kwargs=dict(ellipsoid=C(name.lower()), units=C('mks')))
            y = value(ctx, 'spec.geodesy.of_name', kwargs=dict(ellipsoid=C(name), units=C('MKS')))
            ctx.ob('options', name + ':lower case', x is y, 'the same ellipsoid in lower case', w)
            x = value(ctx, 'spec.geodesy.overridden', kwargs=dict(given('GM', 'omega'), ellipsoid=C(name)))
            compare_all(ctx, 'options', name + ':user', x, T('tuple', S('GM'), S('omega')), nf, w, names=('GM', 'omega'))
    for k, v in (('ellipsoid', 'BOGUS'), ('units', 'FPS')):
        with ctx.case(f'{k}={v}'):
            kw = dict(dict(ellipsoid=C('WGS84'), units=C('MKS')), **{k: C(v)})
            x = value(ctx, 'spec.geodesy.of_name', kwargs=kw)
            ctx.ob('options', f'{k}={v}', x.op == 'noreturn', 'rejected' if x.op == 'noreturn' else 'accepted', w)
    with ctx.case('default'):
        x = spread(value(ctx, 'spec.geodesy.item_of', kwargs=dict(ellipsoid=C('WGS84'))))
        compare_all(ctx, 'options', 'item access', x, T('tuple', C(E['WGS84'][0]), T('div', C(1.0), C(E['WGS84'][1]))), nf, w)
    import ast
    NAMES = table('NAMES')
    with ctx.case('derived'):
        x = value(ctx, 'spec.geodesy.of_user', kwargs=given('a', 'f', 'GM', 'omega'))
        y = value(ctx, 'spec.geodesy.derived', kwargs=given('a', 'f', 'GM', 'omega'))
        compare_all(ctx, 'derived', 'datum', x, y, NF(positive=['a']), w, names=NAMES)
    with ctx.case('gravity'):
        x = value(ctx, 'spec.geodesy.gravity_of', kwargs=given('a', 'f', 'GM', 'omega'))
        y = value(ctx, 'spec.geodesy.gravity', kwargs=given('a', 'f', 'GM', 'omega'))
        compare_all(ctx, 'gravity', 'datum', x, y, NF(positive=['a']), ctx.repo.func(q + '.gamma_0').where, names=('gamma_0', 'gamma_h'))
