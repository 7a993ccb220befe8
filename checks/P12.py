"""P12 equilibrium, pole and solid Earth tide displacements at points"""
from sa.equiv import spread
from .common import *
from .P11 import MODES, DEFAULTS, BADTIME, BADTYPE, check_defaults, check_inferred_type, check_validation, element

EXPLANATION = ('Static equivalence: the value number of every point computation of long-period equilibrium, load pole, ocean pole and solid '
               'Earth tides, per kind of data and time standard, read at a generic element, is compared in canonical form with a reference '
               'composition (positions on the chosen ellipsoid, ephemerides, times, displacement projected on the geocentric radius).')

OPAQUE = ['pyTMD.crs.crs', 'pyTMD.crs.datum', 'pyTMD.predict.equilibrium_tide', 'pyTMD.predict.solid_earth_tide', 'pyTMD.predict.load_pole_tide',
          'pyTMD.spatial.data_type', 'pyTMD.spatial.to_cartesian', 'pyTMD.astro.solar_ecef', 'pyTMD.astro.lunar_ecef',
          'pyTMD.io.IERS.extract_coefficients']
EXTRA = dict(LPET_elevations={}, LPT_displacements=dict(ELLIPSOID='WGS84', CONVENTION='2018'),
             OPT_displacements=dict(ELLIPSOID='WGS84', CONVENTION='2018', METHOD='spline'),
             SET_displacements=dict(ELLIPSOID='WGS84', TIDE_SYSTEM='tide_free', EPHEMERIDES='approximate'))
BAD = dict(ELLIPSOID=[('BOGUS', False), ('grs80', True)], CONVENTION=[('x', False), ('2015', True)],
           METHOD=[('cubist', False), ('nearest', True)], TIDE_SYSTEM=[('zero_tide', False), ('Mean_tide', True)],
           EPHEMERIDES=[('moshier', False), ('JPL', True)], TIME=BADTIME, TYPE=BADTYPE)


def run(ctx):
    ctx.rule('displacement', 'every sample is the tide of its own position and time, masked where it is not a number', 36)
    ctx.rule('type', 'the kind of data is inferred from the inputs when it is not given', 4)
    ctx.rule('options', 'unknown options are rejected; the documented ones are accepted in any case', 40)
    ctx.rule('defaults', 'documented defaults', 20)
    for f, extra in EXTRA.items():
        q = 'pyTMD.compute.' + f
        params = ctx.repo.func(q).params()
        for TYPE, pick in MODES:
            for TIME in ('UTC', 'datetime'):
                kw = dict(TYPE=C(TYPE), TIME=C(TIME), METHOD=C('spline'), CONVENTION=C('2018'))
                kw = {k: v for k, v in kw.items() if k in params}
                key = f'{f}:{TYPE}:{TIME}'
                with ctx.case(key):
                    a = value(ctx, q, kwargs=kw, opaque=OPAQUE)
                    if a.op == 'noreturn':
                        ctx.ob('displacement', key, False, 'no value on any path', where(ctx, q))
                        continue
                    b = spread(value(ctx, 'spec.compute.' + f, kwargs=kw, opaque=OPAQUE))
                    nf = NF(keep=['numpy.reshape'], complex_calls=['pyTMD.io.IERS.extract_coefficients'])
                    if b.op == 'tuple':
                        compare(ctx, 'displacement', key + ':data', element(data_of(a), pick), b.args[0], nf, where(ctx, q), 'displacement')
                        compare(ctx, 'displacement', key + ':mask', element(mask_of(a), pick), b.args[1], nf, where(ctx, q), 'mask')
                    else:
                        compare(ctx, 'displacement', key, element(a, pick), b, nf, where(ctx, q), 'displacement')
        check_inferred_type(ctx, 'type', f, OPAQUE)
        check_validation(ctx, 'options', f, OPAQUE, {k: v for k, v in BAD.items() if k in params and (f, k) != ('SET_displacements', 'ELLIPSOID')})
        check_defaults(ctx, 'defaults', f, dict(DEFAULTS, **extra))
