"""P04 solid earth tides"""
from fractions import Fraction

from .common import *

EXPLANATION = ('Static equivalence, component by component and in exact canonical form, of the solid earth tide displacements with the '
               'IERS Conventions (2010) chapter 7.1.1 definition: degree 2 and 3 in-phase displacements with latitude-dependent Love '
               'numbers, out-of-phase diurnal and semi-diurnal terms, latitude dependence, frequency dependence (tables 7.3a and '
               '7.3b), and the permanent tide in the mean-tide system.')
OP = ['pyTMD.astro.doodson_arguments']
LOVE = {k: S(k) for k in ('h2', 'l2', 'h3', 'l3', 'mass_ratio_solar', 'mass_ratio_lunar')}


def run(ctx):
    ctx.rule('displacement', 'total displacement equals the conventional sum of corrections in each tide system', 6)
    ctx.rule('parts', 'each correction equals its conventional definition', 1)
    ctx.rule('defaults', 'default Love numbers and mass ratios are the conventional ones', 6)
    q = 'pyTMD.predict.solid_earth_tide'
    for mean in ('tide_free', 'mean_tide', 'Mean_Tide'):
        with ctx.case(mean):
            a = value(ctx, q, kwargs=dict(tide_system=C(mean), **LOVE), opaque=OP)
            b = value(ctx, 'spec.predict.solid_earth_tide', kwargs=dict(mean=C(mean.lower() == 'mean_tide'), **LOVE), opaque=OP)
            nf = NF(shapes=POINTS)
            for k, n in enumerate('xyz'):
                compare(ctx, 'displacement', f'{mean}:{n}', T('idx', a, col(k)), b.args[k], nf, where(ctx, q), 'displacement ' + n)
    for name, spec, args in (
            ('_out_of_phase_diurnal', 'out_of_phase_diurnal', ('XYZ', 'BXYZ', 'F2')),
            ('_out_of_phase_semidiurnal', 'out_of_phase_semidiurnal', ('XYZ', 'BXYZ', 'F2')),
            ('_latitude_dependence', 'latitude_dependence', ('XYZ', 'BXYZ', 'F2')),
            ('_frequency_dependence_diurnal', 'frequency_dependence_diurnal', ('XYZ', 'MJD')),
            ('_frequency_dependence_long_period', 'frequency_dependence_long_period', ('XYZ', 'MJD')),
            ('_free_to_mean', 'free_to_mean', ('XYZ', 'h2', 'l2'))):
        pq = 'pyTMD.predict.' + name
        if ctx.repo.func(pq, optional=True) is None:
            continue
        bodies = [('SXYZ', 'F2_solar'), ('LXYZ', 'F2_lunar')] if 'BXYZ' in args else [None]
        with ctx.case(name):
            a = value(ctx, pq, opaque=OP)
            tot = None
            for b in bodies:
                kw = {}
                if b:
                    kw = dict(BXYZ=S(b[0]), F2=S(b[1]))
                v = value(ctx, 'spec.predict.' + spec, kwargs=kw, opaque=OP)
                tot = v if tot is None else T('tuple', *[T('add', x, y) for x, y in zip(tot.args, v.args)])
            nf = NF(shapes=POINTS)
            for k, n in enumerate('xyz'):
                compare(ctx, 'parts', f'{name}:{n}', T('idx', a, col(k)), tot.args[k], nf, where(ctx, pq), 'displacement ' + n)
    # conventional constants used when none are given
    with ctx.case('defaults'):
        a = value(ctx, q, kwargs=dict(tide_system=C('tide_free')), opaque=OP)
        conv = dict(h2=C(Fraction('0.6078')), l2=C(Fraction('0.0847')), h3=C(Fraction('0.292')), l3=C(Fraction('0.015')),
                    mass_ratio_solar=C(Fraction('332946.0482')), mass_ratio_lunar=C(Fraction('0.0123000371')))
        b = value(ctx, 'spec.predict.solid_earth_tide', kwargs=dict(mean=FALSE, **conv), opaque=OP)
        b2 = value(ctx, 'spec.predict.solid_earth_tide', kwargs=dict(mean=TRUE, **conv), opaque=OP)
        nf = NF(shapes=POINTS)
        a2 = value(ctx, q, kwargs=dict(tide_system=C('mean_tide')), opaque=OP)
        for k, n in enumerate('xyz'):
            compare(ctx, 'defaults', f'tide_free:{n}', T('idx', a, col(k)), b.args[k], nf, where(ctx, q), 'displacement ' + n)
            compare(ctx, 'defaults', f'mean_tide:{n}', T('idx', a2, col(k)), b2.args[k], nf, where(ctx, q), 'displacement ' + n)

