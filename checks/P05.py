"""P05 pole tides"""
from .common import *

EXPLANATION = ('Static equivalence of the load and ocean pole tide displacements with the IERS Conventions (2010) chapter 7.1.4 and '
               '7.1.5 definitions, per cartesian component and in exact canonical form, including the wobble parameters relative to '
               'the conventional mean pole and the time scale in which polar motion is interpolated.')


def run(ctx):
    ctx.rule('load', 'load pole tide: centrifugal potential of the wobble times the degree-2 Love/Shida numbers, rotated to cartesian', 3)
    ctx.rule('ocean', 'ocean pole tide: self-consistent equilibrium coefficients times the wobble parameters', 3)
    ctx.rule('defaults', 'conventional constants are used when none are given', 6)
    for rule, name, cplx in (('load', 'load_pole_tide', ()), ('ocean', 'ocean_pole_tide', ('UXYZ', 'g2'))):
        q = 'pyTMD.predict.' + name
        with ctx.case(name):
            a = value(ctx, q)
            b = value(ctx, 'spec.predict.' + name)
            nf = NF(shapes=POINTS, complex_syms=cplx)
            for k, n in enumerate('xyz'):
                compare(ctx, rule, f'{name}:{n}', T('idx', a, col(k)), b.args[k], nf, where(ctx, q), 'displacement ' + n)
    # no-argument defaults
    with ctx.case('defaults'):
        fn = ctx.repo.func('pyTMD.predict.load_pole_tide')
        dl = defaults(ctx, fn)
        for k, v in (('h2', '0.6207'), ('l2', '0.0836'), ('omega', '7.2921151467e-5'), ('gamma_0', '9.80665')):
            ctx.ob('defaults', 'load:' + k, k in dl and num(dl[k]) is not None and abs(float(num(dl[k])) / float(v) - 1) < 1e-3,
                   f'{show(dl[k]) if k in dl else "missing"} (conventional {v})', fn.where)
        fn = ctx.repo.func('pyTMD.predict.ocean_pole_tide')
        do = defaults(ctx, fn)
        g2 = do.get('g2')
        nf = NF()
        ctx.ob('defaults', 'ocean:g2', g2 is not None and nf.eq(g2, T('add', C(0.6870), T('mul', C(0.0036), T('I')))),
               show(g2) if g2 is not None else 'missing', fn.where)
        for k, v in (('omega', '7.2921151467e-5'), ('rho_w', '1025'), ('gamma_0', '9.780325'), ('GM', '3.986004418e14'), ('a_axis', '6378136.6')):
            x = num(do[k]) if k in do else None
            ctx.ob('defaults', 'ocean:' + k, x is not None and abs(float(x) / float(v) - 1) < 1e-6,
                   f'{show(do[k]) if k in do else "missing"} (conventional {v})', fn.where)
