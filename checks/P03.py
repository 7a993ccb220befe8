"""P03 equilibrium long-period tide"""
from .common import *

EXPLANATION = ('Static equivalence of the long-period equilibrium tide with the Cartwright-Tayler-Edden summation (15 spectral lines, '
               'amplitudes, mean-longitude multipliers, Love-number factor, degree-2 zonal factor), for the default and for '
               'requested subsets of spectral lines, equal and differing lengths of times and latitudes.')
LINES = 'node sa ssa msm 065.445 mm 065.465 msf 075.355 mf mf+ 075.575 mst mt 085.465'.split()


def run(ctx):
    ctx.rule('equilibrium', 'height = (1+k2-h2)*sqrt(5/4pi)*P20(sin lat)*sum(amplitude*cos(phase))/100 over the requested lines', 20)
    q = 'pyTMD.predict.equilibrium_tide'
    for corr in ('OTIS', 'TMD3', 'GOT', 'FES'):
        for name, cons, arg in ([('default', LINES, None), ('upper', ['mf', 'mm'], strs(['MF', 'Mm'])), ('string', ['node'], C('node')), ('substring', ['ssa'], C('ssa'))]
                                + [(c, [c], strs([c])) for c in (LINES if corr == 'OTIS' else LINES[:3])]):
            kw = dict(deltat=S('deltat'), corrections=C(corr))
            if arg is not None:
                kw['constituents'] = arg
            with ctx.case(f'{corr}:{name}'):
                a = value(ctx, q, kwargs=kw, opaque=ARGS)
                b = value(ctx, 'spec.predict.equilibrium_tide', kwargs=dict(kw, constituents=strs(cons)), opaque=ARGS)
                compare(ctx, 'equilibrium', f'{corr}:{name}', a, b, NF(), where(ctx, q), 'height')
    with ctx.case('defaults'):
        a = value(ctx, q, opaque=ARGS)
        b = value(ctx, 'spec.predict.equilibrium_tide', kwargs=dict(deltat=C(0), corrections=C('OTIS'), constituents=strs(LINES)), opaque=ARGS)
        compare(ctx, 'equilibrium', 'defaults', a, b, NF(), where(ctx, q), 'height')
