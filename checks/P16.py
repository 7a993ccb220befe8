"""P16 tidal ellipses"""
from .common import *

EXPLANATION = ('Static equivalence: value numbers of the ellipse parameters and their inverse, for complex symbolic currents, compared in canonical form with '
               'their definition, with the current velocity they describe and with each other (round trip).')
M = 'pyTMD.ellipse.'


def run(ctx):
    ctx.rule('parameters', 'semi-axes, inclination and phase are the definition', 4)
    ctx.rule('motion', 'the parameters describe the motion of the current at every phase of the tide', 4)
    ctx.rule('inverse', 'currents from parameters, and back from the parameters of currents', 4)
    nf = lambda: NF(complex_syms=['u', 'v'])
    w = where(ctx, M + 'ellipse')
    with ctx.case('ellipse'):
        compare_all(ctx, 'parameters', 'ellipse', value(ctx, M + 'ellipse'), value(ctx, 'spec.ellipse.parameters'), nf(), w,
                    names=('major', 'minor', 'inclination', 'phase'))
    with ctx.case('velocity'):
        compare_all(ctx, 'motion', 'velocity', value(ctx, 'spec.ellipse.velocity'), value(ctx, 'spec.ellipse.velocity_of'), nf(), w, names=('u', 'v'))
    with ctx.case('semi-axes'):
        compare_all(ctx, 'motion', 'semi-axes', value(ctx, 'spec.ellipse.semiaxes'), value(ctx, 'spec.ellipse.semiaxes_of'), nf(), w, names=('squares', 'product'))
    w = where(ctx, M + 'inverse')
    with ctx.case('inverse'):
        compare_all(ctx, 'inverse', 'inverse', value(ctx, M + 'inverse'), value(ctx, 'spec.ellipse.currents'), nf(), w, names=('u', 'v'))
    with ctx.case('round trip'):
        compare_all(ctx, 'inverse', 'round trip', value(ctx, 'spec.ellipse.back'), T('tuple', S('u'), S('v')), nf(), w, names=('u', 'v'))
