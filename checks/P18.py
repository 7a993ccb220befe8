"""P18 Legendre functions, spherical harmonics and small mathematical helpers"""
from fractions import Fraction
from math import factorial
from .common import *

EXPLANATION = ('Static equivalence: the Legendre functions of every degree and order and the spherical harmonics built of them, as value numbers of a symbolic argument, '
               'compared in canonical form with their definition by derivatives (Rodrigues), computed in exact arithmetic.')
M = 'pyTMD.math.'


def rodrigues(l, m):
    """coefficients of d^m/dx^m P_l(x), lowest power first"""
    c = [Fraction(0)] * (2 * l + 1)
    for k in range(l + 1):
        c[2 * k] = Fraction((-1)**(l - k) * factorial(l), factorial(k) * factorial(l - k))
    for _ in range(l + m):
        c = [k * c[k] for k in range(1, len(c))]
    return [x / (2**l * factorial(l)) for x in c]


def plm(l, m, x):
    """(1-x^2)^(m/2) d^m/dx^m P_l(x)"""
    p = C(0)
    for k, c in enumerate(rodrigues(l, m)):
        p = T('add', p, T('mul', C(c), T('pow', x, C(k))))
    return T('mul', p, T('pow', T('sub', C(1), T('pow', x, C(2))), C(Fraction(m, 2))))


def run(ctx):
    ctx.rule('legendre', 'every degree and order is (-1)^m (1-x^2)^(m/2) d^m P_l/dx^m', 20)
    ctx.rule('normalized', 'fully normalized functions to a maximum degree', 60)
    ctx.rule('harmonics', 'spherical harmonics with orthonormal scaling', 10)
    ctx.rule('options', 'degrees and orders out of range are rejected', 4)
    ctx.rule('helpers', 'polynomials, aliased frequency, normalized angles', 3)

    def ndim(k):
        def hook(I, fn, args, kws, st, node):
            if fn.op == 'ext' and fn.args[0] == 'numpy.ndim':
                return C(k)
            return None
        return hook
    sq = lambda f: T('pow', C(f), C(Fraction(1, 2)))
    q = M + 'legendre'
    for l in range(4):
        for m in range(l + 1):
            for rank in (0, 1):
                with ctx.case(f'legendre({l},{m})'):
                    v = value(ctx, q, kwargs=dict(l=C(l), m=C(m)), on_call=ndim(rank))
                    compare(ctx, 'legendre', f'legendre:{l},{m}' + ('' if rank else ':scalar'), v, T('mul', C((-1)**m), plm(l, m, S('x'))), NF(scalars=() if rank else ['x']), where(ctx, q))
                with ctx.case(f'sph_harm({l},{m})'):
                    v = value(ctx, M + 'sph_harm', kwargs=dict(l=C(l), m=C(m)), on_call=ndim(rank))
                    scale = T('pow', T('div', C(Fraction((2 * l + 1) * factorial(l - m), 4 * factorial(l + m))), T('pi')), C(Fraction(1, 2)))
                    want = T('mul', scale, T('mul', T('mul', C((-1)**m), plm(l, m, T('call', 'numpy.cos', S('theta')))),
                                             T('call', 'numpy.exp', T('mul', C(1j), T('mul', C(m), S('phi'))))))
                    compare(ctx, 'harmonics', f'sph_harm:{l},{m}' + ('' if rank else ':scalar'), v, want, NF(scalars=() if rank else ['theta', 'phi']), where(ctx, M + 'sph_harm'))
    for l, m in ((-1, 0), (4, 0), (2, 3), (2, -1)):
        with ctx.case(f'legendre({l},{m})'):
            v = value(ctx, q, kwargs=dict(l=C(l), m=C(m)))
            ctx.ob('options', f'legendre:{l},{m}', v.op == 'noreturn', 'rejected' if v.op == 'noreturn' else 'accepted', where(ctx, q))
    q = M + 'assoc_legendre'
    top = 10 if ctx.tier == 'thorough' else 6
    for lmax in (0, 1, 2, top):
        with ctx.case(f'assoc_legendre({lmax})'):
            v = value(ctx, q, kwargs=dict(lmax=C(lmax)), on_call=ndim(1))
            for l in range(top + 1 if lmax == top else lmax + 1):
                for m in range(lmax + 1):
                    norm = sq(Fraction((2 - (m == 0)) * (2 * l + 1) * factorial(l - m), factorial(l + m))) if m <= l else None
                    want = T('mul', norm, plm(l, m, S('x'))) if m <= l else C(0)
                    compare(ctx, 'normalized', f'assoc_legendre:{lmax}:{l},{m}', T('idx', v, T('tuple', C(l), C(m))), want, NF(), where(ctx, q))
    with ctx.case('helpers'):
        v = value(ctx, M + 'polynomial_sum', kwargs=dict(coefficients=T('list', *[S(f'c{k}') for k in range(4)])))
        compare(ctx, 'helpers', 'polynomial_sum', v, value(ctx, 'spec.harmonics.polynomial'), NF(), where(ctx, M + 'polynomial_sum'))
        compare(ctx, 'helpers', 'aliasing', value(ctx, M + 'aliasing'), value(ctx, 'spec.harmonics.alias'), NF(), where(ctx, M + 'aliasing'))
        compare(ctx, 'helpers', 'normalize_angle', value(ctx, M + 'normalize_angle'), value(ctx, 'spec.harmonics.normalized'), NF(), where(ctx, M + 'normalize_angle'))
