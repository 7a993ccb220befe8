"""Helpers shared by the checks."""
from sa.equiv import value, compare, compare_all, col, data_of, mask_of, strip, FULL
from sa.interp import State, Interp, getattr_term, ite, tnot, tand, tor, leaves
from sa.nf import NF
from sa.repo import AnalysisBroken
from sa.term import T, C, S, NONE, TRUE, FALSE, walk, show, num, sval, rewrite

XYZ3 = [None, C(3)]
POINTS = {k: XYZ3 for k in ('XYZ', 'SXYZ', 'LXYZ', 'UXYZ')}
OTIS_TYPES = ('OTIS', 'ATLAS', 'TMD3', 'netcdf')
ARGS = ['pyTMD.arguments.arguments', 'pyTMD.arguments._constituent_parameters', 'pyTMD.arguments.minor_arguments',
        'pyTMD.arguments.frequency', 'pyTMD.arguments._love_numbers', 'pyTMD.astro.mean_longitudes',
        'pyTMD.astro.doodson_arguments']


def where(ctx, qual):
    return ctx.repo.func(qual).where


def strs(xs):
    return T('list', *[C(x) for x in xs])


def same(ctx, rule, construct, qual, spec, kwargs=None, speckw=None, opaque=(), nf=None, a=None, b=None, pick=None, skwargs=None):
    """one or more obligations: the function has the value of its reference definition"""
    with ctx.case(construct):
        x = value(ctx, qual, kwargs=kwargs, opaque=opaque) if a is None else a
        y = value(ctx, spec, kwargs=speckw if speckw is not None else kwargs, opaque=opaque) if b is None else b
        if pick is not None:
            x = pick(x)
        compare_all(ctx, rule, construct, x, y, nf or NF(), where=where(ctx, qual))


def columns(n):
    return lambda t: T('tuple', *[T('idx', t, col(k)) for k in range(n)])


def defaults(ctx, fn):
    """evaluated default of every parameter"""
    I = Interp(ctx.repo)
    a = fn.node.args
    pos = a.posonlyargs + a.args
    out = {}
    for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        st = State({}, {}, ())
        I.stack.append(fn)
        try:
            out[x.arg] = I.deep(I.ev(d, st), st)
        finally:
            I.stack.pop()
    return out
