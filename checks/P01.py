"""P01 tide synthesis: heights are the sum of the modulated constituent harmonics"""
from .common import *

EXPLANATION = ('Static equivalence of the three prediction routines with the harmonic definition of a tide: the return value is '
               'computed as a symbolic value number (all paths, loops summarised as sums over the constituents), brought to a '
               'canonical form in which trigonometric identities are decided exactly, and compared with the reference '
               'definition; the mask is followed as a disjunction over the constituents.')


def disjuncts(t, quant=False):
    """leaves of a disjunction, with a flag: is the leaf quantified over the constituents?"""
    if t.op in ('bor', 'or'):
        for x in t.args:
            yield from disjuncts(x, quant)
    elif t.op == 'anyloop':
        yield from disjuncts(t.args[1], True)
    elif t.op == 'fill':
        yield from disjuncts(t.args[1], quant)
    elif t.op == 'call' and t.args[0] in ('numpy.any', 'numpy.logical_or.reduce'):
        axis = any(k.op == 'kw' and k.args[0] == 'axis' for k in t.args[1:]) or len(t.args) > 2
        yield from disjuncts(t.args[1], quant or axis)
    elif t.op == 'call' and t.args[0] in ('numpy.logical_or',):
        for x in t.args[1:]:
            yield from disjuncts(x, quant)
    elif t.op == 'call' and t.args[0] in ('numpy.squeeze', 'numpy.array', 'numpy.copy', 'numpy.asarray', 'numpy.atleast_1d'):
        yield from disjuncts(t.args[1], quant)
    elif t.op == 'idx':
        for leaf, q in disjuncts(t.args[0], quant):
            yield T('idx', leaf, t.args[1]), q
    else:
        yield t, quant


def mask_source(t):
    """does the term denote (part of) the mask of the harmonic constants?"""
    while t.op == 'idx':
        t = t.args[0]
    t = strip(t)
    if t.op == 'call' and t.args[0] == 'numpy.ma.getmaskarray':
        t = T('attr', 'mask', t.args[1])
    if t.op != 'attr' or t.args[0] != 'mask':
        return False
    t = t.args[1]
    while t.op == 'idx' or t.op == 'attr' and t.args[0] in ('real', 'imag'):
        t = t.args[0] if t.op == 'idx' else t.args[1]
    return strip(t) is S('hc')


HARD = ('mu', 'opaque', 'callv', 'while', 'muattr', 'muvar')


def sources(m, quant=True):
    """disjuncts that are masks of the constants, and the others"""
    ls = list(disjuncts(m))
    src = [x for x, qn in ls if mask_source(x) and (qn or not quant)]
    other = []
    for x, qn in ls:
        y = strip(x)
        while y.op == 'idx':
            y = strip(y.args[0])
        if not mask_source(x) and not (y.op == 'call' and y.args[0] in ('numpy.zeros', 'numpy.zeros_like') or x is FALSE):
            other.append(x)
    return src, other


def column(t):
    """column of the constants in an indexed mask (None: all of them)"""
    out = None
    for x in walk(t):
        if x.op == 'idx':
            k = x.args[1].args[-1] if x.args[1].op == 'tuple' else None
            if k is not None and num(k) is not None:
                out = int(num(k))
    return out


def run(ctx):
    ctx.rule('heights', 'the heights are the sum over all constituents of f*Re(hc*exp(i*(V+u))), with the equilibrium phase taken '
             'from the constituent frequency for the OTIS family and from the Doodson arguments otherwise', 15)
    ctx.rule('invalid', 'a point is masked when the harmonic constants of any constituent are masked there', 3)
    for name in ('map', 'drift', 'time_series'):
        q = f'pyTMD.predict.{name}'
        for corr in (None,) + OTIS_TYPES[:2] + ('GOT', 'FES'):
            kw = {} if corr is None else dict(corrections=C(corr))
            with ctx.case(name):
                a = value(ctx, q, kwargs=kw, opaque=ARGS)
                b = value(ctx, 'spec.predict.' + name, kwargs=kw, opaque=ARGS)
                compare(ctx, 'heights', f'{name}:{corr or "default"}', data_of(a), b, NF(complex_syms=['hc']), where(ctx, q), 'heights')
                if corr is None:
                    m = mask_of(a)
                    src, other = sources(m)
                    if any(y.op in HARD for x in other for y in walk(x)):
                        # no disjunction for an arbitrary list: decided for a list of three constituents
                        m = mask_of(value(ctx, q, kwargs=dict(kw, constituents=strs(['m2', 's2', 'k1'])), opaque=ARGS))
                        src, other = sources(m, False)
                        if any(y.op in HARD for x in other for y in walk(x)):
                            raise AnalysisBroken(f'mask of {name}: {show(m, 4)[:200]}')
                        cols = {column(x) for x in src}
                        src = cols >= {0, 1, 2} or None in cols
                    ctx.ob('invalid', name, bool(src) and not other,
                           f'mask = {show(m, 5)[:400]}', where(ctx, q))
