"""P02 inference of minor constituents"""
from .common import *

EXPLANATION = ('Static equivalence: the value number of each inference routine, for literal constituent lists (complete, mixed case, '
               'reordered, with minors already present, with requested subsets, with too few majors), is compared in canonical form '
               'with the admittance definition; the dispatching routine is compared with the sum of its parts.')

FULLSET = ['q1', 'o1', 'p1', 'k1', 'n2', 'm2', 's2', 'k2', '2n2']
SHORT = [
    ('all', FULLSET, None), ('upper', [c.upper() for c in FULLSET[:-1]] + ['2n2'], None),
    ('reordered', ['mu2', '2n2', 'k2', 's2', 'm2', 'n2', 'k1', 'p1', 'o1', 'q1', 't2'], None),
    ('first', FULLSET, ['2q1']), ('last', FULLSET, ['eta2']), ('some', FULLSET, ['mu2', 'rho1', 'l2', 't2']),
    ('none', FULLSET, ['sa']), ('few', ['m2', 's2', 'o1'], None), ('six', ['q1', 'o1', 'k1', 'n2', 'm2', 's2'], None)]
FAMILY = {
    'semi_diurnal': ['n2', 'm2', 's2'], 'diurnal': ['q1', 'o1', 'k1'], 'long_period': ['node', 'mm', 'mf']}
FIRST = {'semi_diurnal': 'eps2', 'diurnal': '2q1', 'long_period': 'sa'}
PRESENT = {'semi_diurnal': ['k2', 'l2', 'eps2'], 'diurnal': ['p1', 'j1', '2q1'], 'long_period': ['msf', 'sa', 'mq']}


def zeroish(nf, t):
    try:
        return nf.is_zero(nf.nf(t))
    except Exception:
        return False


def run(ctx):
    ctx.rule('short-period', 'response-weighted sum of the major constituents for every requested minor that the model lacks', 20)
    ctx.rule('admittance', 'admittances of the majors interpolated in frequency (linear or 2-day response) per tidal band', 30)
    ctx.rule('dispatch', 'inferred height = the bands of the correction type plus the long-period band, with the options forwarded', 4)
    ctx.rule('array', 'the inferred heights are a masked array on every path, so that callers can combine data and mask', 4)
    q = 'pyTMD.predict._infer_short_period'
    for name, cons, minor in SHORT:
        for corr in ('OTIS', 'GOT', 'FES'):
            kw = dict(constituents=strs(cons), corrections=C(corr), deltat=S('deltat'), minor=strs(minor) if minor else NONE,
                      raise_exception=FALSE)
            low = [c.lower() for c in cons]
            majors = [m for m in FULLSET if m in low]
            skw = dict(kw, constituents=strs(low))
            with ctx.case(f'short:{name}:{corr}'):
                a = value(ctx, q, kwargs=kw, opaque=ARGS)
                nf = NF(complex_syms=['zmajor'])
                if len(majors) < 6:
                    ctx.ob('short-period', f'{name}:{corr}', zeroish(nf, data_of(a)), 'too few majors: nothing is inferred', where(ctx, q))
                    continue
                b = value(ctx, 'spec.predict.short_period', kwargs=skw, opaque=ARGS)
                compare(ctx, 'short-period', f'{name}:{corr}', a, b, nf, where(ctx, q), 'inferred heights')
    for fam, majors in FAMILY.items():
        q = f'pyTMD.predict._infer_{fam}'
        for name, cons, minor in (
                ('all', majors, None), ('reordered', ['xx'] + majors[::-1], None), ('present', majors + PRESENT[fam], None),
                ('first', majors, [FIRST[fam]]), ('subset', majors, PRESENT[fam][:2]), ('few', majors[:2], None)):
            for method in ('linear', 'admittance'):
                kw = dict(constituents=strs(cons), corrections=C('GOT'), deltat=S('deltat'),
                          minor=strs(minor) if minor else NONE, method=C(method), raise_exception=FALSE)
                skw = {k: v for k, v in kw.items() if fam != 'long_period' or k != 'method'}
                with ctx.case(f'{fam}:{name}:{method}'):
                    a = value(ctx, q, kwargs=kw, opaque=ARGS)
                    nf = NF(complex_syms=['zmajor'])
                    key = f'{fam}:{name}:{method}'
                    if name == 'few':
                        ctx.ob('admittance', key, zeroish(nf, data_of(a)), 'too few majors: nothing is inferred', where(ctx, q))
                        continue
                    b = value(ctx, 'spec.predict.' + fam, kwargs=skw, opaque=ARGS)
                    compare(ctx, 'admittance', key, a, b, nf, where(ctx, q), 'inferred heights')
    # dispatch
    parts = [f'pyTMD.predict._infer_{n}' for n in ('short_period', 'semi_diurnal', 'diurnal', 'long_period')]
    q = 'pyTMD.predict.infer_minor'
    for corr in ('GOT', 'OTIS', 'FES', 'EOT'):
        with ctx.case(f'dispatch:{corr}'):
            kw = dict(corrections=C(corr), deltat=S('deltat'), minor=S('minor'), raise_exception=S('raise_exception'))
            a = value(ctx, q, kwargs=kw, opaque=parts)
            b = value(ctx, 'spec.predict.infer_minor', kwargs=kw, opaque=parts)
            compare(ctx, 'dispatch', corr, a, b, NF(), where(ctx, q), 'inferred heights')
    # type of the result on every path
    for n in parts:
        with ctx.case(f'array:{n}'):
            a = value(ctx, n, kwargs=dict(corrections=C('OTIS'), deltat=S('deltat')), opaque=ARGS)
            bad = [x for x in leaves(a) if num(x) is not None]
            ctx.ob('array', n.split('.')[-1], not bad, f'returns the bare number {show(bad[0]) if bad else ""} on some path'
                   if bad else 'array on every path', where(ctx, n))
