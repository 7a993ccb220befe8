"""P09 equilibrium arguments, minor arguments and frequencies"""
from .common import *
from .P06 import lst, pair, unit
from spec import nodal as ref

EXPLANATION = ('Static equivalence: every column of the argument matrix is reduced to the sum of products of the seven fundamental arguments with '
               'the column of the coefficient table and compared with the definition (Universal Time in the lunar hour angle, dynamic time in the '
               'mean longitudes, epoch series selected by the correction family, 90 degree phase); the modulations handed back are those of the '
               'same node and perigee; minor arguments and angular frequencies likewise.')
OP = ['pyTMD.astro.mean_longitudes', 'pyTMD.arguments.nodal', 'pyTMD.arguments.coefficients_table', 'pyTMD.arguments._minor_table']
FAMILIES = [('OTIS', FALSE), ('ATLAS', FALSE), ('TMD3', FALSE), ('netcdf', FALSE), ('GOT', TRUE), ('FES', TRUE), ('EOT', TRUE), ('perth3', TRUE)]
MJD, DT = S('t'), S('deltat')
CONS = strs(['m2', 'k1', 's1'])


def tablefile(t):
    """the distributed coefficient file is a symbol"""
    def f(x):
        if x.op == 'call' and x.args[0] in ('json.load', 'json.loads') and any(sval(y) == 'doodson.json' for y in walk(x)):
            return S('doodson')
        return x
    return rewrite(t, f)


def fresh():
    return NF(shapes={'t': ['nt'], 'deltat': ['nt']})


def either(ctx, rule, key, a, bs, W, what):
    """equal to one of the equivalent forms of the reference"""
    for b in bs[1:]:
        nf = fresh()
        if nf.equal(nf.nf(a), nf.nf(b)):
            return compare(ctx, rule, key, a, b, nf, W, what)
    compare(ctx, rule, key, a, bs[0], fresh(), W, what)


def run(ctx):
    ctx.rule('argument', 'equilibrium argument of a constituent = coefficients x fundamental arguments (90 degrees for the phase)', 24)
    ctx.rule('modulation', 'modulations evaluated at the node and perigee of the same time with the same options', 16)
    ctx.rule('minor-argument', 'equilibrium argument of every minor constituent', 60)
    ctx.rule('minor-modulation', 'modulation of every minor constituent for the correction family', 160)
    ctx.rule('frequency', 'angular frequency = coefficients x rates of the fundamental arguments', 8)
    ctx.rule('aliasing', 'aliasing period from the constituent frequency and the sampling', 1)
    ctx.rule('table', 'column of the coefficient table is the table entry of the constituent at that position (S1 follows the family)', 12)
    Q = 'pyTMD.arguments.arguments'
    W = where(ctx, Q)
    for corr, a5 in FAMILIES:
        with ctx.case(f'arguments:{corr}'):
            v = value(ctx, Q, kwargs=dict(MJD=MJD, constituents=CONS, corrections=C(corr), deltat=DT, M1=C('Ray')), opaque=OP)
            if v.op != 'tuple' or len(v.args) != 3:
                raise AnalysisBroken(f'{Q}: does not return a triple')
            kw = dict(MJD=MJD, constituents=CONS, corrections=C(corr), deltat=DT, ASTRO5=a5)
            for j in range(3):
                b = value(ctx, 'spec.arguments.equilibrium', kwargs=dict(kw, j=C(j)), opaque=OP)
                compare(ctx, 'argument', f'{corr}:{j}', T('idx', v.args[2], col(j)), b, fresh(), W, 'argument')
            for k, name in enumerate(('pu', 'pf')):
                b = value(ctx, 'spec.arguments.modulation', kwargs=dict(kw, M1=C('Ray'), k=C(k)), opaque=OP)
                compare(ctx, 'modulation', f'{corr}:{name}', v.args[k], b, fresh(), W, name)
        with ctx.case(f'frequency:{corr}'):
            F = 'pyTMD.arguments.frequency'
            v = value(ctx, F, kwargs=dict(constituents=CONS, corrections=C(corr)), opaque=OP)
            for j in (0, 2):
                b = value(ctx, 'spec.arguments.rates', kwargs=dict(constituents=CONS, corrections=C(corr), ASTRO5=a5, j=C(j)), opaque=OP)
                compare(ctx, 'frequency', f'{corr}:{j}', T('idx', v, C(j)), b, fresh(), where(ctx, F), 'frequency')
        with ctx.case(f'minor:{corr}'):
            M = 'pyTMD.arguments.minor_arguments'
            WM = where(ctx, M)
            v = value(ctx, M, kwargs=dict(MJD=MJD, corrections=C(corr), deltat=DT), opaque=OP)
            if v.op != 'tuple' or len(v.args) != 3:
                raise AnalysisBroken(f'{M}: does not return a triple')
            kw = dict(MJD=MJD, deltat=DT, ASTRO5=a5)
            nd = value(ctx, 'spec.arguments.node', kwargs=kw, opaque=OP)
            # symbols for the node and perigee
            def sym(t, a=nd.args[0], b=nd.args[1]):
                return rewrite(t, lambda x: S('n') if x is a else S('p') if x is b else x)
            for j, name in enumerate(ref.MINOR_NAMES):
                b = value(ctx, 'spec.arguments.minor', kwargs=dict(kw, corrections=C(corr), j=C(j)), opaque=OP)
                compare(ctx, 'minor-argument', f'{corr}:{name}', T('idx', v.args[2], col(j)), b, fresh(), WM, 'argument')
                row = ref.MINOR.get(ref.MINOR_LIKE.get(j, j))
                n, p = S('n'), S('p')
                if corr == 'FES' and j in ref.MINOR_FES:
                    refs = [pair(ctx, 'fes', C(ref.MINOR_FES[j]), n, p)]
                elif corr == 'GOT' and j in ref.MINOR_GOT or row:
                    row = ref.MINOR_GOT[j] if corr == 'GOT' and j in ref.MINOR_GOT else row
                    refs = [pair(ctx, f, n, p, lst(row[0]), lst(row[1])) for f in ('series', 'series_principal')]
                else:
                    refs = [unit()]
                for k, nm in ((1, 'f'), (0, 'u')):
                    either(ctx, 'minor-modulation', f'{corr}:{name}[{nm}]', sym(T('idx', v.args[k], col(j))), [r.args[1 - k] for r in refs], WM, nm)
    with ctx.case('minor-table'):
        v = value(ctx, 'pyTMD.arguments._minor_table', opaque=['pyTMD.arguments.coefficients_table'])
        names = None
        for x in walk(v):
            if x.op == 'kw' and x.args[0] == 'constituents':
                names = [sval(y) for y in x.args[1].args]
        ctx.ob('minor-argument', 'names', v.op == 'call' and names == ref.MINOR_NAMES, f'minor constituents {names}', where(ctx, 'pyTMD.arguments._minor_table'))
    with ctx.case('aliasing'):
        q = 'pyTMD.arguments.aliasing_period'
        v = value(ctx, q, kwargs=dict(constituents=CONS, sampling=S('sampling')), opaque=['pyTMD.arguments.frequency'])
        b = value(ctx, 'spec.arguments.alias', kwargs=dict(constituents=CONS, sampling=S('sampling')), opaque=['pyTMD.arguments.frequency'])
        compare(ctx, 'aliasing', 'period', v, b, NF(), where(ctx, q), 'period')
    q = 'pyTMD.arguments.coefficients_table'
    for corr, a5 in FAMILIES:
        with ctx.case(f'table:{corr}'):
            v = value(ctx, q, kwargs=dict(constituents=CONS, corrections=C(corr)))
            for j, c in enumerate(('m2', 'k1', 's1')):
                for k in range(7):
                    a = T('idx', v, T('tuple', C(k), C(j)))
                    b = value(ctx, 'spec.arguments.entry', kwargs=dict(c=C(c), k=C(k), otis=TRUE if a5 is FALSE else FALSE))
                    compare(ctx, 'table', f'{corr}:{c}:{k}', tablefile(a), tablefile(b), NF(), where(ctx, q), 'coefficient')
