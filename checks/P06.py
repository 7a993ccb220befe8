"""P06 nodal modulations of the tidal constituents"""
from .common import *
from spec import nodal as ref

EXPLANATION = ('Static equivalence: the amplitude factor and phase correction computed for every principal constituent under every '
               'correction family are reduced to a canonical expression in the lunar node and perigee and compared with the reference '
               'series (Doodson and Warburg, Ray, Schureman); the columns of a mixed list are compared with the columns of single calls.')
Q = 'pyTMD.arguments.nodal'
N, P = S('n'), S('p')
FAMILIES = ['OTIS', 'ATLAS', 'TMD3', 'netcdf', 'GOT', 'EOT', 'FES', 'perth3']
OTIS_UNIT = ('msf', 'tau1', 'p1', 'theta1', 'lambda2', 's2')
OTIS_GROUPS = {'mf': ['msqm', 'msp', 'mq', 'mtm'], 'mt': [], 'q1': ['2q1', 'rho1', 'sigma1'], 'chi1': []}
FES_GROUPS = {'mf': ['msqm', 'msp', 'mq', 'mt', 'mtm'], 'o1': ['so3', 'op2', '2q1', 'q1', 'rho1', 'sigma1'], 'j1': ['chi1', 'theta1'],
              'msf': []}
PERTH3 = ('q1', 'o1', 'k1', 'm2', 'n2', 'k2')
UNMODULATED = ('s1', 'sa', 'ssa', 't2', 'r2', 'pi1', 'phi1', 'psi1', 's3', 's4', 's6', 'z0')


def lst(rows):
    return T('list', *[T('tuple', *[C(x) for x in r]) for r in rows])


def pair(ctx, fn, *args):
    return value(ctx, f'spec.nodal.{fn}', args=list(args))


def unit():
    return T('tuple', C(1), C(0))


def members(base, groups=None):
    return [base] + (groups[base] if groups and base in groups else ref.CLASS.get(base, []))


def reference(ctx, family):
    """{constituent: thunk of (f, u)}"""
    out = {}
    ser = lambda row: (lambda: pair(ctx, 'series', N, P, lst(row[0]), lst(row[1])))
    for b, row in ref.COMMON.items():
        for c in members(b):
            out[c] = ser(row)
    out['msqm'] = ser(ref.COMMON['mf'])
    for c in UNMODULATED:
        out[c] = unit
    for M in ('Doodson', 'Ray'):
        out['m1:' + M] = lambda M=M: pair(ctx, 'm1', N, P, C(M))
    out['mfdw'] = lambda: pair(ctx, 'otis', C('mf'), N)
    if family in OTIS_TYPES:
        for b, row in ref.OTIS.items():
            for c in members(b, OTIS_GROUPS):
                out[c] = ser(row)
        for b in ('mf', 'o1', 'q1'):
            for c in members(b, OTIS_GROUPS):
                out[c] = lambda b=b: pair(ctx, 'otis', C(b), N)
        for c in OTIS_UNIT:
            out[c] = unit
    elif family == 'FES':
        for b in ('mm', 'mf', 'msf', 'o1', 'j1', 'k1', 'oo1', 'm2', 'l2', 'k2', 'eta2'):
            for c in members(b, FES_GROUPS):
                out[c] = lambda b=b: pair(ctx, 'fes', C(b), N, P)
        out['m3'] = lambda: pair(ctx, 'fes', C('m3'), N, P)
        out['p1'] = out['s2'] = unit
    elif family == 'perth3':
        for c in PERTH3:
            out[c] = lambda c=c: pair(ctx, 'perth3', C(c), N)
        out['p1'] = out['s2'] = unit
    return out


def entry(ctx, c, family, cons=None, j=0, M1='perth5'):
    v = value(ctx, Q, kwargs=dict(n=N, p=P, constituents=strs(cons or [c]), corrections=C(family), M1=C(M1)))
    if v.op != 'tuple' or len(v.args) != 2:
        raise AnalysisBroken(f'{Q}: does not return a pair')
    u, f = [T('idx', x, col(j)) for x in v.args]
    return T('tuple', f, u)


def pointwise(t):
    """the node and perigee are arrays: a unit modulation may be broadcast"""
    return t


def run(ctx):
    ctx.rule('modulation', 'amplitude factor and nodal phase equal the reference series of the correction family', 600)
    ctx.rule('columns', 'the column of a constituent does not depend on its neighbours or its position in the list', 30)
    W = where(ctx, Q)
    for family in FAMILIES:
        nf = NF()
        for c, thunk in reference(ctx, family).items():
            name, _, M1 = c.partition(':')
            with ctx.case(f'{family}:{c}'):
                mixed = {'perigee-degrees': pair(ctx, 'fes_l2_degrees', N, P)} if family == 'FES' and name in ('l2', 'sl4') else None
                compare_all(ctx, 'modulation', f'{family}:{c}', entry(ctx, name, family, M1=M1 or 'perth5'), thunk(), nf, W, names=['f', 'u'], variants=mixed)
        mixed = ['m2', 'mk3', 'k1', 'sa', 'm1', 'l2', 'mf', 'o1', 'm4', 'm2']
        for j, c in enumerate(mixed):
            with ctx.case(f'{family}:column{j}'):
                compare_all(ctx, 'columns', f'{family}:{j}-{c}', entry(ctx, c, family, mixed, j), entry(ctx, c, family), nf, W, names=['f', 'u'])
