"""P22 harmonic analysis: constants solved for are those of the series predicted with them"""
from sa.equiv import settle
from .common import *

EXPLANATION = ('Static equivalence: the matrix handed to the solver is read column by column from its symbolic value; each constituent has to have the two columns of the harmonic definition '
               '(the one of prediction, P01), the remaining column is constant, and amplitude and phase are those of the complex constant which the two coefficients of the solution stand for. '
               'The least-squares solvers are uninterpreted; their arguments are compared.')
SOLVERS = {'numpy.linalg.lstsq': ('a', 'b', 'rcond'), 'scipy.linalg.lstsq': ('a', 'b', 'cond', 'overwrite_a', 'overwrite_b', 'check_finite', 'lapack_driver'),
           'scipy.optimize.lsq_linear': ('A', 'b', 'bounds', 'method', 'tol', 'lsq_solver', 'lsmr_tol', 'max_iter')}
DRIVERS = {'lstsq': ('numpy.linalg.lstsq', {'rcond': (C(-1), NONE)}),
           'gelsd': ('scipy.linalg.lstsq', {'lapack_driver': (C('gelsd'),)}), 'gelsy': ('scipy.linalg.lstsq', {'lapack_driver': (C('gelsy'),)}),
           'gelss': ('scipy.linalg.lstsq', {'lapack_driver': (C('gelss'),)}),
           'bvls': ('scipy.optimize.lsq_linear', {'method': (C('bvls'),), 'bounds': (S('bounds'),), 'max_iter': (S('max_iter'),)})}
FN = 'pyTMD.solve.constants.constants'


def bound(call):
    names = SOLVERS[call.args[0]]
    out, i = {}, 0
    for x in call.args[1:]:
        if x.op == 'kw':
            out[x.args[0]] = x.args[1]
        else:
            out[names[i]] = x
            i += 1
    return out


def solution(call):
    """the term for the vector of coefficients"""
    return T('attr', 'x', call) if call.args[0].startswith('scipy.optimize') else T('idx', call, C(0))


def beyond(text):
    """an element that could not be read: the matrix ends before"""
    return text.startswith('1*idx(')


def width(M, nf):
    """number of columns of an array allocated with a shape"""
    axis = 1
    while True:
        if M.op == 'store':
            M = M.args[0]
        elif M.op == 'attr' and M.args[0] == 'T' or M.op == 'call' and M.args[0] == 'numpy.transpose' and len(M.args) == 2:
            M, axis = M.args[1], 1 - axis
        elif strip(M) is not M:
            M = strip(M)
        else:
            break
    if M.op == 'call' and M.args[0] in ('numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full') and M.args[1].op in ('tuple', 'list') and len(M.args[1].args) == 2:
        n = num(M.args[1].args[axis])
        return None if n is None else int(n)
    return None


def analysis(ctx, construct, solver, corrections, names):
    at = where(ctx, FN)
    n = len(names)
    v = value(ctx, FN, kwargs=dict(constituents=T('list', *names), solver=C(solver), corrections=C(corrections)), opaque=ARGS)
    calls = {x for x in walk(v) if x.op == 'call' and x.args[0] in SOLVERS}
    if len(calls) != 1:
        raise AnalysisBroken(f'{construct}: {len(calls)} calls of a solver in the value')
    call = calls.pop()
    got = bound(call)
    fn, options = DRIVERS[solver]
    nf = NF()
    ctx.ob('solver', f'{construct}:function', call.args[0] == fn, f'{solver} is solved by {call.args[0]}', at)
    for k in SOLVERS[fn][2:]:
        if k not in options and k in ('overwrite_a', 'overwrite_b', 'check_finite'):
            continue
        ok = got.get(k) is None or got[k] is NONE if k not in options else (got.get(k) in options[k] or k == 'rcond' and k not in got)
        ctx.ob('solver', f'{construct}:{k}', ok, f'{k} = {show(got[k], 4) if k in got else "default"}', at)
    compare(ctx, 'system', f'{construct}:values', got[SOLVERS[fn][1]], S('ht'), nf, where=at)
    # columns
    M = got[SOLVERS[fn][0]]
    ref = value(ctx, 'spec.predict.columns', kwargs=dict(constituents=T('list', *names), corrections=C(corrections)), opaque=ARGS)
    m = 2 * n + 1
    cols = [nf.nf(T('idx', M, col(j))) for j in range(m)]
    used = {}

    def find(what, r):
        want = nf.nf(r)
        for j in range(m):
            for sign in (1, -1):
                if j not in used and nf.equal(cols[j], nf.scale(want, sign)):
                    used[j] = what
                    return j, sign
        ctx.ob('system', f'{construct}:{what}', False, f'no column of the matrix is the term {nf.show(want, 5)}; columns: ' + ', '.join(nf.show(c, 4) for c in cols)[:700], at)
        return None
    P = solution(call)
    pairs = []
    for k in range(n):
        a = find(f'{k}:real', T('idx', T('idx', ref, C(k)), C(0)))
        b = find(f'{k}:imag', T('idx', T('idx', ref, C(k)), C(1)))
        if a and b:
            ctx.ob('system', f'{construct}:{k}', True, f'columns {a[0]} and {b[0]} are the in-phase and quadrature terms', at)
        pairs.append((a, b))
    a = find('constant', C(1))
    if a:
        ctx.ob('system', f'{construct}:constant', True, f'column {a[0]} is constant', at)
    w = width(M, nf)
    e = nf.nf(T('idx', M, col(m)))
    ctx.ob('system', f'{construct}:width', beyond(nf.show(e, 3)) if w is None else w == m, f'{m} columns' if w == m else f'a further column of the matrix: {nf.show(e, 5)[:300]}', at)
    for k, (a, b) in enumerate(pairs):
        if not (a and b):
            continue
        re, im = (T('mul', C(x[1]), T('idx', P, C(x[0]))) for x in (a, b))
        wants = [value(ctx, f'spec.predict.{d}', kwargs=dict(re=re, im=im)) for d in ('polar', 'polar_mod')]
        for i, what in enumerate(('amplitude', 'phase')):
            got = T('idx', T('idx', v, C(i)), C(k))
            want = next((w for w in wants if nf.equal(nf.nf(got), nf.nf(T('idx', w, C(i))))), wants[0])
            compare(ctx, 'constants', f'{construct}:{k}:{what}', got, T('idx', want, C(i)), nf, where=at)


def rejected(ctx, n, nt, nh, wanted):
    """do the conditions of an exception hold for series of these lengths?"""
    I = Interp(ctx.repo, opaque=ARGS)
    value(ctx, FN, kwargs=dict(constituents=T('list', *[S(f'c{k}') for k in range(n)]), solver=C('lstsq'), corrections=C('OTIS')), interp=I)
    nf = NF()
    sizes = {S('t'): nt, S('ht'): nh}

    def length(x):
        y = None
        if x.op == 'call' and x.args[0] in ('len', 'numpy.size', 'numpy.ma.size') and len(x.args) == 2:
            y = x.args[1]
        elif x.op == 'len':
            y = x.args[0]
        elif x.op == 'attr' and x.args[0] == 'size':
            y = x.args[1]
        elif x.op == 'idx' and x.args[1] in (C(0), C(-1)):
            y = x.args[0]
            y = y.args[1] if y.op == 'attr' and y.args[0] == 'shape' or y.op == 'call' and y.args[0] in ('numpy.shape', 'numpy.ma.shape') else None
        return x if y is None or strip(y) not in sizes else C(sizes[strip(y)])
    outcomes = []
    for _, pc, _, _ in I.raises:
        cs = [settle(rewrite(c, length), [], nf) for c in pc]
        outcomes.append(False if FALSE in cs else True if all(c is TRUE for c in cs) else None)
    if True not in outcomes and None in outcomes:
        raise AnalysisBroken('conditions of exceptions on other quantities than the lengths of the series')
    ok = (True in outcomes) == wanted
    ctx.ob('length', f'{n} constituents, {nt} times, {nh} heights', ok, 'is rejected' if True in outcomes else 'is accepted', where(ctx, FN))


def run(ctx):
    ctx.rule('system', 'the matrix of the solver has the columns of the harmonic definition and one constant column', 50)
    ctx.rule('solver', 'the solver named is called with the options given', 40)
    ctx.rule('constants', 'amplitude and phase are those of the complex constant solved for', 40)
    ctx.rule('length', 'series with fewer values than unknowns are rejected, others are solved', 12)
    for n in (1, 2, 3):
        for extra in (0, 1, 5):
            with ctx.case(f'length:{n}:{extra}'):
                rejected(ctx, n, 2*n + extra, 2*n + extra, extra == 0)
        with ctx.case(f'length:{n}:mismatch'):
            rejected(ctx, n, 2*n + 5, 2*n + 6, True)
    for solver in DRIVERS:
        for corrections in OTIS_TYPES + ('GOT', 'FES') if solver == 'lstsq' or ctx.tier == 'thorough' else ('OTIS', 'GOT'):
            for n in (1, 2, 4) if ctx.tier == 'thorough' else (2,):
                construct = f'{solver}:{corrections}:{n}'
                with ctx.case(construct):
                    analysis(ctx, construct, solver, corrections, [S(f'c{k}') for k in range(n)])
