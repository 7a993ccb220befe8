"""obligations of the helpers which continue, shift and crop the grids of a model format"""
import itertools
from fractions import Fraction
from .common import *
from sa.cells import Cells, Lin, Undecided, lin, term
from sa.equiv import elementwise
from sa.term import boolterm

ONE = Lin({None: Fraction(1)})


def forms(**k):
    return {n: lin(S(n)) for n in k}


def element(cells, t, pos, nf):
    return elementwise(cells.at(t, pos), nf, {})


def compare_at(ctx, rule, name, cells, t, pos, want, nf, where, fix=lambda c: c):
    """element of an array; where the part it comes from depends on the size of the grid, small grids decide that it differs"""
    try:
        compare(ctx, rule, name, rewrite(element(cells, t, pos, nf), fix), want, nf, where)
        return
    except Undecided:
        names = sorted({x for f in [*pos, *[n for s in cells.lengths.values() for n in s]] for x in f if x is not None}, key=show)
        for sizes in itertools.product((0, 1, 3), repeat=len(names)):
            m = {x: C(n) for x, n in zip(names, sizes)}
            put = lambda u: rewrite(u, lambda c: m.get(c, c))
            at = lambda f: lin(fold(put(term(f))))
            small = Cells({i: tuple(map(at, s)) for i, s in cells.lengths.items()}, cells.known)
            try:
                got = rewrite(element(small, put(t), [at(f) for f in pos], nf), fix)
            except (AnalysisBroken, IndexError):
                continue
            if not nf.equal(nf.nf(got), nf.nf(fold(put(want)))):
                compare(ctx, rule, name, got, fold(put(want)), nf, where)
                return
        raise


def fold(t):
    return rewrite(t, lambda c: term(lin(c)) if c.op in ('add', 'sub', 'mul', 'neg') and set(lin(c)) <= {None} else c)


def conditions(t):
    out = []
    for x in walk(t):
        if x.op == 'ite' and x.args[0] not in out:
            out.append(x.args[0])
    return out


def extended(ctx, rule, M, nf):
    """values and columns across the seam"""
    x, d, g = S('x'), S('d'), S('g')
    k, q, r, s = (lin(S(n)) for n in 'kqrs')
    fa, fm = f'pyTMD.io.{M}._extend_array', f'pyTMD.io.{M}._extend_matrix'
    with ctx.case(f'{M}:extend'):
        v = value(ctx, fa, kwargs=dict(input_array=x, step_size=d))
        m = value(ctx, fm, kwargs=dict(input_matrix=g))
        n = k.plus(q).plus(ONE)
        masked = lambda c: True if c.op == 'call' and c.args[0] in ('numpy.ma.isMA', 'numpy.ma.isMaskedArray') or c.op == 'cmp' and c.args[0] == 'isinstance' else None
        cells = Cells({x.id: (n,), d.id: (), g.id: (r.plus(s).plus(ONE), n)}, masked)
        beyond = cells.shape(v)[0].plus(n, -1).plus(ONE, -1)
        ctx.ob(rule, f'{M}:columns', cells.shape(m)[1] == cells.shape(v)[0] and cells.shape(m)[0] == r.plus(s).plus(ONE) and set(beyond) == {None} and beyond[None] >= 1,
               'extended arrays and matrices have different lengths', where(ctx, fm))
        many = int(beyond.get(None, 0)) if set(beyond) <= {None} else 0
        for name, part in (('data', data_of), ('mask', mask_of)):
            for j, col in [(Lin(), n.plus(ONE, -1)), (k.plus(ONE), k)] + [(n.plus(Lin({None: Fraction(i + 1)})), Lin({None: Fraction(i)} if i else {})) for i in range(many)]:
                want = T('idx', part(g), T('tuple', term(r), term(col)))
                compare_at(ctx, rule, f'{M}:matrix[{show(term(j), 3)}]:{name}', cells, part(m), [r, j], want, nf, where(ctx, fm))
        for j, want in [(Lin(), T('sub', T('idx', x, C(0)), d)), (k.plus(ONE), T('idx', x, S('k')))] + [
                (n.plus(Lin({None: Fraction(i + 1)})), T('add', T('idx', x, term(n.plus(ONE, -1))), T('mul', C(i + 1), d))) for i in range(many)]:
            last = lambda c: T('idx', x, term(n.plus(ONE, -1))) if c is T('idx', x, C(-1)) else c
            compare_at(ctx, rule, f'{M}:array[{show(term(j), 3)}]', cells, v, [j], want, nf, where(ctx, fa), last)


def found(c, x, at):
    """number of values before a break in longitude"""
    if c.op == 'call' and c.args[0] == 'numpy.searchsorted' and len(c.args) == 3 and c.args[1] is x and c.args[2] is at:
        return True
    return c.op == 'call' and c.args[0] in ('numpy.count_nonzero', 'numpy.sum') and len(c.args) == 2 and c.args[1] is T('cmp', '<', x, at)


def shifted(ctx, rule, M, names, nf):
    """the columns of a shifted grid keep their longitude"""
    x, g, at, w = S('x'), S('g'), S('at'), S('w')
    f = f'pyTMD.io.{M}._shift'
    lon, lon0 = names
    k, q, r, s, m = (lin(S(n)) for n in 'kqrsm')
    for direction in ('west', 'east'):
        with ctx.case(f'{M}:shift:{direction}'):
            kw = {'input_matrix': g, lon: x, lon0: at, 'cyclic': w, 'direction': C(direction)}
            v = value(ctx, f, kwargs=kw)
            breaks = [c for c in walk(v) if found(c, x, at)]
            lost = [c for c in walk(rewrite(v, lambda c: S('i0') if found(c, x, at) else c)) if c.op == 'call' and any(y is at for y in walk(c))]
            ctx.ob(rule, f'{M}:shift:{direction}:break', bool(breaks) and not lost, f'the break is located by {show(lost[0], 4)[:200] if lost else "nothing"}', where(ctx, f))
            if lost or not breaks:
                continue
            v = rewrite(v, lambda c: S('i0') if found(c, x, at) else c)
            last = T('cmp', '<', T('call', 'numpy.abs', T('sub', T('sub', T('idx', x, C(-1)), T('idx', x, C(0))), w)), C(Fraction(1, 10000)))
            repeated = lambda c: nf.equal(nf.bool(c), nf.sub(nf.const(1), nf.bool(T('cmp', '<', C(Fraction(1, 10000)), last.args[1]))))
            single = lambda c: nf.equal(nf.bool(c), nf.bool(T('cmp', '<', C(Fraction(1, 10000)), last.args[1])))
            isma = lambda c: c.op == 'call' and c.args[0] in ('numpy.ma.isMA', 'numpy.ma.isMaskedArray') or c.op == 'cmp' and c.args[0] == 'isinstance'
            odd = [c for c in conditions(v) if not (repeated(c) or single(c) or isma(c))]
            ctx.ob(rule, f'{M}:shift:{direction}:conditions', not odd, 'depends on ' + (show(odd[0], 5)[:200] if odd else ''), where(ctx, f))
            if odd:
                continue
            for rep in (0, 1):
                decide = lambda c, rep=rep: True if isma(c) else bool(rep) if repeated(c) else not rep if single(c) else None
                for part, i0, n, pos, col in (('kept', lin(S('i0')), lin(S('i0')).plus(k).plus(q).plus(ONE), k, lin(S('i0')).plus(k)),
                                              ('moved', k.plus(q).plus(ONE), k.plus(q).plus(ONE).plus(m), m.plus(k), k.plus(Lin({None: Fraction(rep)} if rep else {})))):
                    if rep and part == 'moved':     # the column before the last of a repeated meridian exists
                        n = n.plus(ONE)
                        pos = pos.plus(ONE)
                    cells = Cells({x.id: (n,), w.id: (), g.id: (r.plus(s).plus(ONE), n)}, decide)
                    V = rewrite(v, lambda c: term(i0) if c is S('i0') else c)
                    name = f'{M}:shift:{direction}:{part}:{"repeated" if rep else "once"}'
                    got, glon = V.args[0], V.args[1]
                    for what, p in (('data', data_of), ('mask', mask_of)):
                        compare_at(ctx, rule, f'{name}:{what}', cells, p(got), [r, pos], T('idx', p(g), T('tuple', term(r), term(col))), nf, where(ctx, f))
                    add = {('west', 'kept'): T('neg', w), ('east', 'moved'): w}.get((direction, part), C(0))
                    compare_at(ctx, rule, f'{name}:longitude', cells, glon, [pos], T('add', T('idx', x, term(col)), add), nf, where(ctx, f))


def cropped(ctx, rule, M, names, nf):
    """nodes within bounds, in the convention of the bounds"""
    f = f'pyTMD.io.{M}._crop'
    lon, lat = names
    kw = {'input_matrix': S('g'), lon: S('x'), lat: S('y'), 'bounds': S('bounds'), 'buffer': S('buffer')}
    kw.update({'is_geographic': S('geographic')} if M == 'OTIS' else {})
    with ctx.case(f'{M}:crop'):
        shift = f'pyTMD.io.{M}._shift'
        a = value(ctx, f, kwargs=kw, opaque=[shift])
        b = value(ctx, f'spec.models.cropped_{M}', kwargs=dict(g=S('g'), x=S('x'), y=S('y'), bounds=S('bounds'), buffer=S('buffer'), **({'geographic': S('geographic')} if M == 'OTIS' else {})), opaque=[shift])
        compare_all(ctx, rule, f'{M}:crop', a, b, nf, where(ctx, f), names=('values', 'longitudes', 'latitudes'))
