"""P28 map of ocean pole tide coefficients"""
import re
from .common import *
from sa import records as R
from sa.datasets import Data, line
from sa.interp import binop
from .P25 import Sizes, Reader

EXPLANATION = ('Static evaluation of the reader of the map of ocean pole tide coefficients: the words of a line are symbols, the node that a line with given coordinates is stored at and the longitude and '
               'latitude of every node of the result are propagated constants; every node of the result is traced to the line of its coordinates. Interpolation to points is compared with a reference definition.')
M = 'pyTMD.io.IERS.'
Q = R.Fraction
LINES = S('%lines')
LON = [Q(1, 4) + Q(k, 2) for k in range(720)]
LAT = [Q(359, 4) - Q(k, 2) for k in range(360)]


# ---------------------------------------------------------------- propagation of constants
MEMO = {}


def vector(t):
    """values of an array of known numbers"""
    if t not in MEMO:
        MEMO[t] = vector_(t)
    return MEMO[t]


def number_(x):
    v = num(x)
    if v is None and x.op == 'idx' and num(x.args[1]) is not None:
        y = vector(x.args[0])
        return None if y is None else y[int(num(x.args[1]))]
    return None if v is None else Q(v)


def vector_(t):
    o, a = t.op, t.args
    pos = [x for x in a[1:] if isinstance(x, T) and x.op != 'kw']
    if o == 'call' and a[0] == 'numpy.arange' and pos and all(num(x) is not None for x in pos):
        n = [Q(num(x)) for x in pos]
        lo, hi, step = (Q(0), n[0], Q(1)) if len(n) == 1 else (*n, Q(1))[:3]
        count = -((lo - hi)//step) if step else 0
        return [lo + step*k for k in range(int(max(count, 0)))]
    if o == 'call' and a[0] == 'numpy.linspace' and len(pos) == 3 and all(num(x) is not None for x in pos):
        lo, hi, n = (Q(num(x)) for x in pos)
        return [lo + (hi - lo)*k/(n - 1) for k in range(int(n))]
    if o == 'call' and a[0] in R.SAME and len(pos) == 1:
        return vector(pos[0])
    if o == 'meth' and a[0] in ('copy', 'astype'):
        return vector(a[1])
    if o == 'idx' and a[1].op == 'slice' and all(x is NONE or num(x) is not None for x in a[1].args):
        v = vector(a[0])
        return None if v is None else v[slice(*[None if x is NONE else int(num(x)) for x in a[1].args])]
    if o == 'call' and a[0] in R.ZEROS:
        s = pos[0].args[1] if pos[0].op == 'attr' and pos[0].args[0] == 'shape' else pos[0]
        v = vector(s) if s is not pos[0] or a[0].endswith('_like') else None
        n = len(v) if v is not None else num(s) if s.op != 'tuple' else num(s.args[0]) if len(s.args) == 1 else None
        return None if n is None else [Q('ones' in a[0])]*int(n)
    if o == 'store':
        v = vector(a[0])
        k = slice(*[None if x is NONE else int(num(x)) for x in a[1].args]) if a[1].op == 'slice' and all(x is NONE or num(x) is not None for x in a[1].args) else num(a[1])
        if v is None or k is None:
            return None
        v, w = list(v), vector(a[2])
        if w is None and number_(a[2]) is None:
            return None
        if isinstance(k, slice):
            w = w if w is not None else [number_(a[2])]*len(v[k])
            if len(w) != len(v[k]):
                raise R.Misread('arrays of different lengths')
            v[k] = w
        else:
            v[int(k)] = number_(a[2])
        return v
    if o in ('add', 'sub', 'mul', 'div', 'neg') or o == 'call' and a[0] in ('numpy.abs', 'numpy.fabs', 'abs'):
        xs = [x for x in a if isinstance(x, T)]
        vs = [vector(x) for x in xs]
        n = {len(v) for v in vs if v is not None}
        if len(n) != 1 or any(v is None and number_(x) is None for v, x in zip(vs, xs)):
            return None
        f = {'add': lambda p, q: p + q, 'sub': lambda p, q: p - q, 'mul': lambda p, q: p*q, 'div': lambda p, q: p/q, 'neg': lambda p: -p, 'call': abs}[o]
        cols = [v if v is not None else [number_(x)]*n.copy().pop() for v, x in zip(vs, xs)]
        return [f(*p) for p in zip(*cols)]
    return None


def known(x):
    o, a = x.op, x.args
    if o in ('add', 'sub', 'mul', 'div') and all(num(y) is not None for y in a):
        return binop(o, *a)
    if o == 'neg' and num(a[0]) is not None:
        return C(-num(a[0]))
    if o == 'call' and len(a) == 2 and isinstance(a[1], T) and num(a[1]) is not None:
        n = Q(num(a[1]))
        if a[0] in ('numpy.abs', 'numpy.fabs', 'abs'):
            return C(abs(n))
        if a[0] in ('int', 'numpy.trunc', 'numpy.fix'):
            return C(int(n))
        if a[0] in ('numpy.floor', 'math.floor'):
            return C(n//1)
        if a[0] in ('round', 'numpy.round', 'numpy.rint'):
            return C(round(n))
    if o in ('module', 'mod', 'floordiv') and len(a) == 2 and all(isinstance(y, T) and num(y) is not None for y in a):
        return C(Q(num(a[0])) % Q(num(a[1])) if o == 'mod' else Q(num(a[0]))//Q(num(a[1])))
    if o == 'call' and a[0] in ('len', 'numpy.size', 'numpy.argmin', 'numpy.argmax', 'numpy.searchsorted', 'numpy.count_nonzero'):
        v = vector(a[1])
        if v is not None:
            if a[0] in ('len', 'numpy.size'):
                return C(len(v))
            if a[0] in ('numpy.argmin', 'numpy.argmax'):
                return C(v.index((min if a[0].endswith('min') else max)(v)))
            if a[0] == 'numpy.searchsorted' and len(a) >= 3 and num(a[2]) is not None:
                right = any(y.op == 'kw' and sval(y.args[1]) == 'right' or sval(y) == 'right' for y in a[3:])
                return C(sum(y < num(a[2]) or right and y == num(a[2]) for y in v))
    if o == 'call' and a[0] in ('numpy.ma.isMA', 'numpy.ma.isMaskedArray') and a[1].op == 'storeloop' and a[1].args[1].op == 'call':
        return C(a[1].args[1].args[0].startswith('numpy.ma.'))
    if o == 'idx' and num(a[1]) is not None:
        v = vector(a[0])
        return x if v is None else C(v[int(num(a[1]))])
    if o == 'cmp' and a[0] in ('<', '<=', '==') and all(num(y) is not None for y in a[1:]):
        p, q = (Q(num(y)) for y in a[1:])
        return C({'<': p < q, '<=': p <= q, '==': p == q}[a[0]])
    if o == 'not' and a[0].op == 'c' and isinstance(a[0].args[0], bool):
        return C(not a[0].args[0])
    if o == 'ite' and a[0] in (TRUE, FALSE):
        return a[1] if a[0] is TRUE else a[2]
    return x


class Map(Data):
    """a map of which the lines before those of its nodes are given; the number of lines is a symbol"""
    def __init__(self, z, header):
        super().__init__(z.known, z.shapes, (S('file'), 'compressed'))
        self.header = header
        self.shapes[LINES] = (S('%n'),)

    def text_(self, c):
        self.check(c.args[0], c.args[1].args[0])
        self.binary = c.args[2].args[0]
        return LINES

    def heading(self, t):
        """text of a line of the header"""
        n = self.number(t)
        if n is None or set(n) - {()}:
            return None
        n = n.get((), 0)
        if not 0 <= n < len(self.header):
            raise R.Misread('lines of the map are read as its header')
        return self.header[int(n)]

    def __call__(self, I, f, args, kws, st, node):
        if f.op == 'ext' and f.args[0] in ('re.match', 're.search', 're.findall') and len(args) == 2:
            t, p = self.heading(I.rd(args[1], st)), I.rd(args[0], st)
            if t is not None and p.op == 'c' and isinstance(p.args[0], (str, bytes)):
                if isinstance(p.args[0], bytes) is not self.binary:
                    raise R.Misread('pattern of another type than the lines')
                return C(bool(getattr(re, f.args[0][3:])(p.args[0] if self.binary else p.args[0].encode(), t)))
        if f.op == 'method' and f.args[0] in ('startswith', 'count', 'find', 'strip'):
            t = self.heading(I.rd(f.args[1], st))
            if t is not None and f.args[0] != 'strip':
                return C(getattr(t, f.args[0])(*[x.args[0] if isinstance(x.args[0], bytes) else x.args[0].encode() for x in args]))
        return super().__call__(I, f, args, kws, st, node)

    def extents(self, t):
        v = vector(t)
        return super().extents(t) if v is None else [{(): Q(len(v))}]

    def at(self, t, pos):
        v = vector(t)
        if v is not None and set(pos[0]) <= {()}:
            n = int(pos[0].get((), 0))
            if not 0 <= n < len(v):
                raise R.Misread('beyond the ends of an array')
            return C(v[n])
        if t.op in ('storeloop', 'mu') and any(x is LINES for x in walk(t)):
            return T('node', t, *map(R.aspoly, pos))
        return super().at(t, pos)


def words(F, t, iv):
    """words of the line of an iteration as symbols; the first line and the number of lines which are read"""
    first = []

    def one(x):
        n = F.number(x) if x.op == 'idx' else None
        if n is not None and (iv,) in n:
            first.append(R.plus(n, R.poly(iv), -1))
            return S('%line')
        if x.op == 'meth' and x.args[0] == 'split' and len(x.args) == 2 and x.args[1] is S('%line'):
            return S('%words')
        if x.op == 'meth' and x.args[0] == 'decode' and x.args[1] is S('%line'):
            return S('%line')
        if x.op == 'call' and (x.args[0] in R.SAME or x.args[0] == 'float') and len(x.args) > 1 and (x.args[1] is S('%words') or x.args[1].op == 'word'):
            d = [y.args[1] for y in x.args[2:] if y.op == 'kw' and y.args[0] == 'dtype']
            if d and (not sval(d[0]) and not (d[0].op == 'ext' and 'float' in d[0].args[0]) or sval(d[0]) and R.code(d[0]) not in (('=', 'f8'),) and 'f8' not in sval(d[0]) and 'float64' not in sval(d[0])):
                raise R.Misread('words are read as ' + show(d[0]))
            return x.args[1]
        if x.op == 'idx' and x.args[0] is S('%words') and num(x.args[1]) is not None:
            return T('word', C(int(num(x.args[1]))))
        return x
    return rewrite(t, one), first


def trips(F, over):
    """(first, number) of the iterations of a loop over lines"""
    lo, hi, step = over.args[1].args[:3] if over.args[1].op == 'range' else (None,)*3
    if lo is None or num(step) != 1:
        raise AnalysisBroken('loop over ' + show(over, 4)[:100])
    return R.poly(F.tidy(lo)), R.plus(R.poly(F.tidy(hi)), R.poly(F.tidy(lo)), -1)


class Nodes:
    """the line that is stored at each node of an array filled by a loop over lines"""
    def __init__(self, F, t, header):
        if t.op != 'storeloop' or len(t.args) != 4:
            raise AnalysisBroken('map filled by ' + show(t, 3)[:100])
        over, base, index, v = t.args
        iv = over.args[0]
        F.sizes.add(iv)
        lo, n = trips(F, over)
        if index.op != 'tuple' or len(index.args) != 2:
            raise AnalysisBroken('nodes ' + show(index, 3)[:100])
        self.value, first = words(F, v, iv)
        self.index = []
        for x in index.args:
            y, f = words(F, x, iv)
            self.index.append(y)
            first += f
        starts = {tuple(sorted(R.plus(f, lo).items())) for f in first}
        if len(starts) != 1:
            raise R.Misread('words of different lines')
        if dict(starts.pop()) != {(): Q(header)}:
            raise R.Misread('the first line which is read is not the first after the header')
        if n != {(S('%n'),): Q(1), (): Q(-header)}:
            raise R.Misread('lines after the header are left out')
        shape = F.extents(base)
        self.places = []
        for x, k, values, n in zip(self.index, (0, 1), (LON, LAT), shape):
            at = {}
            for c in values:
                p = rewrite(x, lambda y: C(c) if y is T('word', C(k)) else y)
                p = rewrite(p, known)
                if num(p) is None:
                    if any(y.op == 'word' for y in walk(p)):
                        raise R.Misread(f'position along axis {k}: {show(p, 4)[:100]}')
                    raise AnalysisBroken('position ' + show(p, 4)[:100])
                q = Q(num(p))
                if q.denominator != 1 or not 0 <= q < n[()]:
                    raise R.Misread(f'the line at {float(c)} degrees is stored at {q} of {n[()]} nodes')
                if q in at:
                    raise R.Misread(f'the lines at {float(at[q])} and {float(c)} degrees are stored at the same node')
                at[q] = c
            self.places.append(at)

    def __call__(self, *pos):
        """longitude and latitude of the line at a node"""
        return [p.get(Q(num(x))) for p, x in zip(self.places, pos)]


HEADERS = ([b'---------'], [b'Ocean pole load tide coefficients', b' a --------- line', b'', b'--------- --------- ---------'])


def reader(ctx, header):
    """map as it is returned: sizes, coordinates, node by node"""
    f = M + 'read_binary_file'
    at = where(ctx, f)
    name = f'map:header={len(header)}'
    try:
        F = Map(Sizes(), header)
        I = Reader(ctx.repo, on_call=F)
        v, st = I.run(ctx.repo.func(f), kwargs=dict(model_file=S('file')))
        v = rewrite(F.tidy(I.deep(v, st)), known)
        if v.op not in ('tuple', 'list') or len(v.args) != 5:
            raise R.Misread('returns ' + show(v, 2)[:100])
        *maps, lon, lat = v.args
        size = [int(F.extents(x)[0][()]) for x in (lon, lat)]
        one = lambda x, k: Q(num(rewrite(F.at(x, [{(): Q(k)} if k else {}]), known)))
        glon, glat = ([one(x, k) for k in range(n)] for x, n in zip((lon, lat), size))
    except R.Misread as e:
        ctx.ob('map', name, False, str(e), at)
        return
    steps = {b - a for a, b in zip(glon, glon[1:])}
    ctx.ob('map', f'{name}:longitudes', bool(glon) and steps == {Q(1, 2)} and glon[0] <= -180 and glon[-1] >= 180,
           f'longitudes from {glon[:1]} to {glon[-1:]} in steps of {sorted(map(float, steps))}', at)
    ctx.ob('map', f'{name}:latitudes', glat == LAT, f'latitudes from {glat[:1]} to {glat[-1:]}', at)
    for k, (m, part) in enumerate(zip(maps, ('radial', 'north', 'east'))):
        try:
            e = [dict(x).get(()) for x in F.extents(m)]
            ctx.ob('map', f'{name}:{part}:size', e == size, f'{e} nodes, {size} coordinates', at)
            if e != size:
                continue
            loops, bad, value_ = {}, [], None
            rows = range(len(glat))
            for i, j in [(i, j) for i in range(len(glon)) for j in (0, 211)] + [(i, j) for i in (0, 430, 721) for j in rows]:
                x = F.at(m, [{(): Q(i)} if i else {}, {(): Q(j)} if j else {}])
                if x.op != 'node':
                    bad.append(f'{float(glon[i])}E {float(glat[j])}N is {show(x, 3)[:60]}')
                    continue
                n = loops.get(x.args[0]) or loops.setdefault(x.args[0], Nodes(F, x.args[0], len(header)))
                p, q = n(*x.args[1:])
                if p is None or q is None or (p - glon[i]) % 360 or q != glat[j]:
                    bad.append(f'{float(glon[i])}E {float(glat[j])}N has the coefficients of {p if p is None else float(p)}E {q if q is None else float(q)}N')
            ctx.ob('map', f'{name}:{part}:nodes', not bad, f'{len(bad)} nodes: {bad[0] if bad else ""}', at)
            want = T('add', T('word', C(2*k + 2)), T('mul', T('I'), T('word', C(2*k + 3))))
            for n in loops.values():
                compare(ctx, 'map', f'{name}:{part}:value', n.value, want, NF(), at)
        except R.Misread as e:
            ctx.ob('map', f'{name}:{part}', False, str(e), at)


def options(t):
    """calls of the reader: only the name of the file matters"""
    def one(x):
        if x.op == 'call' and x.args[0] == M + 'read_binary_file':
            return T('call', x.args[0], *[y for y in x.args[1:] if not (y.op == 'kw' and y.args[0] == 'method') and not (y.op == 'kw' and y.args[0] == 'kwargs')])
        if x.op == 'attr' and x.args[0] in ('real', 'imag'):
            return T('call', '%' + x.args[0], x.args[1])
        if x.op == 'setattr' and x.args[1] in ('real', 'imag') and x.args[0].op == 'setattr' and {x.args[1], x.args[0].args[1]} == {'real', 'imag'}:
            p = {x.args[1]: x.args[2], x.args[0].args[1]: x.args[0].args[2]}
            return T('add', p['real'], T('mul', T('I'), p['imag']))
        return T('callv', *x.args[1:]) if x.op == 'meth' and x.args[0] == '__call__' else x
    return rewrite(t, one)


def run(ctx):
    ctx.rule('map', 'every node of the map has the coefficients of the line with its coordinates', 20)
    ctx.rule('points', 'coefficients at points are interpolated from the map', 9)
    ctx.analysed(M + 'read_binary_file', M + '_shift', M + '_extend_array', M + '_extend_matrix')
    for header in HEADERS:
        with ctx.case(f'header={len(header)}'):
            reader(ctx, header)
    f = M + 'extract_coefficients'
    for method in ('spline', 'linear', 'nearest'):
        with ctx.case(f'points:{method}'):
            a, b = (options(value(ctx, q, kwargs=dict(lon=S('lon'), lat=S('lat'), model_file=S('file'), method=C(method)), opaque=[M + 'read_binary_file'])) for q in (f, 'spec.models.pole_coefficients'))
            compare_all(ctx, 'points', method, a, b, NF(), where=where(ctx, f), names=('radial', 'north', 'east'))
    with ctx.case('former name'):
        a = options(value(ctx, M + 'ocean_pole_tide', kwargs=dict(input_file=S('file')), opaque=[M + 'read_binary_file']))
        b = T('call', M + 'read_binary_file', T('kw', 'model_file', S('file')))
        compare(ctx, 'points', 'former name', a, b, NF(), where(ctx, M + 'ocean_pole_tide'))
