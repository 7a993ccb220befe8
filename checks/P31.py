"""P31 container of constituents"""
import ast
from .common import *
from sa.interp import PathRaises

EXPLANATION = ('Static evaluation of sequences of operations on the container of constituents, the fields being symbols: names, order and values after each sequence are compared with those of an ordered mapping. '
               'Amplitudes and phases are read at one node with symbolic real and imaginary part, for each sign of the phase and each state of the mask.')
SPEC = 'spec.container.'
K = 'pyTMD.io.constituents.constituents'
A, B, D, E = S('A'), S('B'), S('D'), S('E')
RE, IM, FILL, LOW = S('re'), S('im'), S('fill'), S('%phase')
HALF = C(180)


class Sequences(Interp):
    """a list has no items after its last"""
    def index(self, b, i, st):
        c = self.rd(b, st)
        k = num(i)
        if c.op in ('list', 'tuple') and k is not None and not -len(c.args) <= k < len(c.args):
            raise PathRaises('IndexError')
        return super().index(b, i, st)


def raised(I, f, a, k, st, node):
    if f.op != 'exc':
        return None
    if I.definite:
        return C(bool({'Exception', 'BaseException', 'IndexError', 'LookupError'} & {n.strip(' ()').split('.')[-1] for n in f.args[0].split(',')}))
    calls = [n for b in node.body for n in ast.walk(b) if isinstance(n, (ast.Call, ast.Raise))]
    return None if calls else FALSE


def names(*xs):
    return T('list', *[C(x) for x in xs])


def pair(n, v):
    return T('tuple', C(n), v)


def tup(*xs):
    return T('tuple', *[x if isinstance(x, T) else C(x) for x in xs])


MSN = ('m2', 's2', 'n2')
SEQUENCES = [
    ('append', 'order', {}, tup(names(*MSN), 3, A, B, D, B)), ('append', 'chained', {}, tup(names('m2', 's2'), A, B)), ('append', 'independent', {}, tup(names('m2'), names('s2'))),
    ('pop', 'removed', {}, tup(B, names('m2', 'n2'), 2, A, D, FALSE)), ('pop', 'returned', {}, tup(names('s2', 'n2', 'm2'), A, B, D)),
    ('update', 'updated', {}, tup(names(*MSN), 3, A, E, D)), ('update', 'missing', {}, None), ('get', 'copied', {}, T('call', 'numpy.array', A)),
    ('__next__', 'iterated', {}, T('list', pair('m2', A), pair('s2', B), pair('m2', A))), ('__next__', 'restarted', {}, tup(pair('m2', A), pair('m2', A), pair('s2', B))), ('__next__', 'ended', {}, None),
    ('__init__', 'empty', {}, tup(T('list'), 0, NONE)), ('__setitem__', 'given', {}, tup(A, S('v'), A, T('list')))]


class Node:
    """value of an array at one node"""
    def __init__(self, nf, masked, sign):
        self.nf, self.masked, self.sign = nf, masked, sign

    def condition(self, c):
        o, a = c.op, c.args
        if c in (TRUE, FALSE):
            return c is TRUE
        if o in ('not', 'invert'):
            return not self.condition(a[0])
        if o == 'and':
            return all([self.condition(x) for x in a])
        if o == 'or':
            return any([self.condition(x) for x in a])
        if o == 'cmp' and a[0] in ('<', '<=', '>', '>='):
            d = self.nf.sub(self.nf.nf(self.at(a[1])), self.nf.nf(self.at(a[2])))
            for unit in (LOW, T('div', T('mul', LOW, S('%pi')), HALF)):
                for k in (1, -1):
                    if self.nf.equal(d, self.nf.nf(T('mul', C(k), unit))):
                        v = k*self.sign
                        return {'<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0}[a[0]]
        if o == 'call' and a[0] in ('numpy.zeros_like', 'numpy.zeros', 'numpy.ones_like', 'numpy.ones'):
            return 'ones' in a[0]
        m = strip_copy(c)
        if m is getattr_term(B, 'mask') or m.op == 'call' and m.args[0] in ('numpy.ma.getmaskarray', 'numpy.ma.getmask') and m.args[1] is B:
            return self.masked
        raise AnalysisBroken(f'condition {show(c, 4)} at a node')

    def at(self, t):
        o, a = t.op, t.args
        if t is B or t is getattr_term(B, 'data'):
            return T('add', RE, T('mul', C(1j), IM))
        if o == 'c' or o == 'sym':
            return t
        if o == 'attr' or o == 'getattr':
            n, x = (a[0], a[1]) if isinstance(a[0], str) else (a[1], a[0])
            if x is B or x is getattr_term(B, 'data'):
                return {'real': RE, 'imag': IM, 'fill_value': FILL}[n]
            if n == 'fill_value':
                return FILL
            if n == 'data':
                return self.at(x)
        if o == 'setattr':
            return self.at(a[2]) if a[1] == 'data' else self.at(a[0])
        if o == 'store':
            return self.at(a[2]) if a[1].op != 'slice' and self.condition(a[1]) else self.at(a[0])
        if o == 'fill':
            return self.at(a[1])
        if o == 'idx':
            return self.at(a[0])
        if o == 'ite':
            return self.at(a[1]) if self.condition(a[0]) else self.at(a[2])
        if o == 'meth' and a[0] == 'filled':
            return FILL if self.masked else self.at(a[1])
        if o == 'call':
            f = a[0]
            pos = [x for x in a[1:] if x.op != 'kw']
            kw = {x.args[0]: x.args[1] for x in a[1:] if x.op == 'kw'}
            if f == 'numpy.where':
                return self.at(pos[1]) if self.condition(pos[0]) else self.at(pos[2])
            if f in ('numpy.copy', 'numpy.array', 'numpy.ma.array', 'numpy.ma.masked_array', 'numpy.ma.getdata', 'numpy.ma.copy', 'numpy.asarray', 'copy.copy'):
                return self.at(pos[0])
            full = T('add', RE, T('mul', C(1j), IM))
            if f in ('abs', 'numpy.abs', 'numpy.absolute', 'numpy.ma.abs') and self.at(pos[0]) is full:
                return T('pow', T('add', T('mul', RE, RE), T('mul', IM, IM)), C(0.5))
            if f in ('numpy.hypot', 'numpy.ma.hypot'):
                x, y = (self.at(p) for p in pos)
                return T('pow', T('add', T('mul', x, x), T('mul', y, y)), C(0.5))
            if f in ('numpy.arctan2', 'numpy.ma.arctan2'):
                x, y = (self.nf.nf(self.at(p)) for p in pos)
                if self.nf.equal(y, self.nf.nf(RE)):
                    for k in (1, -1):
                        if self.nf.equal(x, self.nf.nf(T('mul', C(-k), IM))):
                            return T('div', T('mul', T('mul', C(k), LOW), S('%pi')), HALF)
            if f == 'numpy.angle':
                z, k = pos[0], -1
                if z.op == 'call' and z.args[0] in ('numpy.conj', 'numpy.conjugate'):
                    z, k = z.args[1], 1
                if self.at(z) is full:
                    v = T('mul', C(k), LOW)
                    return v if kw.get('deg') is TRUE else T('div', T('mul', v, S('%pi')), HALF)
            if f in ('numpy.degrees', 'numpy.rad2deg', 'numpy.radians', 'numpy.deg2rad'):
                k = T('div', HALF, S('%pi'))
                return T('mul' if f in ('numpy.degrees', 'numpy.rad2deg') else 'div', self.at(pos[0]), k)
            if f in ('numpy.mod', 'numpy.remainder'):
                return self.modulo(self.at(pos[0]), pos[1])
        if o == 'mod':
            return self.modulo(self.at(a[0]), a[1])
        if o == 'pi' or o == 'call' and a[0] == 'pi':
            return S('%pi')
        if o in ('add', 'sub', 'mul', 'div', 'neg', 'pow'):
            return T(o, *[self.at(x) for x in a])
        raise AnalysisBroken(f'value {show(t, 4)} at a node')

    def modulo(self, x, n):
        """remainder of a phase in (-180, 180], or of one that is not negative already"""
        if num(n) == 360:
            y = self.nf.nf(x)
            if self.nf.equal(y, self.nf.nf(LOW)):
                return T('add', LOW, C(360)) if self.sign < 0 else LOW
            if self.nf.equal(y, self.nf.nf(T('add', LOW, C(360)))):
                return x if self.sign < 0 else LOW
        raise AnalysisBroken('remainder of a phase')


def strip_copy(c):
    while c.op == 'call' and c.args[0] in ('numpy.copy', 'copy.copy', 'numpy.array', 'numpy.asarray') or c.op == 'attr' and c.args[0] == 'data':
        c = c.args[1]
    return c


def run(ctx):
    ctx.rule('sequence', 'the container is an ordered mapping of names to fields', 13)
    ctx.rule('numbers', 'each field has its Doodson, Cartwright and extended numbers, none when they are not known', 9)
    ctx.rule('shape', 'shape of the fields', 1)
    ctx.rule('polar', 'amplitude and phase of a field', 24)

    def evaluated(q, call=raised, **kw):
        I = Sequences(ctx.repo, opaque=['pyTMD.arguments.doodson_number'], on_call=call)
        v, st = I.run(ctx.repo.func(SPEC + q), kwargs=kw)
        ctx.analysed(*[x for x in I.inlined if not x.startswith('spec.')])
        return v
    for m, q, kw, required in SEQUENCES:
        with ctx.case(q):
            v = rewrite(evaluated(q, **kw), lambda x: x.args[1] if x.op == 'call' and x.args[0] in ('copy.copy', 'copy.deepcopy', 'numpy.copy') and len(x.args) == 2 else x)
            at = where(ctx, f'{K}.{m}')
            if required is None:
                ok = v.op == 'noreturn'
                ctx.ob('sequence', q, ok, 'an exception is raised' if ok else f'has the value {show(v, 5)} where an exception is required', at)
                continue
            ok = v is required
            ctx.ob('sequence', q, ok, show(v, 8)[:300] if ok else f'found {show(v, 8)[:400]} ; required {show(required, 8)[:300]}', at)
    with ctx.case('shape'):
        v = evaluated('dimensions')
        ctx.ob('shape', 'shape', v in [getattr_term(x, 'shape') for x in (A, B)], f'{show(v, 5)}', where(ctx, K + '.shape'))
    # numbers of a field that is known (in the first and third place) and of one that is not
    for fails in ('ValueError', 'AssertionError', None):
        state = dict(flag=False)

        def call(I, f, a, k, st, node):
            if f.op == 'exc':
                ns = {n.strip(' ()').split('.')[-1] for n in f.args[0].split(',')}
                on, state['flag'] = state['flag'], False
                return C(bool(on and ns & {fails, 'Exception', 'BaseException'}))
            if f.op == 'fn' and f.args[0].endswith('.doodson_number') and a and sval(a[0]) == 'x9' and fails:
                state['flag'] = True
            return None
        with ctx.case(f'numbers:{fails}'):
            v = evaluated('numbers', call=call, name=C('x9'))
            for k, (prop, form) in enumerate((('doodson_number', 'Doodson'), ('cartwright_number', 'Cartwright'), ('extended_doodson', 'Extended'))):
                x = v.args[k] if v.op == 'tuple' else v
                ok = x.op == 'list' and len(x.args) == 3
                if ok:
                    for n, y in zip(('m2', 'x9', 'k1'), x.args):
                        if n == 'x9' and fails:
                            ok = ok and y is NONE
                        else:
                            kws = {z.args[0]: z.args[1] for z in y.args[1:] if isinstance(z, T) and z.op == 'kw'} if y.op == 'call' else {}
                            first = kws.get('constituents') or next((z for z in y.args[1:] if z.op != 'kw'), None) if y.op == 'call' else None
                            ok = ok and y.op == 'call' and y.args[0].endswith('doodson_number') and sval(first) == n and sval(kws.get('formalism', C('Doodson'))) == form and kws.get('raise_error', TRUE) is TRUE
                ctx.ob('numbers', f'{prop}:{fails or "known"}', ok, show(x, 4)[:400], where(ctx, f'{K}.{prop}'))
    for q in ('amplitude', 'phase'):
        with ctx.case(q):
            v = evaluated(q)
            for masked in (False, True):
                for name, sign in (('negative', -1), ('zero', 0), ('positive', 1)):
                    nf = NF()
                    tag = f'{q}:{"masked" if masked else "valid"}:{name}'
                    n = Node(nf, masked, sign)
                    got = n.at(data_of(v)) if v.op in ('setattr', 'store', 'ite') else n.at(v)
                    need = FILL if masked else T('pow', T('add', T('mul', RE, RE), T('mul', IM, IM)), C(0.5)) if q == 'amplitude' else T('add', LOW, C(360)) if sign < 0 else LOW
                    compare(ctx, 'polar', tag, got, need, nf, where(ctx, f'{K}.{q}'))
                    m = mask_of(v)
                    ok = n.condition(m) == masked
                    ctx.ob('polar', tag + ':mask', ok, f'mask {show(m, 4)}', where(ctx, f'{K}.{q}'))
