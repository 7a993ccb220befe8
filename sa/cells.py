"""Elements of arrays built from parts (slices, stores, concatenations) at symbolic positions.

Positions and lengths are linear forms of symbols which are not negative; whether a position lies in a part is decided by the
signs of the coefficients.  A position is described by its case (for example: node k of the part before the break).
"""
from fractions import Fraction
from .interp import ite
from .repo import AnalysisBroken
from .term import T, C, NONE, TRUE, FALSE, num, show, walk

ZEROS = {'numpy.zeros', 'numpy.ma.zeros', 'numpy.empty', 'numpy.ma.empty', 'numpy.zeros_like', 'numpy.ma.zeros_like', 'numpy.empty_like', 'numpy.ones', 'numpy.full'}
SAME = {'numpy.copy', 'numpy.array', 'numpy.ma.array', 'numpy.asarray', 'numpy.ma.copy', 'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.float64'}
POINTWISE = {'numpy.' + f for f in ('sin', 'cos', 'tan', 'exp', 'sqrt', 'abs', 'radians', 'degrees', 'arctan2', 'arctan', 'log', 'power', 'square', 'where')} | {'complex'}
COLUMNS = {'numpy.column_stack', 'numpy.ma.column_stack'}
ONE = Fraction(1)
JOIN = {'numpy.concatenate', 'numpy.ma.concatenate', 'numpy.append', 'numpy.ma.append', 'numpy.hstack', 'numpy.vstack', 'numpy.ma.hstack', 'numpy.ma.vstack'}


class Lin(dict):
    """linear form: term id -> coefficient, None -> constant"""
    def plus(self, o, k=1):
        r = Lin(self)
        for a, v in o.items():
            r[a] = r.get(a, 0) + k * v
            if not r[a]:
                del r[a]
        return r


def lin(t):
    n = num(t)
    if n is not None:
        return Lin({None: n} if n else {})
    if t.op == 'add':
        return lin(t.args[0]).plus(lin(t.args[1]))
    if t.op == 'sub':
        return lin(t.args[0]).plus(lin(t.args[1]), -1)
    if t.op == 'neg':
        return Lin().plus(lin(t.args[0]), -1)
    if t.op == 'mul':
        for a, b in (t.args, t.args[::-1]):
            if num(a) is not None:
                return Lin().plus(lin(b), num(a))
    return Lin({t: Fraction(1)})


def term(f):
    out = None
    for a, v in sorted(f.items(), key=lambda x: -1 if x[0] is None else x[0].id):
        t = C(v) if a is None else a if v == 1 else T('mul', C(v), a)
        out = t if out is None else T('add', out, t)
    return C(0) if out is None else out


def sign(f):
    """1, 0, -1 of a linear form of symbols which are not negative; 'ge' and 'le' when it can be zero"""
    if not f:
        return 0
    if all(v > 0 for v in f.values()):
        return 1 if None in f else 'ge'
    if all(v < 0 for v in f.values()):
        return -1 if None in f else 'le'
    return None


def at_least(a, b):
    """a >= b, or None"""
    s = sign(a.plus(b, -1))
    if s in (1, 0, 'ge'):
        return True
    if s == -1:
        return False
    s = sign(b.plus(a, -1))
    return False if s == 1 else None


def below(a, b):
    r = at_least(a, b)
    return None if r is None else not r


class Undecided(AnalysisBroken):
    pass


class Cells:
    def __init__(self, lengths, decide=None):
        self.lengths = lengths      # id of array term -> tuple of lengths
        self.known = decide or (lambda c: None)

    def decide(self, c):
        r = self.known(c)
        if r is None and c.op == 'not':
            r = self.decide(c.args[0])
            return None if r is None else not r
        if r is None and c.op == 'cmp' and c.args[0] in ('==', '!='):
            a, b = map(self.extent, c.args[1:])
            if a is not None and b is not None and (len(a) != len(b) or all(x == y or sign(x.plus(y, -1)) in (1, -1) for x, y in zip(a, b))):
                r = (a == b) == (c.args[0] == '==')
        return r

    def extent(self, t):
        """the lengths which the shape of an array stands for"""
        if t.op == 'attr' and t.args[0] == 'shape':
            return self.shape(t.args[1])
        if t.op == 'call' and t.args[0] in ('numpy.shape', 'numpy.ma.shape'):
            return self.shape(t.args[1])
        if t.op in ('tuple', 'list'):
            return tuple(self.size(x) for x in t.args)
        return None

    def shape(self, t):
        if t.id in self.lengths:
            return tuple(self.lengths[t.id])
        if t.op == 'call' and t.args[0] in ZEROS:
            s = t.args[1]
            if t.args[0].endswith('_like'):
                return self.shape(s)
            if s.op == 'attr' and s.args[0] == 'shape':
                return self.shape(s.args[1])
            if s.op == 'call' and s.args[0] == 'numpy.shape':
                return self.shape(s.args[1])
            return tuple(self.size(x) for x in (s.args if s.op in ('tuple', 'list') else (s,)))
        if t.op in ('store', 'setattr', 'fill'):
            return self.shape(t.args[0])
        if t.op == 'attr' and t.args[0] in ('data', 'mask', 'real', 'imag'):
            return self.shape(t.args[1])
        if t.op == 'attr' and t.args[0] == 'T':
            return self.shape(t.args[1])[::-1]
        if t.op == 'call' and t.args[0] in SAME | {'numpy.roll', 'numpy.flip', 'numpy.abs'}:
            return self.shape(t.args[1])
        if t.op == 'meth' and t.args[0] in ('copy', 'astype'):
            return self.shape(t.args[1])
        if t.op in ('add', 'sub', 'mul', 'div', 'pow', 'cmp', 'and', 'or') or t.op == 'call' and t.args[0] in POINTWISE:
            out = ()
            for x in t.args:
                if isinstance(x, T) and num(x) is None and x.op not in ('kw', 'i'):
                    s = self.shape(x)
                    if len(s) > len(out):
                        out, s = s, out
                    out = out[:len(out) - len(s)] + tuple(b if a == {None: ONE} else a for a, b in zip(out[len(out) - len(s):], s))
            return out
        if t.op in ('sym', 'I', 'ext'):
            return ()
        if t.op == 'call' and t.args[0] == 'numpy.broadcast_to':
            s = t.args[2]
            s = s.args[1] if s.op == 'kw' else s
            if s.op == 'attr' and s.args[0] == 'shape' or s.op == 'call' and s.args[0] == 'numpy.shape':
                return self.shape(s.args[1])
            return tuple(self.size(x) for x in (s.args if s.op in ('tuple', 'list') else (s,)))
        if t.op in ('neg', 'not'):
            return self.shape(t.args[0])
        if t.op == 'ite':
            v = self.decide(t.args[0])
            if v is not None:
                return self.shape(t.args[1 if v else 2])
            out = ()
            for x in t.args:        # an array of conditions chooses element by element
                try:
                    s = self.shape(x)
                except AnalysisBroken:
                    if x is not t.args[0]:
                        raise
                    continue
                out = s if len(s) > len(out) else out
            return out
        if t.op in ('list', 'tuple'):
            return (Lin({None: Fraction(len(t.args))}),) + (self.shape(t.args[0]) if t.args else ())
        if t.op == 'idx':
            return tuple(n for _, n in self.parts(t) if n is not None)
        if t.op == 'call' and t.args[0] in JOIN | COLUMNS:
            items, axis = self.join(t)
            s = list(self.shape(items[0]))
            s = s or [Lin({None: Fraction(1)})]
            for x in items[1:]:
                s[axis] = s[axis].plus((self.shape(x) or [Lin({None: Fraction(1)})])[axis])
            return tuple(s)
        if t.op == 'call' and t.args[0] == 'numpy.pad':
            return tuple(n.plus(a).plus(b) for n, (a, b) in zip(self.shape(t.args[1]), self.pads(t)))
        if t.op in ('c', 'pi', 'const'):
            return ()
        raise AnalysisBroken('shape of ' + show(t, 3)[:120])

    def size(self, t):
        """linear form of an expression of lengths"""
        def f(x):
            if x.op == 'len':
                return self.shape(x.args[0])[0]
            if x.op == 'attr' and x.args[0] == 'size':
                return self.shape(x.args[1])[0]
            if x.op == 'idx' and num(x.args[1]) is not None and x.args[0].op in ('attr', 'call'):
                a = x.args[0]
                if a.op == 'attr' and a.args[0] == 'shape' or a.op == 'call' and a.args[0] == 'numpy.shape':
                    return self.shape(a.args[1])[int(num(x.args[1]))]
            if x.op == 'ite':
                v = self.decide(x.args[0])
                if v is None:
                    raise AnalysisBroken('undecided length ' + show(x, 3)[:120])
                return f(x.args[1 if v else 2])
            if x.op in ('add', 'sub'):
                return f(x.args[0]).plus(f(x.args[1]), 1 if x.op == 'add' else -1)
            if x.op == 'neg':
                return Lin().plus(f(x.args[0]), -1)
            if x.op == 'mul' and num(x.args[0]) is not None:
                return Lin().plus(f(x.args[1]), num(x.args[0]))
            return lin(x)
        return f(t)

    def join(self, t):
        items = t.args[1].args if t.args[1].op in ('list', 'tuple') else [x for x in t.args[1:3] if x.op != 'kw']
        if t.args[0] in COLUMNS:
            return [x if len(self.shape(x)) > 1 else T('idx', x, T('tuple', T('slice', NONE, NONE, NONE), NONE)) for x in items], 1
        axis = 1 if 'hstack' in t.args[0] and len(self.shape(items[0])) > 1 else 0
        for k in t.args[1:]:
            if k.op == 'kw' and k.args[0] == 'axis':
                axis = int(num(k.args[1]))
        if t.args[1].op in ('list', 'tuple') and len(t.args) > 2 and t.args[2].op != 'kw':
            axis = int(num(t.args[2]))
        return items, axis

    def pads(self, t):
        w = t.args[2]
        if w.op in ('tuple', 'list') and w.args[0].op in ('tuple', 'list'):
            return [tuple(self.size(y) for y in x.args) for x in w.args]
        raise AnalysisBroken('padding ' + show(t, 3)[:120])

    def parts(self, t):
        """(start, length or None) along each axis of an indexed array"""
        base, index = t.args
        s = list(self.shape(base))
        index = list(index.args) if index.op == 'tuple' else [index]
        index += [T('slice', NONE, NONE, NONE)] * (len(s) - sum(i is not NONE for i in index))
        out = []
        for i in index:         # a new axis has no start in the array
            out.append((None, Lin({None: ONE})) if i is NONE else self.part(i, s.pop(0)))
        return out

    def part(self, i, n):
        if i.op == 'slice' or i.op == 'call' and i.args[0] == 'slice':
            x = [a for a in (i.args if i.op == 'slice' else i.args[1:])]
            x = [NONE] * (3 - len(x)) + x if len(x) == 1 else x + [NONE] * (3 - len(x))
            if x[2] is not NONE and x[2] is not C(1):
                raise AnalysisBroken('slice with a step')
            a = Lin() if x[0] is NONE else self.bound(self.size(x[0]), n)
            b = n if x[1] is NONE else self.bound(self.size(x[1]), n)
            return a, b.plus(a, -1)
        return self.bound(self.size(i), n), None

    def bound(self, f, n):
        """position counted from the start of an axis"""
        s = sign(f)
        if s in (0, 1, 'ge'):
            return f
        if s == -1:
            return f.plus(n)
        r = at_least(f, Lin())
        if r is None:
            raise Undecided('sign of a bound ' + show(term(f), 4))
        return f if r else f.plus(n)

    def at(self, t, pos):
        """element of an array at positions (linear forms)"""
        if t.op == 'store':
            base, index, v = t.args
            s = self.shape(base)
            index = index.args if index.op == 'tuple' else (index,)
            inside, inner = True, []
            for k, n in enumerate(s):
                i = index[k] if k < len(index) else T('slice', NONE, NONE, NONE)
                a, m = self.part(i, n)
                lo = at_least(pos[k], a)
                hi = below(pos[k], a.plus(Lin({None: Fraction(1)}) if m is None else m))
                if lo is False or hi is False:
                    inside = False
                    break
                if lo is None or hi is None:
                    raise Undecided(f'position {show(term(pos[k]), 4)} in {show(i, 4)}')
                if m is not None:
                    inner.append(pos[k].plus(a, -1))
            if not inside:
                return self.at(base, pos)
            return self.broadcast(v, inner)
        if t.id in self.lengths:
            return T('idx', t, T('tuple', *map(term, pos)) if len(pos) > 1 else term(pos[0]))
        if t.op == 'attr' and t.args[0] in ('data', 'mask') and t.args[1].id in self.lengths:
            return T('idx', t, T('tuple', *map(term, pos)) if len(pos) > 1 else term(pos[0]))
        if t.op == 'attr' and t.args[0] in ('data', 'mask') and t.args[1].op == 'call' and t.args[1].args[0] in ZEROS:
            return FALSE if t.args[0] == 'mask' else C(0)
        if t.op == 'attr' and t.args[0] in ('data', 'mask') and t.args[1].op == 'idx':
            return self.at(T('idx', T('attr', t.args[0], t.args[1].args[0]), t.args[1].args[1]), pos)
        if t.op == 'attr' and t.args[0] in ('data', 'mask') and t.args[1].op == 'call' and t.args[1].args[0] in JOIN:
            items, axis = self.join(t.args[1])
            return self.at(T('call', 'numpy.concatenate', T('list', *[T('attr', t.args[0], x) for x in items]), T('kw', 'axis', C(axis))), pos)
        if t.op == 'setattr' and t.args[1] == 'data':
            return self.broadcast(t.args[2], pos)
        if t.op == 'setattr':
            return self.at(t.args[0], pos)
        if t.op == 'fill':
            return self.broadcast(t.args[1], pos)
        if t.op == 'call' and t.args[0] in ZEROS:
            return C(1) if t.args[0] == 'numpy.ones' else C(0)
        if t.op == 'idx':
            p = list(pos)
            inner = []
            for a, m in self.parts(t):
                if a is None:
                    p.pop(0)
                    continue
                inner.append(a if m is None else a.plus(p.pop(0)))
            return self.at(t.args[0], inner)
        if t.op == 'call' and t.args[0] in SAME:
            return self.at(t.args[1], pos)
        if t.op == 'meth' and t.args[0] in ('copy', 'astype'):
            return self.at(t.args[1], pos)
        if t.op == 'attr' and t.args[0] == 'T':
            return self.at(t.args[1], pos[::-1])
        if t.op == 'ite':
            v = self.decide(t.args[0])
            if v is not None:
                return self.broadcast(t.args[1 if v else 2], pos)
            return ite(*[self.broadcast(x, pos) for x in t.args])
        if t.op == 'call' and t.args[0] == 'numpy.broadcast_to':
            return self.broadcast(t.args[1], pos)
        if t.op == 'call' and t.args[0] in POINTWISE:
            return T('call', t.args[0], *[self.broadcast(x, pos) if x.op != 'kw' else x for x in t.args[1:]])
        if t.op in ('add', 'sub', 'mul', 'div', 'and', 'or', 'neg', 'not', 'pow'):
            return T(t.op, *[self.broadcast(x, pos) for x in t.args])
        if t.op == 'cmp':
            return T('cmp', t.args[0], *[self.broadcast(x, pos) for x in t.args[1:]])
        if t.op in ('list', 'tuple'):
            i = pos[0]
            if set(i) <= {None}:
                x = t.args[int(i.get(None, 0))]
                return self.at(x, pos[1:]) if len(pos) > 1 else x
        if t.op == 'call' and t.args[0] in JOIN | COLUMNS:
            items, axis = self.join(t)
            p = list(pos)
            for x in items:
                n = (self.shape(x) or [Lin({None: Fraction(1)})])[axis]
                r = below(p[axis], n)
                if r is None:
                    raise Undecided(f'position {show(term(p[axis]), 4)} in a joined array')
                if r:
                    return self.broadcast(x, p)
                p[axis] = p[axis].plus(n, -1)
        if t.op == 'call' and t.args[0] == 'numpy.roll':
            axis = next((int(num(k.args[1])) for k in t.args if isinstance(k, T) and k.op == 'kw' and k.args[0] == 'axis'), None)
            if axis is None:
                axis = int(num(t.args[3])) if len(t.args) > 3 and t.args[3].op != 'kw' else 0
            p = list(pos)
            n = self.shape(t.args[1])[axis]
            p[axis] = self.wrap(p[axis].plus(self.size(t.args[2]), -1), n)
            return self.at(t.args[1], p)
        if t.op == 'call' and t.args[0] == 'numpy.pad':
            mode = next((k.args[1].args[0] for k in t.args if isinstance(k, T) and k.op == 'kw' and k.args[0] == 'mode'), None) or t.args[3].args[0]
            p = []
            for q, n, (a, b) in zip(pos, self.shape(t.args[1]), self.pads(t)):
                q = q.plus(a, -1)
                if mode == 'wrap':
                    q = self.wrap(q, n)
                elif mode == 'edge':
                    if below(q, Lin()):
                        q = Lin()
                    elif at_least(q, n):
                        q = n.plus(Lin({None: Fraction(-1)}))
                else:
                    raise AnalysisBroken('padding mode')
                p.append(q)
            return self.at(t.args[1], p)
        raise AnalysisBroken('element of ' + show(t, 3)[:120])

    def wrap(self, q, n):
        for _ in range(3):
            if below(q, Lin()):
                q = q.plus(n)
            elif at_least(q, n):
                q = q.plus(n, -1)
            elif at_least(q, Lin()) is None or below(q, n) is None:
                raise Undecided('position ' + show(term(q), 4))
        return q

    def broadcast(self, v, pos):
        s = self.shape(v) if v.op not in ('sym', 'c', 'pi', 'const', 'I') or v.id in self.lengths else ()
        p = [Lin() if n == {None: ONE} else q for q, n in zip(pos[len(pos) - len(s):], s)]
        return self.at(v, p) if s else v
