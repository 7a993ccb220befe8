"""Hash-consed terms: the value numbers of the analysis."""
from fractions import Fraction


class T:
    __slots__ = ('op', 'args', 'id', '__weakref__')
    _table = {}
    _n = 0

    def __new__(cls, op, *args):
        key = (op,) + tuple((a.id, 'T') if isinstance(a, T) else (type(a).__name__, a) for a in args)
        t = cls._table.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op, t.args = op, args
            cls._n += 1
            t.id = cls._n
            cls._table[key] = t
        return t

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return self.id

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        return (T, (self.op,) + self.args)


def show(t, depth=7):
    if not isinstance(t, T):
        return repr(t)
    if depth == 0:
        return '…'
    d = depth - 1
    o, a = t.op, t.args
    if o == 'c':
        v = a[0]
        if isinstance(v, Fraction):
            return str(float(v)) if v.denominator != 1 else str(v.numerator)
        return repr(v)
    if o == 'sym':
        return str(a[0])
    if o in ('add', 'sub', 'mul', 'div', 'pow', 'mod'):
        s = {'add': ' + ', 'sub': ' - ', 'mul': '*', 'div': '/', 'pow': '**', 'mod': '%'}[o]
        return '(' + s.join(show(x, d) for x in a) + ')'
    if o == 'neg':
        return '-' + show(a[0], d)
    if o == 'ite':
        return f'({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})'
    if o == 'idx':
        return f'{show(a[0], d)}[{show(a[1], d)}]'
    if o == 'attr':
        return f'{show(a[1], d)}.{a[0]}'
    if o == 'slice':
        return ':'.join('' if x is NONE else show(x, d) for x in a)
    if o == 'tuple':
        return '(' + ', '.join(show(x, d) for x in a) + ')'
    if o == 'list':
        return '[' + ', '.join(show(x, d) for x in a) + ']'
    if o == 'call':
        return f'{a[0]}(' + ', '.join((x.args[0] + '=' + show(x.args[1], d)) if isinstance(x, T) and x.op == 'kw'
                                     else show(x, d) for x in a[1:]) + ')'
    if o == 'cmp':
        return f'({show(a[1], d)} {a[0]} {show(a[2], d)})'
    return f'{o}(' + ', '.join(show(x, d) for x in a) + ')'


def C(v):
    """constant (floats become exact decimals)"""
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
        return T('c', v)
    if isinstance(v, int):
        return T('c', Fraction(v))
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return T('const', repr(v))
        return T('c', Fraction(repr(v)))
    if isinstance(v, complex):
        if v.real == 0:
            return mul(C(v.imag), T('I'))
        return T('add', C(v.real), mul(C(v.imag), T('I')))
    if isinstance(v, Fraction):
        return T('c', v)
    if v is Ellipsis:
        return T('const', 'Ellipsis')
    if isinstance(v, (list,)):
        return T('list', *[C(x) for x in v])
    if isinstance(v, tuple):
        return T('tuple', *[C(x) for x in v])
    raise TypeError(v)


def mul(a, b):
    return T('mul', a, b)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)
ZERO = C(0)
ONE = C(1)


def S(name):
    return T('sym', name)


def is_const(t):
    return isinstance(t, T) and t.op == 'c'


def num(t):
    """numeric constant value or None (bools excluded)"""
    if isinstance(t, T) and t.op == 'c' and isinstance(t.args[0], Fraction):
        return t.args[0]
    if isinstance(t, T) and t.op == 'neg':
        n = num(t.args[0])
        return None if n is None else -n
    return None


def sval(t):
    return t.args[0] if isinstance(t, T) and t.op == 'c' and isinstance(t.args[0], str) else None


def walk(t, seen=None):
    """every distinct sub-term"""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for a in x.args:
            if isinstance(a, T):
                stack.append(a)


def subst(t, mp, memo=None):
    """replace terms (bottom up) with the mapping {T: T}"""
    memo = {} if memo is None else memo
    if not isinstance(t, T):
        return t
    if t in mp:
        return mp[t]
    if t.id in memo:
        return memo[t.id]
    new = tuple(subst(a, mp, memo) if isinstance(a, T) else a for a in t.args)
    r = t if all(x is y for x, y in zip(new, t.args)) else T(t.op, *new)
    memo[t.id] = r
    return r


def rewrite(t, fn, memo=None):
    """bottom-up rewriting with fn(T)->T"""
    memo = {} if memo is None else memo
    if not isinstance(t, T):
        return t
    if t.id in memo:
        return memo[t.id]
    new = tuple(rewrite(a, fn, memo) if isinstance(a, T) else a for a in t.args)
    r = t if all(x is y for x, y in zip(new, t.args)) else T(t.op, *new)
    r = fn(r)
    memo[t.id] = r
    return r


ERASE_CALL = {'numpy.' + n for n in (
    'ravel', 'atleast_1d', 'atleast_2d', 'array', 'asarray', 'copy', 'reshape', 'squeeze', 'ma.array', 'ma.masked_array',
    'float64', 'float32', 'broadcast_to', 'ascontiguousarray', 'ma.copy', 'expand_dims', 'ma.getdata', 'asanyarray',
    'ma.asarray', 'ma.atleast_2d', 'ma.atleast_1d', 'atleast_3d', 'ma.squeeze', 'ma.getdata', 'longdouble', 'complex128')} | {'float', 'complex', 'pathlib.Path'}


def selector(i):
    """indices of the true elements as the truth values themselves"""
    nz = ('numpy.nonzero', 'numpy.where', 'numpy.ma.nonzero')
    if i.op == 'call' and i.args[0] in nz and len(i.args) == 2:
        return i.args[1]
    parts = i.args if i.op == 'tuple' else (i,)
    if parts and all(p.op == 'idx' and p.args[0].op == 'call' and p.args[0].args[0] in nz and len(p.args[0].args) == 2
                     and p.args[0] is parts[0].args[0] and num(p.args[1]) == k for k, p in enumerate(parts)):
        return parts[0].args[0].args[1]
    return i


def emptyselection(t):
    """if any(c): x[c] = v   (an assignment to no element does nothing, the condition is redundant)"""
    c, x, y = t.args
    if c.op == 'cmp' and c.args[0] == '==' and c.args[2] is TRUE:
        c = c.args[1]
    if not (c.op == 'call' and c.args[0] in ('numpy.any', 'numpy.ma.any') and len(c.args) == 2 or c.op == 'meth' and c.args[0] == 'any' and len(c.args) == 2):
        return False
    c = c.args[1]
    if not boolterm(c):
        return False
    while x.op == 'idx' and y.op == 'idx' and x.args[1] is y.args[1]:
        x, y = x.args[0], y.args[0]
    while x.op == 'store' and selector(x.args[1]) is c:
        x = x.args[0]
    return x is y


def boolterm(t):
    """an array of truth values"""
    while t.op == 'call' and t.args[0] in ERASE_CALL and len(t.args) > 1:
        t = t.args[1]
    if t.op in ('cmp', 'not', 'and', 'or') or t.op == 'attr' and t.args[0] == 'mask':
        return True
    if t.op == 'c':
        return isinstance(t.args[0], bool)
    if t.op == 'ite':
        return boolterm(t.args[1]) and boolterm(t.args[2])
    if t.op == 'call':
        if t.args[0] in ('numpy.any', 'numpy.all', 'numpy.isnan', 'numpy.isfinite', 'numpy.isinf', 'numpy.isclose', 'numpy.logical_not',
                         'numpy.logical_and', 'numpy.logical_or'):
            return True
        return any(isinstance(x, T) and x.op == 'kw' and x.args[0] == 'dtype' and x.args[1].op == 'ext' and x.args[1].args[0] in ('bool', 'numpy.bool_')
                   for x in t.args[1:])
    if t.op in ('store', 'storeloop', 'fill'):
        return boolterm(t.args[1 if t.op == 'storeloop' else 0])
    if t.op == 'idx':
        return boolterm(t.args[0])
    return False
