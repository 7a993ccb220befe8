"""Contents of binary files: what a program writes, and what a program reads from a file of known contents.

A file is a sequence of segments (type, values) and repetitions of sequences; positions and lengths are polynomials of sizes which are
not negative.  A position lies in a segment when the differences to its ends have coefficients of one sign only.
"""
from fractions import Fraction
from itertools import product
from .cells import ZEROS
from .interp import binop, ite
from .repo import AnalysisBroken
from .term import T, C, S, NONE, TRUE, FALSE, num, show, sval, walk, rewrite, subst

START, OTHER = T('start'), S('%other')
SAME = {'numpy.copy', 'numpy.array', 'numpy.ma.array', 'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.ma.copy', 'numpy.atleast_1d', 'numpy.float64', 'numpy.require'}
TYPES = {'numpy.int32': '=i4', 'numpy.int64': '=i8', 'numpy.float32': '=f4', 'numpy.float64': '=f8', 'numpy.int16': '=i2', 'int': '=i8', 'float': '=f8', 'numpy.int8': '=i1', 'numpy.uint8': '=u1'}


class Misread(Exception):
    """what a program reads is not what lies there"""


class Unplaced(Exception):
    """position not decided"""


# ---------------------------------------------------------------- polynomials
def poly(t):
    """polynomial of a term: sorted tuple of atoms -> coefficient"""
    n = num(t)
    if n is not None:
        return {(): n} if n else {}
    if t.op in ('add', 'sub'):
        return plus(poly(t.args[0]), poly(t.args[1]), 1 if t.op == 'add' else -1)
    if t.op == 'neg':
        return plus({}, poly(t.args[0]), -1)
    if t.op == 'mul':
        return times(poly(t.args[0]), poly(t.args[1]))
    if t.op == 'div' and num(t.args[1]):
        return times(poly(t.args[0]), {(): 1/num(t.args[1])})
    if t.op == 'pow' and num(t.args[1]) in (1, 2, 3):
        p = q = poly(t.args[0])
        for _ in range(int(num(t.args[1])) - 1):
            q = times(q, p)
        return q
    if t.op == 'sum':
        dom, x = t.args
        r = dom.args[1]
        n = times_of(r)
        if n is not None and not any(y is dom.args[0] for y in walk(x)):
            return times(n, poly(x))
    if t.op in ('fdiv', 'mod'):
        r = divided(poly(t.args[0]), num(t.args[1]))
        if r is not None:
            return r[t.op == 'mod']
    if t.op == 'call' and t.args[0] in ('int', 'numpy.int64', 'numpy.int32', 'numpy.prod') and len(t.args) == 2 and t.args[0] != 'numpy.prod':
        return poly(t.args[1])
    return {(t,): Fraction(1)}


def divided(p, n):
    """quotient and rest by a number"""
    if n is None or n < 1 or n.denominator != 1:
        return None
    c = p.get((), Fraction(0))
    q = {m: v/n for m, v in p.items() if m}
    if any(v.denominator != 1 for v in q.values()) or c.denominator != 1:
        return None
    return plus(q, {(): c//n} if c//n else {}), ({(): c % n} if c % n else {})


def times_of(r):
    """number of iterations over a range"""
    if r.op != 'range' or not num(r.args[2]) or num(r.args[2]) < 1:
        return None
    n = plus(poly(r.args[1]), poly(r.args[0]), -1)
    step = num(r.args[2])
    if step == 1:
        return n
    d = divided(plus(n, {(): step - 1} if step != 1 else {}), step)
    return None if d is None else d[0]


def plus(p, q, k=1):
    r = dict(p)
    for m, v in q.items():
        r[m] = r.get(m, 0) + k*v
        if not r[m]:
            del r[m]
    return r


def times(p, q):
    r = {}
    for (a, v), (b, w) in product(p.items(), q.items()):
        m = tuple(sorted(a + b, key=lambda x: x.id))
        r[m] = r.get(m, 0) + v*w
        if not r[m]:
            del r[m]
    return r


def aspoly(p):
    out = C(0)
    for m, v in sorted(p.items(), key=lambda x: [a.id for a in x[0]]):
        t = C(v)
        for a in m:
            t = binop('mul', t, a)
        out = binop('add', out, t)
    return out


# ---------------------------------------------------------------- programs which read and write files
def code(t):
    """type of a number in a file: order, kind and size"""
    if t is None or t is NONE:
        return '=f8'
    if t.op == 'call' and t.args[0] == 'numpy.dtype':
        return code(t.args[1])
    if t.op == 'ext':
        s = TYPES.get(t.args[0])
    elif t.op == 'attr' and t.args[0] == 'dtype':
        return typeof(t.args[1])
    else:
        s = sval(t)
        s = {'int': '=i8', 'float': '=f8'}.get(s, s)
    if s is None:
        raise AnalysisBroken('type ' + show(t, 3))
    order, s = (s[0], s[1:]) if s[0] in '<>=!|' else ('=', s)
    order = {'!': '>', '|': '='}.get(order, order)
    s = {'f': 'f4', 'd': 'f8', 'i': 'i4', 'h': 'i2', 'q': 'i8', 'b': 'i1', 'B': 'u1', 'l': 'i4'}.get(s, s)
    return order + s


def size(c):
    return int(c[2:])


def typeof(t):
    """type of the elements of an array (None: that of an argument)"""
    if t.op == 'meth' and t.args[0] == 'astype':
        return code(t.args[2].args[1] if t.args[2].op == 'kw' else t.args[2])
    if t.op == 'words':
        return t.args[0]
    if t.op == 'meth' and t.args[0] in ('copy', 'byteswap'):
        return typeof(t.args[1])
    if t.op in ('store', 'fill', 'storeloop', 'setattr', 'idx'):
        return typeof(t.args[1] if t.op == 'storeloop' else t.args[0])
    if t.op == 'call' and t.args[0].startswith('numpy.'):
        n = t.args[0].split('.')[-1]
        for x in t.args[1:]:
            if isinstance(x, T) and x.op == 'kw' and x.args[0] == 'dtype':
                return code(x.args[1])
        if n in ('zeros', 'ones', 'empty', 'full'):
            return code(t.args[2]) if n != 'full' and len(t.args) > 2 and t.args[2].op != 'kw' else '=f8'
        if n in ('array', 'asarray', 'ascontiguousarray', 'asanyarray', 'copy', 'ravel', 'reshape', 'transpose'):
            if n in ('array', 'asarray') and len(t.args) > 2 and t.args[2].op != 'kw':
                return code(t.args[2])
            return typeof(t.args[1])
    return None


class Files:
    """hook of the interpreter: files of known or written contents"""
    def __init__(self, sizes, shapes, contents=None, distinct=()):
        self.sizes, self.shapes, self.contents, self.distinct = sizes, dict(shapes), contents, set(distinct)
        self.before, self.shapes_of_loops = {}, {}

    def positive(self, p, strict=False):
        """a polynomial of sizes is not negative (positive)"""
        return all(v > 0 and all(a in self.sizes for a in m) for m, v in p.items()) and (not strict or () in p)

    def __call__(self, I, f, args, kws, st, node):
        a = [I.rd(x, st) for x in args]
        if f.op == 'method':
            name, recv = f.args
            c = I.rd(recv, st)
            if c.op == 'obj' and c.args[0] == '%file':
                return self.method(I, recv, c, name, a, kws, st)
            if name == 'open':
                return self.open(I, c, st)
            if name == 'exists' and not a:
                return TRUE
            if name == 'stat':
                return I.alloc(st, T('obj', '%stat', T('kv', 'st_size', self.length())))
            if name in ('read_bytes', 'readall'):
                return self.bytes(C(0), self.length())
            if name == 'tofile':
                return self.write(I, args[0], c, st)
            if name == 'tobytes':
                return T('packed', c)
            if name == 'ljust' and c.op != 'c' and num(a[0]) == 4:
                return T('meth', 'ljust', c, *a)
            if c.op == 'c' and isinstance(c.args[0], bytes) and all(x.op == 'c' for x in a):
                return self.text(getattr(c.args[0], name)(*[int(num(x)) if num(x) is not None else x.args[0] for x in a]))
            if c.op == 'c' and name == 'encode':
                return C(c.args[0].encode(*[x.args[0] for x in a]))
            return None
        if f.op != 'ext':
            return None
        name = f.args[0]
        if name in ('open', 'gzip.open', 'io.open'):
            return self.open(I, a[0], st)
        if name == 'numpy.fromfile':
            kind = code(kws['dtype'] if 'dtype' in kws else a[1])
            n = kws.get('count', a[2] if len(a) > 2 else C(-1))
            off = kws.get('offset', a[4] if len(a) > 4 else C(0))
            fid = args[0]
            pos = self.state(I, fid, st)['pos']
            pos = binop('add', pos, off)
            if num(n) is not None and num(n) < 0:
                n = aspoly(times(plus(poly(self.length()), poly(pos), -1), {(): Fraction(1, size(kind))}))
            self.move(I, fid, binop('add', pos, binop('mul', C(size(kind)), n)), st)
            return self.words(kind, pos, n)
        if name == 'numpy.frombuffer':
            kind = code(kws['dtype'] if 'dtype' in kws else a[1])
            a[0] = self.raw(a[0])
            if a[0].op == 'bytes':
                n = kws.get('count', a[2] if len(a) > 2 else C(-1))
                off = kws.get('offset', a[3] if len(a) > 3 else C(0))
                if num(n) is not None and num(n) < 0:
                    n = aspoly(times(plus(poly(a[0].args[1]), poly(off), -1), {(): Fraction(1, size(kind))}))
                return self.words(kind, binop('add', a[0].args[0], off), n)
        if name in ('struct.unpack', 'struct.unpack_from') and self.raw(a[1]).op == 'bytes':
            out, pos = [], self.raw(a[1]).args[0]
            if name == 'struct.unpack_from':
                pos = binop('add', pos, kws.get('offset', a[2] if len(a) > 2 else C(0)))
            for c in self.formats(sval(a[0])):
                out.append(self.words(c, pos, C(1)).args[1].args[0])
                pos = binop('add', pos, C(size(c)))
            return T('tuple', *out)
        if name == 'struct.pack':
            return T('packed', *[T('seg', c, x) for c, x in zip(self.formats(sval(a[0])), a[1:])])
        return None

    def raw(self, t):
        """part of the contents of a file"""
        if t.op == 'idx' and t.args[1].op == 'slice' and t.args[1].args[2] is NONE:
            x = self.raw(t.args[0])
            if x.op == 'bytes':
                lo, hi, step = self.range(t.args[1], poly(x.args[1]))
                if step != 1:
                    return t
                return self.bytes(aspoly(plus(poly(x.args[0]), lo)), aspoly(plus(hi, lo, -1)))
        return t

    def text(self, x):
        return T('list', *map(self.text, x)) if isinstance(x, list) else C(x)

    @staticmethod
    def formats(s):
        order, s = (s[0], s[1:]) if s[0] in '<>=!@' else ('=', s)
        out, n = [], ''
        for ch in s:
            if ch.isdigit():
                n += ch
            else:
                out += [code(C({'@': '='}.get(order, order) + ch))]*int(n or 1)
                n = ''
        return out

    # files
    def open(self, I, path, st):
        return I.alloc(st, T('obj', '%file', T('kv', 'path', path), T('kv', 'pos', C(0)), T('kv', 'log', START)))

    def state(self, I, fid, st):
        return {kv.args[0]: kv.args[1] for kv in I.rd(fid, st).args[1:]}

    def put(self, I, fid, st, **k):
        s = dict(self.state(I, fid, st), **k)
        st.heap[fid.args[0]] = T('obj', '%file', *[T('kv', n, v) for n, v in s.items()])

    def move(self, I, fid, pos, st):
        self.put(I, fid, st, pos=aspoly(poly(pos)) if not any(x.op in ('muvar', 'mu') for x in walk(pos)) else pos)

    def write(self, I, fid, x, st):
        self.put(I, fid, st, log=T('cat', self.state(I, fid, st)['log'], x if x.op == 'packed' else T('packed', x)))
        return NONE

    def method(self, I, fid, c, name, a, kws, st):
        pos = self.state(I, fid, st)['pos']
        if name == 'seek':
            whence = kws.get('whence', a[1] if len(a) > 1 else C(0))
            base = {0: C(0), 1: pos, 2: self.length()}[int(num(whence))]
            self.move(I, fid, binop('add', base, a[0]), st)
            return self.state(I, fid, st)['pos']
        if name == 'tell':
            return pos
        if name == 'read' and a:
            self.move(I, fid, binop('add', pos, a[0]), st)
            return self.bytes(pos, a[0])
        if name == 'write':
            return self.write(I, fid, a[0], st)
        if name in ('close', 'flush', '__exit__'):
            return NONE
        if name == '__enter__':
            return fid
        raise AnalysisBroken('method of a file: ' + name)

    # contents
    def load(self, log):
        """contents which a program has written"""
        def sized(s):
            if s[0] == 'rep':
                return ('rep', s[1], s[2], [sized(x) for x in s[3]])
            return s if s[0] != 'seg' or s[3] is not None else (*s[:3], tuple(map(aspoly, self.extents(s[2]))))
        return [sized(s) for s in segments(self.tidy(log))]

    def length(self):
        return aspoly(length(self.contents))

    def fixed(self, *ts):
        return not any(x.op in ('muvar', 'mu', 'while') for t in ts for x in walk(t))

    def words(self, kind, pos, n):
        k = num(n)
        if k is not None and k <= 8 and self.fixed(pos):
            return T('call', 'numpy.array', T('list', *[self.word(kind, binop('add', pos, C(size(kind)*i))) for i in range(int(k))]))
        return T('words', kind, pos, n)

    def bytes(self, pos, n):
        """text which lies at a position"""
        out, at = b'', 0
        if num(n) is not None and self.fixed(pos):
            try:
                while at < num(n):
                    x, k = self.find(plus(poly(pos), {(): Fraction(at)}), None)
                    if not (isinstance(x, bytes) and k is not None):
                        break
                    out += x[k:]
                    at += len(x) - k
                else:
                    return C(out[:int(num(n))])
            except Misread:
                pass
        return T('bytes', pos, n)

    def word(self, kind, pos):
        v, _ = self.find(poly(pos), kind)
        return v

    def find(self, p, kind):
        return find(self, self.contents, p, kind)

    # elements of arrays at positions (polynomials)
    def tidy(self, t):
        """sizes of arrays of known shape"""
        def one(x):
            if x.op == 'idx' and num(x.args[1]) is not None:
                s = x.args[0]
                a = s.args[1] if s.op == 'call' and s.args[0] == 'numpy.shape' or s.op == 'attr' and s.args[0] == 'shape' else None
            else:
                a = x.args[-1] if x.op == 'len' or x.op == 'call' and x.args[0] in ('len', 'numpy.size') else x.args[1] if x.op == 'attr' and x.args[0] == 'size' else None
            if isinstance(a, T):
                try:
                    e = self.extents(a)
                except AnalysisBroken:
                    return x
                if x.op == 'idx':
                    return aspoly(e[int(num(x.args[1]))])
                if x.op == 'len' or x.args[0] == 'len':
                    return aspoly(e[0])
                out = {(): Fraction(1)}
                for n in e:
                    out = times(out, n)
                return aspoly(out)
            return self.decided(x)
        return rewrite(t, one)

    def decided(self, x):
        """whole numbers, extremes and conditions of sizes"""
        size = lambda p: all(v.denominator == 1 and all(y in self.sizes for y in m) for m, v in p.items())
        if x.op == 'call' and x.args[0] in ('int', 'numpy.int64', 'numpy.int32') and len(x.args) == 2 and size(poly(x.args[1])):
            return x.args[1]
        if x.op in ('min', 'max') or x.op == 'call' and x.args[0] in ('min', 'max', 'numpy.minimum', 'numpy.maximum'):
            a = [y for y in x.args if isinstance(y, T)]
            if len(a) == 2:
                d = plus(poly(a[1]), poly(a[0]), -1)
                least = 'min' in (x.op if x.op != 'call' else x.args[0])
                if self.positive(d):
                    return a[0 if least else 1]
                if self.positive(plus({}, d, -1)):
                    return a[1 if least else 0]
        if x.op == 'ite':
            c = x.args[0]
            d = plus(poly(c.args[1]), poly(c.args[2]), -1) if c.op == 'cmp' else poly(c) if c.op in ('mod', 'fdiv') else None
            if d is not None:
                more, less = self.positive(d, True), self.positive(plus({}, d, -1), True)
                atleast, atmost = self.positive(d), self.positive(plus({}, d, -1))
                op = c.args[0] if c.op == 'cmp' else '!='
                yes = {'!=': more or less, '==': not d, '<': less, '>': more, '<=': atmost, '>=': atleast}.get(op)
                no = {'!=': not d, '==': more or less, '<': atleast, '>': atmost, '<=': more, '>=': less}.get(op)
                if yes or no:
                    return x.args[1 if yes else 2]
        return x

    def extents(self, t):
        if t in self.shapes:
            return [poly(x) for x in self.shapes[t]]
        o, a = t.op, t.args
        if o in ('muvar', 'muattr') and t in self.shapes_of_loops:
            return self.extents(self.shapes_of_loops[t])
        if o == 'muattr':
            return self.extents(T('attr', a[1], a[0]))
        if o in ('store', 'setattr', 'fill'):
            return self.extents(a[0])
        if o in ('storeloop',):
            return self.extents(a[1])
        if o == 'mu':
            return self.extents(a[2])
        if o == 'words':
            return [poly(a[2])]
        if o == 'attr' and a[0] in ('data', 'mask', 'real', 'imag'):
            return self.extents(a[1])
        if transposed(t) is not None:
            return self.extents(transposed(t))[::-1]
        if flipped(t) is not None:
            return self.extents(flipped(t))
        if o == 'meth' and a[0] in ('copy', 'astype', 'byteswap', 'newbyteorder'):
            return self.extents(a[1])
        if o == 'call' and a[0] in ZEROS and a[0].endswith('_like') or o == 'call' and a[0] in SAME and a[1].op not in ('list', 'tuple'):
            return self.extents(a[1])
        if o == 'call' and a[0] in ZEROS:
            s = self.tidy(a[1])
            if s.op in ('call', 'attr') and s.args[0] in ('numpy.shape', 'shape'):
                return self.extents(s.args[1])
            return [poly(x) for x in (s.args if s.op in ('tuple', 'list') else (s,))]
        if o == 'call' and a[0] == 'numpy.reshape':
            s = a[2:] if a[2].op not in ('tuple', 'list') else a[2].args
            return [poly(self.tidy(x)) for x in s if x.op != 'kw']
        if o == 'call' and a[0] in ('numpy.ravel',):
            out = {(): Fraction(1)}
            for n in self.extents(a[1]):
                out = times(out, n)
            return [out]
        if o == 'call' and a[0] in SAME:
            return self.extents(a[1])
        if o == 'call' and a[0] == 'numpy.stack' and a[1].op in ('list', 'tuple'):
            e, k = self.extents(a[1].args[0]), axis(t)
            k += (k < 0)*(len(e) + 1)
            return e[:k] + [{(): Fraction(len(a[1].args))}] + e[k:]
        if o in ('list', 'tuple'):
            return [{(): Fraction(len(a))}] + (self.extents(a[0]) if a else [])
        if o == 'idx':
            out = []
            s = self.extents(a[0])
            index = list(a[1].args) if a[1].op == 'tuple' else [a[1]]
            if len(index) == 1 and index[0].op in ('cmp', 'not', 'and', 'or'):
                raise AnalysisBroken('shape of a selection')
            index = ellipsis(index, len(s))
            for k, n in enumerate(s):
                i = index[k] if k < len(index) else T('slice', NONE, NONE, NONE)
                if i.op == 'slice':
                    lo, hi, step = self.range(i, n)
                    if step in (1, -1):
                        out.append(plus(hi, lo, -1) if step == 1 else plus(lo, hi, -1))
                    else:
                        q = times(plus(hi, lo, -1), {(): Fraction(1, step)})
                        d = {m: v for m, v in q.items() if v.denominator != 1}
                        if set(d) - {()}:
                            raise AnalysisBroken('shape of ' + show(t, 3)[:100])
                        c = q.get((), Fraction(0))
                        out.append(plus(q, {(): -(-c.numerator//c.denominator) - c}))
                else:
                    e = self.extents(i)
                    out += e
            return out
        if o == 'attr' and a[0] in ('fill_value', 'dtype', 'ndim', 'size'):
            return []
        if o in ('c', 'pi', 'const', 'I', 'sym', 'ext', 'kw'):
            return []
        if o in ('add', 'sub', 'mul', 'div', 'pow', 'neg', 'cmp', 'and', 'or', 'not', 'ite') or o == 'call':
            out = []
            for x in a:
                if isinstance(x, T):
                    e = self.extents(x)
                    out = e if len(e) > len(out) else out
            return out
        raise AnalysisBroken('shape of ' + show(t, 3)[:100])

    def range(self, i, n):
        """start, end and step of a slice of an axis"""
        a, b, s = i.args
        s = 1 if s is NONE else int(num(s))
        if s == 0 or s < -1:
            raise AnalysisBroken('slice with a negative step')
        one = {(): Fraction(1)}
        first, last = ({}, n) if s > 0 else (plus(n, one, -1), plus({}, one, -1))
        end = lambda x, d: d if x is NONE else plus(n, poly(self.tidy(x))) if num(x) is not None and num(x) < 0 else poly(self.tidy(x))
        return end(a, first), end(b, last), s

    def inside(self, p, i, n):
        """position within an indexed part of an axis: (True, position in the part or None), (False, None)"""
        if i.op == 'slice':
            if any(x is OTHER for y in i.args for x in walk(y)):
                return False, None
            lo, hi, step = self.range(i, n)
            if step < 0:
                lo, hi = plus(hi, {(): Fraction(1)}), plus(lo, {(): Fraction(1)})
            r = plus(p, lo, -1)
            if step > 1:
                k = times(r, {(): Fraction(1, step)})
                if any(v.denominator != 1 for m, v in k.items() if m):
                    raise Unplaced(f'{show(aspoly(p), 5)} in {show(i, 5)}')
                if k.get((), Fraction(0)).denominator != 1:
                    return False, None
            else:
                k = r if step > 0 else plus(plus(hi, p, -1), {(): Fraction(1)}, -1)
            if self.positive(r) and self.positive(plus(hi, p, -1), True):
                return True, k
            if self.positive(plus({}, r, -1), True) or self.positive(plus(p, hi, -1)):
                return False, None
            raise Unplaced(f'{show(aspoly(p), 5)} in {show(i, 5)}')
        d = plus(p, plus(n, poly(i)) if num(i) is not None and num(i) < 0 else poly(i), -1)
        if not d:
            return True, None
        atoms = {x for m in d for x in m}
        if OTHER in atoms or self.positive(d, True) or self.positive(plus({}, d, -1), True) or atoms & self.distinct:
            return False, None
        raise Unplaced(f'{show(aspoly(p), 5)} at {show(i, 5)}')

    def stored(self, t, pos):
        """element written by an assignment: (True, value), (False, None)"""
        base, index, v = t.args
        s = self.extents(base)
        index = ellipsis(list(index.args) if index.op == 'tuple' else [index], len(s))
        if len(index) == 1 and (len(s) > 1 or index[0].op in ('cmp', 'not', 'and', 'or', 'call', 'ite', 'attr')) and len(self.extents(index[0])) == len(s):
            v = rewrite(v, lambda x: x.args[0] if x.op == 'idx' and x.args[1] is index[0] else x)
            c = self.at(index[0], pos)
            while c.op == 'ite' and all(x.op == 'c' for x in c.args[1:]):
                a, b = (bool(x.args[0]) for x in c.args[1:])
                c = C(a) if a is b else c.args[0] if a else T('not', c.args[0])
            return C(bool(c.args[0])) if c.op == 'c' else c, lambda: self.broadcast(v, pos) if len(self.extents(v)) == len(s) else v
        inner, chosen = [], None
        for k, n in enumerate(s):
            i = index[k] if k < len(index) else T('slice', NONE, NONE, NONE)
            if i.op != 'slice' and self.extents(i):     # elements of a list of positions
                e = self.extents(i)[0]
                for q in sorted(self.sizes, key=lambda x: x.id) if set(e) - {()} else map(C, range(int(e.get((), 0)))):
                    if chosen not in (None, q):
                        continue
                    try:
                        node = self.at(i, [poly(q)])
                    except (Unplaced, Misread):
                        continue
                    if not plus(pos[k], poly(node), -1):
                        chosen = q
                        break
                else:
                    if {x for m in pos[k] for x in m} - self.sizes:     # positions are arbitrary
                        return FALSE, None
                    raise Unplaced(f'{show(aspoly(pos[k]), 5)} in {show(i, 4)}')
                continue
            ok, p = self.inside(pos[k], i, n)
            if not ok:
                return FALSE, None
            if p is not None:
                inner.append(p)
        if chosen is not None:
            inner = [poly(chosen)] + inner
        return TRUE, lambda: self.broadcast(v, inner)

    def broadcast(self, v, pos):
        e = self.extents(v)
        p = [{} if n == {(): Fraction(1)} else q for q, n in zip(pos[len(pos) - len(e):], e)]
        return self.at(v, p) if e else v

    def at(self, t, pos):
        o, a = t.op, t.args
        if t in self.shapes:
            return T('idx', t, T('tuple', *map(aspoly, pos)) if len(pos) > 1 else aspoly(pos[0]))
        if o == 'muattr':
            return self.at(T('attr', a[1], a[0]), pos)
        if o == 'muvar':
            if t in self.before:
                return self.at(self.before[t], pos)
            return T('elem', t, *map(aspoly, pos))
        if o == 'store':
            c, v = self.stored(t, pos)
            return v() if c is TRUE else self.at(a[0], pos) if c is FALSE else ite(c, v(), self.at(a[0], pos))
        if o == 'fill':
            return self.broadcast(a[1], pos)
        if o == 'mu':
            return self.loop(t, pos)
        if o == 'storeloop':
            m = T('muvar', '%s', t.id)
            body = m
            for i, v in zip(a[2::2], a[3::2]):
                body = T('store', body, i, rewrite(v, lambda x: T('idx', body, x.args[0]) if x.op == 'old' else x))
            self.shapes_of_loops[m] = a[1]
            return self.loop(T('mu', a[0], m, a[1], body), pos)
        if o == 'words':
            return self.word(a[0], binop('add', a[1], binop('mul', C(size(a[0])), aspoly(pos[0]))))
        if o == 'setattr':
            if a[1] == 'data':
                return self.at(a[2], pos)
            if a[1] in ('real', 'imag'):
                return whole(*[self.at(a[2] if a[1] == n else T('attr', n, a[0]), pos) for n in ('real', 'imag')])
            return self.at(a[0], pos)
        if o == 'attr' and a[0] in ('real', 'imag'):
            x = a[1]
            while x.op == 'setattr' and x.args[1] not in ('real', 'imag', 'data'):
                x = x.args[0]
            v = self.at(x, pos)
            return part(v, a[0])
        if o == 'attr' and a[0] == 'mask':
            x = a[1]
            while x.op == 'setattr' and x.args[1] != 'mask':
                x = x.args[0]
            if x.op == 'setattr':
                return self.broadcast(x.args[2], pos)
            if x.op == 'muvar' and T('attr', 'mask', x) in self.before:
                return self.at(self.before[T('attr', 'mask', x)], pos)
            if x.op == 'mu':
                return self.loop(x, pos, 'mask')
            if x.op == 'call' and x.args[0] in ZEROS:
                return FALSE
            if x.op == 'call' and x.args[0] == 'numpy.ma.masked_invalid':
                return self.at(T('call', 'numpy.isnan', x.args[1]), pos)
            if x.op == 'call' and x.args[0] == 'numpy.ma.masked_where':
                return self.at(x.args[1], pos)
            if x.op == 'muvar':
                return T('elem', T('attr', 'mask', x), *map(aspoly, pos))
            return T('attr', 'mask', self.at(x, pos))
        if o == 'attr' and a[0] == 'data':
            return self.at(a[1], pos)
        if transposed(t) is not None:
            return self.at(a[1], pos[::-1])
        if flipped(t) is not None:
            return self.at(flipped(t), pos)
        if o == 'call' and a[0] in ZEROS:
            return C(1) if a[0] in ('numpy.ones', 'numpy.ma.ones') else C(0)
        if o == 'call' and a[0] in SAME or o == 'meth' and a[0] in ('copy', 'astype'):
            return self.at(a[1], pos)
        if o == 'call' and a[0] in ('numpy.reshape', 'numpy.ravel'):
            flat, n = {}, self.extents(t)
            for k, q in enumerate(pos):
                flat = plus(times(flat, n[k]), q)
            inner = self.extents(a[1])
            out = []
            for k in range(len(inner)):
                step = {(): Fraction(1)}
                for d in inner[k + 1:]:
                    step = times(step, d)
                q, flat = quotient(self, flat, step, sorted({x for m in flat for x in m}, key=lambda x: x.id)) if k + 1 < len(inner) else (flat, {})
                out.append(q)
            return self.at(a[1], out)
        if o == 'call' and a[0] == 'numpy.stack' and a[1].op in ('list', 'tuple'):
            k = axis(t) + (axis(t) < 0)*len(pos)
            if set(pos[k]) <= {()}:
                x, rest = a[1].args[int(pos[k].get((), 0))], pos[:k] + pos[k + 1:]
                return self.at(x, rest) if rest else x
            raise Unplaced('element of numpy.stack')
        if o == 'idx':
            s = self.extents(a[0])
            index = ellipsis(list(a[1].args) if a[1].op == 'tuple' else [a[1]], len(s))
            p, out = list(pos), []
            for k, n in enumerate(s):
                i = index[k] if k < len(index) else T('slice', NONE, NONE, NONE)
                if i.op == 'slice':
                    lo, _, step = self.range(i, n)
                    out.append(plus(lo, times(p.pop(0), {(): Fraction(step)})))
                elif self.extents(i):
                    out.append(poly(self.at(i, [p[0]])))
                    if all(x.op == 'slice' or not self.extents(x) for x in index[k + 1:]):
                        p.pop(0)
                else:
                    i = poly(self.tidy(i))
                    out.append(plus(n, i) if set(i) == {()} and i[()] < 0 else i)
            return self.at(a[0], out)
        if o in ('list', 'tuple'):
            if set(pos[0]) <= {()}:
                x = a[int(pos[0].get((), 0))]
                return self.at(x, pos[1:]) if len(pos) > 1 else x
            raise Unplaced('element of a list')
        if o == 'cmp':
            return T('cmp', a[0], *[self.broadcast(x, pos) for x in a[1:]])
        if o in ('add', 'sub', 'mul', 'div', 'pow', 'neg', 'and', 'or', 'not', 'ite'):
            return T(o, *[self.broadcast(x, pos) for x in a])
        if o == 'call' and a[0] in ('numpy.ma.masked_invalid', 'numpy.ma.masked_where'):
            return self.at(a[1 if a[0].endswith('invalid') else 2], pos)
        if o == 'call' and a[0] == 'numpy.isnan':
            x = self.broadcast(a[1], pos)
            return T('call', a[0], whole(part(x, 'real'), part(x, 'imag')) if x.op in ('add', 'complex') else x)
        if o == 'call':
            return T('call', a[0], *[x if not isinstance(x, T) or x.op == 'kw' else self.broadcast(x, pos) for x in a[1:]])
        raise AnalysisBroken('element of ' + show(t, 3)[:120])

    def loop(self, t, pos, attr=None):
        """element of an array written in a loop: each iteration writes its own part"""
        dom, m, init, body = t.args
        wrap = (lambda x: T('attr', attr, x)) if attr else (lambda x: x)
        self.shapes_of_loops[m] = init
        kept = wrap(subst(body, {dom.args[0]: OTHER}))
        n = times_of(self.tidy(dom.args[1]))
        atoms = sorted({(x,) for p in pos for m in p for x in m if x in self.sizes}, key=lambda m: m[0].id)
        for p in pos + [{m: Fraction(1)} for m in atoms if {m: Fraction(1)} not in pos]:
            r = aspoly(p)
            if n is None or not (self.positive(p) and self.positive(plus(n, p, -1), True)):
                continue
            try:
                if self.at(kept, pos) is not self.at(wrap(m), pos):
                    continue
            except Unplaced:
                continue
            old = dict(self.before)
            try:
                self.before[m] = init
                if attr:
                    self.before[wrap(m)] = wrap(init)
                return self.at(wrap(subst(body, {dom.args[0]: r})), pos)
            finally:
                self.before = old
        if n is not None and self.untouched(n, dom.args[0], body, m, wrap, pos):
            return self.at(wrap(init), pos)
        raise Unplaced('element of a loop at ' + ', '.join(show(aspoly(p), 4) for p in pos))


    def untouched(self, n, iv, body, m, wrap, pos):
        """no iteration writes to a position: a number of iterations is that before, one, and that after a given one"""
        c = n.get((), Fraction(0))
        linear = [x for x in n if x]
        if len(linear) != 1 or len(linear[0]) != 1 or n[linear[0]] != 1 or linear[0][0] not in self.sizes:
            return False
        g, after = S('%before'), S('%after')
        k = {linear[0][0]: aspoly({(g,): Fraction(1), (after,): Fraction(1), **({(): 1 - c} if c != 1 else {})})}
        old = self.sizes, self.shapes, self.contents, self.before, self.shapes_of_loops
        if g in self.sizes:
            return False
        try:
            self.sizes = set(self.sizes) | {g, after}
            self.shapes = {subst(a, k): tuple(subst(d, k) for d in x) for a, x in self.shapes.items()}
            self.contents = None if self.contents is None else put(self.contents, k)
            self.before = {subst(a, k): subst(x, k) for a, x in self.before.items()}
            self.shapes_of_loops = {a: subst(x, k) for a, x in self.shapes_of_loops.items()}
            p = [poly(subst(aspoly(x), k)) for x in pos]
            return self.at(wrap(subst(subst(body, {iv: g}), k)), p) is self.at(wrap(m), p)
        except Unplaced:
            return False
        finally:
            self.sizes, self.shapes, self.contents, self.before, self.shapes_of_loops = old


def ellipsis(index, n):
    for k, x in enumerate(index):
        if x.op == 'const' and x.args[0] == 'Ellipsis':
            return index[:k] + [T('slice', NONE, NONE, NONE)]*(n - len(index) + 1) + index[k + 1:]
    return index


def transposed(t):
    """array whose axes are reversed"""
    if t.op in ('attr', 'call', 'meth') and len(t.args) == 2 and t.args[0] in ('T', 'numpy.transpose', 'transpose'):
        return t.args[1]
    return None


def flipped(t):
    """array with an axis reversed, as a part of that"""
    if t.op != 'call' or t.args[0] not in ('numpy.flipud', 'numpy.fliplr', 'numpy.flip') or len(t.args) - 1 > 2:
        return None
    if t.args[0] == 'numpy.flip':
        if len(t.args) != 3:
            return None
        k = t.args[2].args[1] if t.args[2].op == 'kw' else t.args[2]
        if num(k) not in (0, 1, 2):
            return None
        k = int(num(k))
    else:
        k = int(t.args[0] == 'numpy.fliplr')
    return T('idx', t.args[1], T('tuple', *[T('slice', NONE, NONE, NONE)]*k, T('slice', NONE, NONE, C(-1))))


def axis(t):
    for x in t.args[1:]:
        if isinstance(x, T) and x.op == 'kw' and x.args[0] == 'axis':
            return int(num(x.args[1]))
    return 0


def whole(re, im):
    if re.op == im.op == 'attr' and re.args[0] == 'real' and im.args == ('imag', re.args[1]):
        return re.args[1]
    return T('complex', re, im)


def product_(a, b):
    return C(0) if num(a) == 0 or num(b) == 0 else b if num(a) == 1 else a if num(b) == 1 else binop('mul', a, b)


def total(op, a, b):
    return a if num(b) == 0 else b if num(a) == 0 and op == 'add' else binop(op, a, b)


def part(v, name):
    if v.op == 'complex':
        return v.args[0 if name == 'real' else 1]
    if v.op == 'ite':
        return ite(v.args[0], part(v.args[1], name), part(v.args[2], name))
    if v.op == 'I':
        return C(0) if name == 'real' else C(1)
    if num(v) is not None or v.op == 'attr' and v.args[0] in ('real', 'imag'):
        return v if name == 'real' else C(0)
    if v.op in ('add', 'sub'):
        return total(v.op, part(v.args[0], name), part(v.args[1], name))
    if v.op == 'mul':
        (a, b), (c, d) = [[part(x, n) for n in ('real', 'imag')] for x in v.args]
        return total('sub', product_(a, c), product_(b, d)) if name == 'real' else total('add', product_(a, d), product_(b, c))
    return T('attr', name, v)


# ---------------------------------------------------------------- contents
def segments(t):
    """contents written: list of ('seg', type, value, shape), ('text', bytes) and ('rep', variable, count, contents)"""
    if t is START or t.op == 'muvar':
        return []
    if t.op == 'cat':
        return segments(t.args[0]) + [s for x in t.args[1].args for s in written(x)]
    if t.op == 'mu':
        dom, m, init, body = t.args
        r = dom.args[1]
        n = times_of(r)
        if n is None:
            raise AnalysisBroken('repetition ' + show(r, 3))
        return segments(init) + [('rep', dom.args[0], aspoly(n), segments(body))]
    if t.op == 'last':
        return segments(t.args[1])
    raise AnalysisBroken('contents ' + show(t, 3)[:200])


def written(x):
    if x.op == 'seg':
        return [('seg', x.args[0], x.args[1], ())]
    if x.op == 'c' and isinstance(x.args[0], bytes):
        return [('text', x.args[0])]
    if x.op == 'meth' and x.args[0] == 'encode' and x.args[1].op == 'meth' and x.args[1].args[0] == 'ljust':
        t, k = x.args[1].args[1:3]
        if t.op == 'c':
            return [('text', t.args[0].ljust(int(num(k))).encode())]
        return [('seg', '=S' + str(int(num(k))), t, ())]
    k = typeof(x)
    if k is None:
        raise Misread(f'{show(x, 3)[:80]} is written in the type it has')
    return [('seg', k, x, None)]


def length(segs):
    out = {}
    for s in segs:
        if s[0] == 'text':
            out = plus(out, {(): Fraction(len(s[1]))})
        elif s[0] == 'rep':
            inner = length(s[3])
            if any(a is s[1] for m in inner for a in m):
                raise AnalysisBroken('repetition of different lengths')
            out = plus(out, times(inner, poly(s[2])))
        else:
            n = {(): Fraction(size(s[1]))}
            for d in s[3]:
                n = times(n, poly(d))
            out = plus(out, n)
    return out


def quotient(files, p, step, atoms):
    """(q, r) with p = q*step + r and 0 <= r < step"""
    cands = [{}] + [c for a in atoms for c in ({(a,): Fraction(1)}, {(a,): Fraction(1), (): Fraction(1)}, {(a,): Fraction(1), (): Fraction(-1)})]
    cands += [{(): Fraction(k)} for k in range(1, 8)]
    cands += [plus({(a,): Fraction(1)}, {(b,): Fraction(1)}) for a in atoms for b in atoms]
    for q in cands:
        r = plus(p, times(q, step), -1)
        if files.positive(r) and files.positive(plus(step, r, -1), True):
            return q, r
    raise Unplaced(f'{show(aspoly(p), 6)} in steps of {show(aspoly(step), 6)}')


def find(files, segs, p, kind):
    """value of a type at a position; (bytes, offset) of text when no type is given"""
    atoms = sorted({a for m in p for a in m if a in files.sizes}, key=lambda a: a.id)
    here = p
    for s in segs:
        n = length([s])
        if files.positive(plus(n, here, -1), True):
            if not files.positive(here):
                raise Unplaced(show(aspoly(p), 6))
            if s[0] == 'text':
                if kind is not None:
                    raise Misread(f'text {s[1]!r} read as {kind}')
                return s[1], int(here.get((), 0)) if set(here) <= {()} else None
            if s[0] == 'rep':
                q, r = quotient(files, here, length(s[3]), atoms)
                return find(files, put(s[3], {s[1]: aspoly(q)}), r, kind)
            if kind is None:
                return s, None
            if s[1] != kind:
                raise Misread(f'{s[1]} read as {kind}')
            k = times(here, {(): Fraction(1, size(kind))})
            if any(v.denominator != 1 for v in k.values()):
                raise Misread('position between two numbers')
            pos = []
            for i in range(len(s[3])):
                inner = {(): Fraction(1)}
                for d in s[3][i + 1:]:
                    inner = times(inner, poly(d))
                q, k = quotient(files, k, inner, atoms) if i + 1 < len(s[3]) else (k, {})
                pos.append(q)
            return files.at(s[2], pos) if pos else s[2], None
        if not files.positive(plus(here, n, -1)):
            raise Unplaced(f'{show(aspoly(here), 6)} in a segment of length {show(aspoly(n), 6)}')
        here = plus(here, n, -1)
    raise Misread('position after the end of the file')


def put(segs, m):
    out = []
    for s in segs:
        if s[0] == 'seg':
            out.append((s[0], s[1], subst(s[2], m), tuple(subst(d, m) for d in s[3])))
        elif s[0] == 'rep':
            out.append((s[0], s[1], subst(s[2], m), put(s[3], m)))
        else:
            out.append(s)
    return out
