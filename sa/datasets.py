"""Contents of text files (by lines and words) and of netCDF files (by variables)."""
from . import records as R
from .interp import binop
from .records import Files, Misread
from .repo import AnalysisBroken
from .term import T, C, S, NONE, TRUE, FALSE, num, sval, rewrite

LINE = '=l1'
ELEMENTWISE = ['numpy.' + k for k in ('exp', 'abs', 'absolute', 'arctan2', 'real', 'imag', 'angle', 'degrees', 'radians', 'cos', 'sin', 'negative', 'mod', 'hypot', 'sqrt')] + ['abs']


def line(value, n=None):
    """a line of words: list of values, or an array of n values"""
    return ('seg', LINE, T('line', *value) if n is None else T('words', value, n), ())


class Data(Files):
    """hook of the interpreter: a text file of known lines, a netCDF file of known variables, and netCDF files which are written"""
    def __init__(self, sizes, shapes, source, lines=None, dims=None, attrs=None):
        super().__init__(sizes, shapes, lines)
        self.source, self.dims, self.attrs = source, dims or {}, attrs or {}
        self.created = []

    def path(self, t):
        while t.op == 'call' and t.args[0] in ('pathlib.Path', 'str') or t.op == 'meth' and t.args[0] in ('expanduser', 'absolute', 'resolve'):
            t = t.args[1]
        return t

    def check(self, source, kind):
        if (source, kind) != self.source:
            raise Misread(f'opens {show(source)} ({kind}) where {show(self.source[0])} ({self.source[1]}) is given')

    def __call__(self, I, f, args, kws, st, node):
        a = [I.rd(x, st) for x in args]
        if f.op == 'fn' and f.args[0].endswith('constituents.parse'):
            return T('call', 'parse', a[-1])
        if f.op == 'method':
            return self.of(I, f.args[0], f.args[1], I.rd(f.args[1], st), a, kws, st)
        if f.op != 'ext':
            return None
        name = f.args[0]
        if name in ('open', 'io.open', 'gzip.open'):
            mode = sval(kws.get('mode', a[1] if len(a) > 1 else C('rb' if name == 'gzip.open' else 'r'))) or ''
            return self.handle(I, a[0], 'compressed' if name == 'gzip.open' else 'plain', 'b' in mode or name == 'gzip.open' and 't' not in mode, st)
        if name == 'gzip.decompress' and a[0].op == 'content':
            return T('content', a[0].args[0], 'compressed', a[0].args[2])
        if name == 'netCDF4.Dataset':
            mode = sval(kws.get('mode', a[1] if len(a) > 1 else C('r')))
            if mode == 'w':
                v = I.alloc(st, T('dict', NONE))
                d = I.alloc(st, T('dict', NONE))
                r = I.alloc(st, T('obj', '%nc', T('kv', 'variables', v), T('kv', 'dimensions', d)))
                self.created.append((self.path(a[0]), r, v, d))
                return r
            m = I.rd(kws['memory'], st) if 'memory' in kws else NONE
            if m is not NONE:
                if m.op != 'content' or not m.args[2].args[0]:
                    raise Misread('netCDF file from ' + show(m))
                self.check(m.args[0], m.args[1].args[0])
            else:
                self.check(self.path(a[0]), 'plain')
            kv = [T('kv', k, I.alloc(st, T('obj', '%dim', T('kv', 'size', n)))) for k, n in self.dims.items()]
            dims = I.alloc(st, T('dict', NONE, *[T('kv', C(x.args[0]), x.args[1]) for x in kv]))
            return I.alloc(st, T('obj', '%nc', T('kv', 'variables', S('variables')), T('kv', 'dimensions', dims), *[T('kv', k, v) for k, v in self.attrs.items()]))
        return None

    def handle(self, I, path, kind, binary, st):
        return I.alloc(st, T('obj', '%handle', T('kv', 'path', self.path(path)), T('kv', 'kind', C(kind)), T('kv', 'binary', C(binary))))

    def of(self, I, name, ref, c, a, kws, st):
        if c.op == 'c' and isinstance(c.args[0], str) and name in ('ljust', 'rjust', 'encode', 'center') and not kws and all(x.op == 'c' for x in a):
            return C(getattr(c.args[0], name)(*[int(x.args[0]) if isinstance(x.args[0], (int, R.Fraction)) else x.args[0] for x in a]))
        if name == 'open' and c.op != 'obj':
            mode = sval(kws.get('mode', a[0] if a else C('r'))) or ''
            return self.handle(I, c, 'plain', 'b' in mode, st)
        if name == 'read_text':
            return T('content', self.path(c), C('plain'), C(False))
        if name == 'read_bytes':
            return T('content', self.path(c), C('plain'), C(True))
        if c.op == 'content':
            if name == 'decode' and c.args[2].args[0]:
                return T('content', c.args[0], c.args[1], C(False))
            if name in ('splitlines',) or name == 'split' and a and sval(a[0]) == '\n':
                return self.text_(c)
            raise Misread(f'{name} of the contents of a file')
        if c.op == 'obj' and c.args[0] == '%handle':
            s = {kv.args[0]: kv.args[1] for kv in c.args[1:]}
            if name == 'read':
                if a and (num(a[0]) is None or num(a[0]) >= 0):
                    raise Misread('a part of the file is read: ' + show(a[0]))
                return T('content', s['path'], s['kind'], s['binary'])
            if name == 'readlines':
                return self.text_(T('content', s['path'], s['kind'], s['binary']))
            if name in ('close', '__exit__'):
                return NONE
            if name == '__enter__':
                return ref
            raise AnalysisBroken('method of a file: ' + name)
        if c.op == 'obj' and c.args[0] == '%nc':
            kv = {x.args[0]: x.args[1] for x in c.args[1:]}
            if name == 'createDimension':
                r = I.alloc(st, T('obj', '%dim', T('kv', 'size', a[1] if len(a) > 1 else NONE)))
                return self.enter(I, kv['dimensions'], a[0], r, st)
            if name == 'createVariable':
                opts = dict(kws, **dict(zip(('datatype', 'dimensions', 'zlib'), a[1:])))
                dims = self.deep_(I, opts.get('dimensions', T('tuple')), st)
                cell = T('variable', a[0], dims, opts.get('fill_value', NONE), opts.get('datatype', NONE))
                sizes = {k.args[0]: I.rd(k.args[1], st).args[1].args[1] for k in I.rd(kv['dimensions'], st).args[1:]}
                names = dims.args if dims.op in ('tuple', 'list') else (dims,)
                for d in names:
                    if d not in sizes:
                        raise Misread(f'no dimension {show(d)}')
                self.shapes[cell] = tuple(self.tidy(I.deep(sizes[d], st)) for d in names)
                return self.enter(I, kv['variables'], a[0], I.alloc(st, cell), st)
            if name == 'setncattr':
                st.heap[ref.args[0]] = T('obj', '%nc', *[x for x in c.args[1:] if x.args[0] != sval(a[0])], T('kv', sval(a[0]), a[1]))
                return NONE
            if name in ('close', 'sync', '__exit__', 'set_auto_mask', 'set_auto_scale', 'set_auto_maskandscale'):
                return NONE if name in ('close', 'sync', '__exit__') else self.broken(name)
            if name == '__enter__':
                return ref
            raise AnalysisBroken('method of a netCDF file: ' + name)
        if name in ('setncattr', 'setncattr_string') and ref.op == 'ref':
            st.heap[ref.args[0]] = T('setattr', c, sval(a[0]), a[1])
            return NONE
        if name == 'setncatts' and ref.op == 'ref' and a[0].op == 'dict':
            for kv in a[0].args[1:]:
                st.heap[ref.args[0]] = T('setattr', st.heap[ref.args[0]], sval(kv.args[0]), kv.args[1])
            return NONE
        if name == 'split' and not a and self.number(c) is not None and self.fixed(c.args[1]):
            try:
                v, _ = R.find(self, self.contents, self.number(c), LINE)
            except R.Unplaced:
                return None
            return T('list', *v.args) if v.op == 'line' else None
        if name in ('strip', 'rstrip') and self.number(c) is not None:
            return c
        return None

    def deep_(self, I, t, st):
        return I.deep(t, st)

    def broken(self, name):
        raise AnalysisBroken('option of a netCDF file: ' + name)

    def enter(self, I, table, key, value, st):
        t = I.rd(table, st)
        st.heap[table.args[0]] = T('dict', NONE, *[x for x in t.args[1:] if x.args[0] is not key], T('kv', key, value))
        return value

    def text_(self, c):
        self.check(c.args[0], c.args[1].args[0])
        if c.args[2].args[0]:
            raise Misread('lines of bytes')
        return S('%lines')

    # words of a line as an array
    def words_of(self, t):
        if t.op == 'meth' and t.args[0] == 'split' and len(t.args) == 2 and self.number(t.args[1]) is not None:
            v, _ = R.find(self, self.contents, self.number(t.args[1]), LINE)
            return v
        return None

    def number(self, t):
        """number of a line of the file"""
        if t.op != 'idx' or t.args[1].op == 'slice':
            return None
        p, t = R.poly(self.tidy(t.args[1])), t.args[0]
        while t.op == 'idx' and t.args[1].op == 'slice':
            lo, _, step = t.args[1].args
            if lo is not NONE and num(lo) is not None and num(lo) < 0 or step is not NONE and num(step) != 1 or p and not self.positive(p):
                return None
            p, t = R.plus(p, {} if lo is NONE else R.poly(self.tidy(lo))), t.args[0]
        return p if t is S('%lines') else None

    def extents(self, t):
        v = self.words_of(t)
        if v is not None:
            return [R.poly(v.args[1]) if v.op == 'words' else {(): R.Fraction(len(v.args))}]
        if t.op == 'call' and t.args[0] == 'numpy.linspace':
            return [R.poly(t.args[3])]
        if t.op == 'fill':
            return self.extents(t.args[0])
        if t.op == 'variable' or t.op == 'attr' and t.args[0] == 'mask' and t.args[1].op == 'variable':
            return [R.poly(x) for x in self.shapes[t if t.op == 'variable' else t.args[1]]]
        if t.op == 'call' and t.args[0] in ELEMENTWISE:
            e = [self.extents(x) for x in t.args[1:] if isinstance(x, T) and x.op != 'kw']
            return max(e, key=len)
        return super().extents(t)

    def at(self, t, pos):
        v = self.words_of(t)
        if t.op == 'variable':
            return T('unwritten', t.args[0])
        if t.op == 'fill':
            return self.broadcast(t.args[1], pos)
        if t.op == 'call' and t.args[0] in R.SAME and self.words_of(t.args[1]) is not None:
            d = [x.args[1] for x in t.args if isinstance(x, T) and x.op == 'kw' and x.args[0] == 'dtype']
            x = self.at(t.args[1], pos)
            return x if not d or not whole(d[0]) or x in self.sizes else T('call', 'int', x)
        if v is not None:
            return self.at(v.args[0], pos) if v.op == 'words' else v.args[int(pos[0].get((), 0))]
        if t.op == 'attr' and t.args[0] == 'mask':
            x = t.args[1]
            while x.op == 'setattr' and x.args[1] != 'mask':
                x = x.args[0]
            mask = lambda y: T('attr', 'mask', y)
            if x.op == 'variable':
                return FALSE
            if x.op == 'fill':
                return self.broadcast(mask(x.args[1]), pos) if self.extents(x.args[1]) else FALSE
            if x.op == 'store':
                v = x.args[2]
                return super().at(T('store', mask(x.args[0]), x.args[1], mask(v) if self.extents(v) else FALSE), pos)
            if x.op == 'idx':
                return self.at(T('idx', mask(x.args[0]), x.args[1]), pos)
            if R.transposed(x) is not None:
                return self.at(T('attr', 'T', mask(x.args[1])), pos)
            if x.op == 'attr' and x.args[0] in ('real', 'imag'):
                return self.at(mask(x.args[1]), pos)
            if x.op == 'attr' and x.args[0] == 'data':
                return FALSE
            if x.op == 'call' and x.args[0] in ('numpy.array', 'numpy.ma.array', 'numpy.ma.masked_array', 'numpy.copy') and x.args[0] != 'numpy.array':
                m = [y.args[1] for y in x.args[1:] if isinstance(y, T) and y.op == 'kw' and y.args[0] == 'mask']
                return self.broadcast(m[0], pos) if m else FALSE if x.args[0] == 'numpy.copy' else self.at(mask(x.args[1]), pos)
            if x.op in ('mul', 'add', 'sub', 'div', 'neg') or x.op == 'call' and x.args[0] in ELEMENTWISE:
                out = [self.broadcast(mask(y), pos) for y in x.args if isinstance(y, T) and y.op != 'kw' and self.extents(y)]
                out = [y for y in out if y is not FALSE]
                return FALSE if not out else out[0] if len(set(out)) == 1 else T('or', *dict.fromkeys(out))
        return super().at(t, pos)


def whole(t):
    """a type of whole numbers"""
    if t.op == 'ext' and t.args[0] in R.TYPES:
        return R.TYPES[t.args[0]][1] in 'iu'
    return t is T('ext', 'int') or bool(sval(t)) and R.code(t)[1] in 'iu'


def show(t):
    from .term import show as s
    return s(t, 3)[:100]
