"""P34 ascii files of spatial data"""
import re
from .common import *
from .P33 import Spatial, CAUGHT, mapping, kvs, own, same_mask, M, getattr_term

EXPLANATION = ('Static evaluation of the reader and writer of ascii files over lines of symbolic words: which word of which line every element of every variable is, which lines are the header, '
               'and the lines a writer leaves in the file, are compared with their definition.')
COLUMNS = ('time', 'y', 'x', 'data')
HEADER = {'title': S('%title')}
END = '# End of YAML header'


def attributes(fill):
    return {c: dict(units=S('%units:' + c), **({'_FillValue': S('%fill')} if fill and c == 'data' else {})) for c in COLUMNS}


class Lines:
    """a file of lines: words are columns of lines"""
    def __init__(self, header, count, words, fill=False):
        self.lines = [C(x) for x in header] + [S(f'%line{k}') for k in range(count)]
        self.words, self.fill, self.opened, self.loaded, self.patterns, self.splits, self.events = words, fill, [], [], set(), set(), []

    def __call__(self, I, f, args, kws, st, node):
        if f.op == 'exc':
            if I.definite and I.raised is not None:
                caught = {n.strip(' ()').split('.')[-1] for n in f.args[0].split(',')}
                return C(bool(caught & (CAUGHT.get(I.raised, set()) | {'Exception', 'BaseException'})))
            return FALSE
        a, k = [I.rd(x, st) for x in args], {n: I.rd(x, st) for n, x in kws.items()}
        if f.op == 'fn' and f.args[0] == M + 'case_insensitive_filename':
            return a[0] if a else k['filename']
        n = f.args[0] if f.op in ('ext', 'builtin') else None
        if n in ('open', 'builtins.open', 'gzip.open'):
            mode = sval(k.get('mode', a[1] if len(a) > 1 else C('r'))) or 'r'
            self.opened.append((n.split('.')[-1] if n != 'gzip.open' else n, a[0]))
            return T('stream', a[0], C('bytes' if 'b' in mode or n == 'gzip.open' and 't' not in mode else 'str'))
        if n == 'yaml.load' or n in ('yaml.safe_load',):
            self.loaded.append(a[0])
            tables = {c: I.alloc(st, mapping(**d)) for c, d in attributes(self.fill).items()}
            g, v = I.alloc(st, mapping(**HEADER)), I.alloc(st, mapping(**tables))
            return I.alloc(st, mapping(header=I.alloc(st, mapping(global_attributes=g, variables=v))))
        if n == 're.compile' and sval(a[0]) is not None:
            return T('pattern', a[0])
        if n in ('re.search', 're.match', 're.fullmatch', 're.findall') and sval(a[0]) is not None:
            return self.match(I, n[3:], sval(a[0]), a[1], st)
        if n in ('float', 'builtins.float') and a and a[0] is S('%fill'):
            return T('call', 'numpy.float64', a[0])
        if n == 'next' and a[0].op in ('list', 'tuple'):
            return a[0].args[0] if a[0].args else a[1] if len(a) > 1 else self.lost(I, 'StopIteration')
        if n == 'isinstance' and len(a) == 2 and (a[0].op == 'text' or a[0].op == 'decoded'):
            kinds = {x.args[0] for x in walk(a[1]) if x.op in ('ext', 'builtin')}
            return C(bool(kinds & ({'bytes', 'bytearray', 'builtins.bytes'} if a[0].op == 'text' and a[0].args[1] is C('bytes') else {'str', 'builtins.str'})))
        if f.op == 'method':
            return self.method(I, f.args[0], I.rd(f.args[1], st), a, k, st)
        return None

    def match(self, I, how, pattern, line, st):
        text = sval(line)
        if text is not None:
            m = getattr(re, how)(pattern, text)
            return (I.alloc(st, T('list', *map(C, m))) if how == 'findall' else C(True) if m else NONE)
        if line in self.lines:
            if how == 'findall':
                self.patterns.add(pattern)
                return I.alloc(st, T('list', *[T('word', line, C(j)) for j in range(self.words)]))
            return NONE
        return None

    def method(self, I, name, c, a, k, st):
        if name == '__enter__' and c.op == 'stream':
            return c
        if c.op == 'stream' or c is S('%input'):
            if name in ('close', '__exit__', 'seek'):
                return NONE
            t = T('text', c, c.args[1] if c.op == 'stream' else self.kind)
            if name == 'read':
                return t
            if name in ('readlines', '__iter__') and t.args[1] is C('str'):
                return I.alloc(st, T('list', *[C(sval(x) + '\n') if sval(x) is not None else x for x in self.lines]))
        if c.op == 'text' and name == 'decode':
            return T('decoded', c) if c.args[1] is C('bytes') else self.lost(I, 'AttributeError')
        if c.op in ('text', 'decoded') and name == 'splitlines':
            if c.op == 'text' and c.args[1] is C('bytes'):
                return I.alloc(st, T('list', *[T('bytes', x) for x in self.lines]))
            self.source = c
            return I.alloc(st, T('list', *self.lines))
        if c.op == 'bytes':
            return c.args[0] if name == 'decode' else c if name in ('strip', 'rstrip', 'lstrip') else self.lost(I, 'TypeError')
        if c.op == 'pattern':
            return self.match(I, name, sval(c.args[0]), a[0], st)
        if c in self.lines and sval(c) is None:
            if name == 'split':
                self.splits.add(a[0] if a else NONE)
                return I.alloc(st, T('list', *[T('word', c, C(j)) for j in range(self.words)]))
            if name in ('strip', 'rstrip', 'lstrip'):
                return c
            if name == 'replace':
                return T('exponent', c) if [sval(x) for x in a] == ['D', 'E'] else None
        if c.op in ('word', 'exponent') and name in ('strip', 'rstrip', 'lstrip'):
            return c
        if c.op == 'word' and name == 'replace' and [sval(x) for x in a] in (['D', 'E'], ['D', 'e']):
            return T('exponent', c)
        return None

    def lost(self, I, name):
        I.fail(name)


def elements(I, t, n, st):
    """elements of an array of this length"""
    out = []
    for i in range(n):
        x = t
        while x.op == 'store' and x.args[1] is not C(i):
            if sval(x.args[1]) is not None:
                return [NONE] * n, t
            if num(x.args[1]) is None:
                raise AnalysisBroken('element ' + show(x.args[1], 3))
            x = x.args[0]
        out.append(x.args[2] if x.op == 'store' else NONE)
    while t.op == 'store':
        t = t.args[0]
    return out, t


def plain(t):
    """data of an array"""
    while t.op == 'attr' and t.args[0] == 'data' or t.op == 'call' and t.args[0] in ('numpy.ma.asarray', 'numpy.ma.array', 'numpy.asarray', 'numpy.array', 'numpy.ma.getdata') and len(t.args) == 2:
        t = t.args[1]
    return t


def word(x):
    """number of a word"""
    k = None
    while True:
        if x.op == 'call' and x.args[0] in ('numpy.float64', 'float', 'builtins.float') and len(x.args) == 2:
            k, x = 'number', x.args[1]
        elif x.op == 'call' and x.args[0] == 'timescale.time.parse':
            k, x = 'date', x.args[1]
        elif x.op == 'exponent':
            x = T('given', x.args[0], TRUE)
        elif x.op == 'float' and len(x.args) == 1:
            k, x = 'number', x.args[0]
        else:
            break
    return k, x


def read(ctx, case, compression=None, header=0, count=3, columns=None, delimiter=None, dates=False, fill=False, binary=False, words=None):
    q = 'from_ascii'
    key = f'{q}:{case}'
    w = where(ctx, M + q)
    yaml = header == 'YAML'
    top = ['header:', '', '  variables:', '# not the End', END] if yaml else [f'# comment {k}' for k in range(header or 0)]
    cols = columns or COLUMNS
    m = Lines(top, count, words or len(cols), fill)
    m.kind = C('bytes' if binary else 'str')
    I = Spatial(ctx.repo, opaque=[M + 'case_insensitive_filename'], on_call=m)
    kw = dict(filename=S('%input'))
    if compression:
        kw['compression'] = C(compression)
    if header:
        kw['header'] = C(header)
    if columns:
        kw['columns'] = T('list', *map(C, columns))
    if delimiter is not None:
        kw['delimiter'] = C(delimiter) if delimiter else NONE
    if dates:
        kw['parse_dates'] = TRUE
    v, st = I.run(ctx.repo.func(M + q), kwargs=kw)
    ctx.analysed(M + q)
    want = {None: [('open', S('%input'))], 'gzip': [('gzip.open', S('%input'))], 'bytes': []}[compression]
    ctx.ob('source', key, m.opened == want, f'opens {[(n, show(x, 3)) for n, x in m.opened]}', w)
    if v is None or v.op == 'noreturn':
        ctx.ob('column', key, False, 'raises ' + str(I.raised), w)
        return
    d = kvs(I.deep(v, st))
    A = kvs(d.pop('attributes', mapping()))
    ctx.ob('column', key + ':variables', sorted(d) == sorted(cols), f'variables {sorted(d)}', w)
    if delimiter == '':
        ok = len(m.patterns) == 1 and not m.splits
        ctx.ob('source', key + ':pattern', ok, f'patterns {sorted(m.patterns)}', w)
        for t, e in (('1 -2.5 +3. .5', ['1', '-2.5', '+3.', '.5']), ('1.5E+01 2D-3 -1e5', ['1.5E+01', '2D-3', '-1e5']), ('12.25-3', ['12.25', '-3'])) if ok else ():
            got = re.findall(list(m.patterns)[0], t, re.VERBOSE)
            ctx.ob('source', f'{key}:pattern:{t}', got == e, f'{got}', w)
    else:
        ctx.ob('source', key + ':delimiter', m.splits == {C(delimiter or ',')} and not m.patterns, f'{[show(x, 3) for x in m.splits]}', w)
    for j, c in enumerate(cols):
        if c not in d:
            continue
        t = plain(data_of(d[c])) if c == 'data' and fill and yaml else d[c]
        got, base = elements(I, t, count, st)
        base = plain(base)
        size = base.args[1] if base.op == 'call' and base.args[0] in ('numpy.zeros', 'numpy.empty', 'numpy.full', 'numpy.ones') else None
        if size is not None and size.op in ('tuple', 'list') and len(size.args) == 1:
            size = size.args[0]
        n = num(size) if size is not None else None
        kind = [x.args[1] for x in base.args[1:] if isinstance(x, T) and x.op == 'kw' and x.args[0] == 'dtype'] + [x for x in base.args[2:] if isinstance(x, T) and x.op != 'kw']
        if base.op == 'call' and base.args[0] != 'numpy.full':
            ok = bool(kind) and 'datetime64' in show(kind[0], 3) if dates and c == 'time' else not kind or kind[0] is NONE or show(kind[0], 3).strip("'").split('.')[-1].rstrip(")'") in ('float', 'float64', 'f8', 'd', 'double', 'longdouble')
            ctx.ob('column', f'{key}:{c}:type', len(kind) < 2 and bool(ok), show(base, 3), w)
        ctx.ob('column', f'{key}:{c}:size', n == count, show(base, 3), w)
        for i, x in enumerate(got):
            k, x = word(x)
            what = x.args[0] if x.op == 'given' else x
            date = dates and c == 'time'
            ok = what is T('word', S(f'%line{i}'), C(j)) and k in (('date',) if date else ('number', None)) and (date or x.op == 'given')
            ctx.ob('column', f'{key}:{c}:{i}', ok, f'{k} {show(x, 4)}', w)
    if not yaml:
        for c in cols:
            ctx.ob('header', f'{key}:{c}', c in A and not kvs(A[c]), show(A[c], 3) if c in A else 'missing', w)
        ctx.ob('header', key + ':yaml', not m.loaded, 'reads a YAML header', w)
        return
    text = '\n'.join(top)
    ctx.ob('header', key + ':yaml', len(m.loaded) == 1 and sval(m.loaded[0]) in (text, '\n'.join(top[:-1]), text + '\n'), f'{[show(x, 4) for x in m.loaded]}', w)
    ctx.ob('header', key + ':title', A.get('title') is S('%title'), show(A['title'], 3) if 'title' in A else 'missing', w)
    for c in cols:
        have = kvs(A[c]) if c in A else {}
        ctx.ob('header', f'{key}:{c}', have.get('units') is S('%units:' + c), f'{sorted(have)}', w)
    if fill and 'data' in d:
        x = data_of(d['data'])
        made = any(y.op == 'call' and str(y.args[0]).startswith('numpy.ma.') for y in walk(d['data']))
        ctx.ob('header', key + ':masked', made, show(d['data'], 3), w)
        whole = d['data']
        mask = getattr_term(whole, 'mask') if whole.op == 'call' else mask_of(whole)
        f = getattr_term(d['data'], 'fill_value')
        ctx.ob('header', key + ':fill', word(f) == ('number', S('%fill')), show(f, 3), w)
        f = S('%fill')
        bare = lambda t: rewrite(own(t), lambda y: y.args[1] if y.op == 'call' and y.args[0] == 'numpy.float64' and y.args[1] is f else plain(y))
        same_mask(ctx, key + ':mask', bare(mask), bare(T('ite', T('call', 'numpy.isnan', f), T('call', 'numpy.isnan', x), T('cmp', '==', x, f))), w, 'header')



# ------------------------------------------------------------------ writer
class Writer(Spatial):
    """columns of data in a file: every one has this number of rows"""
    rows = 2

    def arranged(self, t):
        """columns that are arranged in an array: whether they are its first dimension"""
        if t.op == 'idx' and t.args[0] is T('ext', 'numpy.c_') and t.args[1].op in ('list', 'tuple'):
            x = t.args[1]
            return (x.args, True) if t.args[1].op == 'list' else (x.args, False)
        if t.op == 'call' and t.args[0] in ('numpy.array', 'numpy.vstack', 'numpy.stack', 'numpy.column_stack', 'numpy.asarray', 'numpy.row_stack') and len(t.args) == 2 and t.args[1].op in ('list', 'tuple'):
            return t.args[1].args, t.args[0] != 'numpy.column_stack'
        if t.op in ('T', 'transpose') or t.op == 'attr' and t.args[0] == 'T' or t.op == 'call' and t.args[0] == 'numpy.transpose' and len(t.args) == 2:
            s = self.arranged(t.args[-1])
            return s and (s[0], not s[1])
        return None

    def index(self, b, i, st):
        c, j = self.rd(b, st), self.rd(i, st)
        s = self.arranged(c)
        if s is not None:
            k = j.args if j.op == 'tuple' else (j, T('slice', NONE, NONE, NONE))
            full = [x.op == 'slice' and all(y is NONE for y in x.args) for x in k]
            if len(k) == 2:
                k, full = (k, full) if s[1] else (k[::-1], full[::-1])
                if full[0] and num(k[1]) is not None:
                    return self.alloc(st, T('list', *[T('idx', self.deep(x, st), k[1]) for x in s[0]]))
                if full[1] and num(k[0]) is not None:
                    return s[0][int(num(k[0]))]
                if num(k[0]) is not None and num(k[1]) is not None:
                    return T('idx', self.deep(s[0][int(num(k[0]))], st), k[1])
        return super().index(b, i, st)


class Output:
    """text which is written"""
    def __init__(self):
        self.opened, self.text, self.closed = [], [], 0

    def __call__(self, I, f, args, kws, st, node):
        if f.op == 'exc':
            return FALSE
        a, k = [I.rd(x, st) for x in args], {n: I.rd(x, st) for n, x in kws.items()}
        n = f.args[0] if f.op in ('ext', 'builtin') else None
        if n in ('numpy.shape', 'len') and a:
            s = I.arranged(I.deep(a[0], st))
            if s is not None:
                z = (len(s[0]), I.rows) if s[1] else (I.rows, len(s[0]))
                return T('tuple', *map(C, z)) if n == 'numpy.shape' else C(z[0])
            if a[0].op == 'sym' and a[0].args[0].startswith('%column:'):
                return T('tuple', C(I.rows)) if n == 'numpy.shape' else C(I.rows)
        if n == 'numpy.size' and a and a[0].op == 'sym' and a[0].args[0].startswith('%column:'):
            return C(I.rows)
        if n == 'zip':
            cols = [y for x in a for y in ((I.arranged(x.args[0]) or ((), 0))[0] if x.op == 'star' else x.args[0].args if x.op == 'star' and x.args[0].op == 'list' else (x,))]
            cols = [I.deep(x, st) for x in cols]
            if cols and all(x.op == 'sym' and x.args[0].startswith('%column:') for x in cols):
                return T('list', *[T('tuple', *[T('idx', x, C(i)) for x in cols]) for i in range(I.rows)])
        if n in ('open', 'builtins.open'):
            return self.open(a[0], a[1:], k)
        if n == 'print' and 'file' in k:
            self.to(k['file'])
            self.text += [(sval(k['sep']) if 'sep' in k else ' ').join(self.flat(I, I.deep(x, st)) for x in self.spread(a))] + [sval(k['end']) if 'end' in k else '\n']
            return NONE
        if f.op != 'method':
            return None
        name, c = f.args[0], I.rd(f.args[1], st)
        if name == 'open':
            return self.open(c, a, k)
        if name == 'join' and sval(c) is not None and a[0].op in ('list', 'tuple'):
            return T('joined', c, *[I.deep(x, st) for x in a[0].args])
        if c.op == 'stream':
            if name == '__enter__':
                return c
            if name in ('close', '__exit__'):
                self.closed += 1
                return NONE
            if name in ('write', 'writelines'):
                x = I.deep(a[0], st)
                self.text += [self.flat(I, y) for y in (x.args if name == 'writelines' else (x,))]
                return NONE
        return None

    def attr(self, I):
        def rows(c, name):
            s = I.arranged(c) if name in ('T', 'shape', 'ndim') else None
            if s is None:
                return T('tuple', C(I.rows)) if name == 'shape' and c.op == 'sym' and c.args[0].startswith('%column:') else C(I.rows) if name == 'size' and c.op == 'sym' and c.args[0].startswith('%column:') else None
            if name == 'ndim':
                return C(2)
            if name == 'shape':
                return T('tuple', C(len(s[0])), C(I.rows)) if s[1] else T('tuple', C(I.rows), C(len(s[0])))
            return T('list', *[T('list', *[T('idx', x, C(i)) for x in s[0]]) for i in range(I.rows)]) if s[1] else T('list', *s[0])
        return rows

    def open(self, path, a, k):
        mode = sval(k.get('mode', a[0] if a else C('r')))
        while path.op == 'call' and path.args[0] in ('pathlib.Path', 'str') or path.op == 'meth' and path.args[0] in ('expanduser', 'absolute', 'resolve'):
            path = path.args[1]
        self.opened.append((path, mode))
        return T('stream', path, C(mode))

    def spread(self, a):
        return [y for x in a for y in (x.args[0].args if x.op == 'star' and x.args[0].op in ('list', 'tuple') else (x,))]

    def to(self, f):
        if f.op != 'stream':
            raise AnalysisBroken('prints to ' + show(f, 3))

    def flat(self, I, t):
        """text with the names of the values in it"""
        if t.op == 'c' and isinstance(t.args[0], (str, int, float)):
            return str(t.args[0])
        if t.op == 'joined':
            return t.args[0].args[0].join(self.flat(I, x) for x in t.args[1:])
        if t.op == 'add':
            return ''.join(self.flat(I, x) for x in t.args)
        if t.op == 'fstr':
            return ''.join(self.flat(I, x) for x in t.args)
        if t.op == 'fmt':
            spec = t.args[1] if isinstance(t.args[1], str) else sval(t.args[1]) or ''
            x = self.flat(I, t.args[0])
            return x if not spec else self.padded(x, spec)
        if t.op == 'meth' and t.args[0] == 'format' and sval(t.args[1]) is not None:
            return re.sub(r'\{(\d+)(?::([^}]*))?\}', lambda m: self.padded(self.flat(I, t.args[2 + int(m[1])]), m[2] or ''), sval(t.args[1]))
        if t.op in ('mod', 'strfmt') and sval(t.args[0]) is not None:
            x = list(t.args[1].args if t.args[1].op == 'tuple' else (t.args[1],))
            return re.sub(r'%(-?\d*(?:\.\d+)?[sdrfg])', lambda m: self.padded(self.flat(I, x.pop(0)), m[1].lstrip('-').replace('r', 's')), sval(t.args[0]))
        if t.op == 'call' and t.args[0] in ('str', 'repr') and len(t.args) == 2:
            return self.flat(I, t.args[1])
        if t.op == 'sym':
            return t.args[0]
        return show(t, 6)

    def padded(self, x, spec):
        if re.fullmatch(r'[<>^]?\d*[sd]?', spec):
            n = re.sub(r'\D', '', spec)
            return x.ljust(int(n or 0))
        return f'{x}({spec})'


def tree(lines):
    """mapping of lines by their indentation"""
    root, stack = {}, []
    stack = [(-1, root)]
    for x in lines:
        if not x.strip() or x.lstrip().startswith('#'):
            continue
        n = len(x) - len(x.lstrip())
        key, _, val = x.strip().partition(':')
        while stack[-1][0] >= n:
            stack.pop()
        at = stack[-1][1]
        if not isinstance(at, dict):
            return None
        at[key.strip()] = val.strip() if val.strip() else {}
        if not val.strip():
            stack.append((n, at[key.strip()]))
    return root


def write(ctx, case, columns=None, delimiter=None, header=False, rows=2):
    q = 'to_ascii'
    key, w = f'{q}:{case}', where(ctx, M + q)
    cols = columns or ('time', 'lat', 'lon', 'tide')
    m = Output()
    I = Writer(ctx.repo, on_call=m)
    I.rows = rows
    I.on_attr = m.attr(I)
    kw = dict(output=mapping(**{c: S('%column:' + c) for c in reversed(cols)}), filename=S('%path'), attributes=mapping(**{c: mapping(units=S('%units:' + c), long_name=S('%name:' + c)) for c in cols}))
    if columns:
        kw['columns'] = T('list', *map(C, columns))
    if delimiter:
        kw['delimiter'] = C(delimiter)
    if header:
        kw['header'] = TRUE
    v, st = I.run(ctx.repo.func(M + q), kwargs=kw)
    ctx.analysed(M + q)
    ctx.ob('written', key + ':file', m.opened == [(S('%path'), 'w')] and m.closed, f'opens {[(show(a, 3), b) for a, b in m.opened]}', w)
    text = ''.join(m.text)
    lines = text.split('\n')
    if lines and not lines[-1]:
        lines.pop()
    if header:
        ends = [k for k, x in enumerate(lines) if re.search(r'\# End of YAML header', x)]
        ctx.ob('written', key + ':end', len(ends) == 1, f'{len(ends)} ends of header', w)
        if len(ends) != 1:
            return
        head, lines = tree(lines[:ends[0]]), lines[ends[0] + 1:]
        h = head.get('header') if head and set(head) == {'header'} else {}
        ctx.ob('written', key + ':dimensions', isinstance(h, dict) and h.get('dimensions') == {'time': str(rows)}, f'{h.get("dimensions")}', w)
        ctx.ob('written', key + ':global', isinstance(h.get('global_attributes'), dict) and 'date_created' in h['global_attributes'], 'global attributes', w)
        vs = h.get('variables') if isinstance(h.get('variables'), dict) else {}
        ctx.ob('written', key + ':variables', list(vs) == list(cols), f'{list(vs)}', w)
        for j, c in enumerate(cols):
            at = vs.get(c) if isinstance(vs.get(c), dict) else {}
            for a, e in (('units', '%units:' + c), ('long_name', '%name:' + c), ('comment', f'column {j + 1}')):
                ctx.ob('written', f'{key}:{c}:{a}', at.get(a) == e, f'{at.get(a)}', w)
    ctx.ob('written', key + ':lines', len(lines) == rows, f'{len(lines)} lines', w)
    for i, x in enumerate(lines[:rows]):
        e = (delimiter or ',').join(f'%column:{c}[{i}]' for c in cols)
        ctx.ob('written', f'{key}:{i}', x == e, x, w)


def run(ctx):
    ctx.rule('source', 'the file which is given is opened, expanded when it is compressed, and split into words', 10)
    ctx.rule('column', 'elements of variables are the words in their column and line', 60)
    ctx.rule('header', 'header lines are skipped and give the attributes', 10)
    cases = {'default': {}, 'gzip': dict(compression='gzip'), 'object': dict(compression='bytes'), 'binary': dict(compression='bytes', binary=True),
             'header': dict(header=2), 'yaml': dict(header='YAML'), 'fill': dict(header='YAML', fill=True), 'dates': dict(dates=True), 'dates header': dict(dates=True, header=2), 'yaml dates': dict(header='YAML', dates=True),
             'columns': dict(columns=('x', 'data', 'y')), 'more': dict(words=6), 'semicolon': dict(delimiter=';'), 'blank': dict(delimiter=''), 'blank header': dict(delimiter='', header=1), 'one': dict(count=1)}
    for n, kw in cases.items():
        with ctx.case(f'from_ascii:{n}'):
            read(ctx, n, **kw)
    ctx.rule('written', 'the columns are written in their order with a line for every element, and the header has the attributes', 40)
    cases = {'default': {}, 'header': dict(header=True), 'columns': dict(columns=('x', 'data', 'y')), 'tab': dict(delimiter='\t'), 'columns header': dict(columns=('x', 'data'), header=True, delimiter=';', rows=3), 'one': dict(rows=1)}
    for n, kw in cases.items():
        with ctx.case(f'to_ascii:{n}'):
            write(ctx, n, **kw)
