"""P25 binary files of OTIS and ATLAS-compact models"""
from .common import *
from sa import records as R
from sa.equiv import compare_cases

EXPLANATION = ('Static evaluation of the readers and writers of binary files over symbolic sizes: positions and lengths are polynomials of the sizes of the grid, of the lists of nodes and of the '
               'numbers of constituents. Every value that a reader returns is traced to the number that lies at the position which it reads, in files laid out by a reference definition; '
               'every number of the reference layout is looked up, with its type and byte order, in what a writer writes.')
M, SPEC = 'pyTMD.io.OTIS.', 'spec.records.'


MORE = {'quick': (), 'thorough': ((('k1', 'm2', 's2', 'n2'),), (('m2', 's2', 'n2', 'k1'),), (('m2', 's2'), ('n2', 'k2', 'q1')), (('k1',), ('o1', 'p1', 'q1', 'k1')), (('q1',), ('k1', 'm2')))}


class Sizes:
    """sizes: symbolic (1 plus the position of an element plus the rest) or small numbers"""
    def __init__(self, numbers=None):
        self.numbers, self.known, self.shapes = numbers, set(), {}

    def atom(self, name, k=0):
        if self.numbers is not None:
            return C(self.numbers[(hash_(name) + k) % len(self.numbers)])
        self.known.add(S(name))
        return S(name)

    def size(self, position, rest):
        return R.aspoly(R.plus(R.plus(R.poly(self.atom(position)), R.poly(self.atom(rest, 1))), {(): R.Fraction(1)}))

    def array(self, name, *shape):
        self.shapes[S(name)] = shape
        return S(name)


def hash_(name):
    return sum(map(ord, name))


class Reader(Interp):
    """interpreter which decides comparisons of sizes"""
    def compare(self, op, a, b, st=None):
        if op in ('==', '<', '<='):
            x, y = (self.deep(t, st) if st is not None else t for t in (a, b))
            F = self.on_call
            try:
                d = R.plus(R.poly(F.tidy(y)), R.poly(F.tidy(x)), -1)
            except AnalysisBroken:
                d = None
            if d is not None and all(q in F.sizes for m in d for q in m):
                more, less = F.positive(d, True), F.positive(R.plus({}, d, -1), True)
                if op == '==' and (not d or more or less):
                    return C(not d)
                if op == '<' and (more or F.positive(R.plus({}, d, -1))):
                    return C(more)
                if op == '<=' and (less or F.positive(d)):
                    return C(not less)
        return super().compare(op, a, b, st)

    def boolean(self, v):
        F = self.on_call
        if v.op in ('add', 'mul', 'sub') and all(q in F.sizes for m in R.poly(v) for q in m) and F.positive(R.poly(v), True):
            return TRUE
        return super().boolean(v)


def run_(ctx, z, qual, contents=None, distinct=(), **kw):
    F = R.Files(z.known, z.shapes, contents, distinct)
    I = Reader(ctx.repo, on_call=F)
    v, st = I.run(ctx.repo.func(qual), kwargs=kw)
    logs = [{kv.args[0]: kv.args[1] for kv in x.args[1:]} for x in st.heap.values() if x.op == 'obj' and x.args[0] == '%file']
    return F, v if v is None else F.tidy(I.deep(v, st)), logs


def layout(ctx, z, name, **kw):
    F, _, logs = run_(ctx, z, SPEC + name, **kw)
    return F.load(logs[0]['log'])


def scalar(F, got, want):
    return [('', F.tidy(got), want)]


def array(F, got, want, pos, shape):
    """extents and the element at a position"""
    out = [(f'extent{k}', R.aspoly(a), R.aspoly(R.poly(b))) for k, (a, b) in enumerate(zip(F.extents(got), shape))]
    out.append(('axes', C(len(F.extents(got))), C(len(shape))))
    return out + [('element', F.at(got, [R.poly(p) for p in pos]), want)]


def complexes(t):
    """numbers of a file are complex"""
    return rewrite(t, lambda x: T('call', '%' + x.args[0], x.args[1]) if x.op == 'attr' and x.args[0] in ('real', 'imag') else x)


def masked(F, got, mask, want, pos, shape):
    p = [R.poly(x) for x in pos]
    m = complexes(T('ite', F.at(T('attr', 'mask', got), p), TRUE, FALSE))
    mask, v = complexes(mask), F.at(got, p)
    out = [(f'extent{k}', R.aspoly(a), R.aspoly(R.poly(b))) for k, (a, b) in enumerate(zip(F.extents(got), shape))]
    out += [('mask', m, T('ite', mask, TRUE, FALSE))]
    for n in ('real', 'imag'):
        out.append((n, T('ite', mask, C(0), complexes(R.part(v, n))), T('ite', mask, C(0), complexes(R.part(want, n)))))
    return out


def idx(a, *p):
    return T('idx', a, T('tuple', *p) if len(p) > 1 else p[0])


def pick(v, k):
    if v is None or v.op not in ('tuple', 'list') or k >= len(v.args):
        raise R.Misread(f'returns {show(v, 2)[:100] if v is not None else None}')
    return v.args[k]


def entry(v, name):
    x = v
    while x is not None and x.op == 'store':
        if x.args[1] is name:
            return x.args[2]
        x = x.args[0]
    for kv in x.args[1:] if x is not None and x.op == 'dict' else ():
        if kv.args[0] in (name, name.args[0]):
            return kv.args[1]
    raise R.Misread(f'no entry {show(name, 2)} in {show(v, 2)[:200]}')


def entries(v):
    return sum(x.op == 'kv' for x in v.args[1:]) if v.op == 'dict' else None


class Settings:
    """grid, lists of nodes and local models of a case"""
    def __init__(self, z):
        self.z = z
        self.ny, self.nx, self.nc = z.size('j', 'jj'), z.size('i', 'ii'), z.size('ic', 'cc')
        self.i, self.j, self.ic = z.atom('i'), z.atom('j'), z.atom('ic')
        self.lim = dict(xlim=z.array('xlim', C(2)), ylim=z.array('ylim', C(2)))

    def fields(self, *names):
        return {n: self.z.array(n, self.ny, self.nx, self.nc) for n in names}


# ---------------------------------------------------------------- grids
def grids_(ctx, z, kind, boundary, models):
    s = Settings(z)
    nob = z.size('b', 'bb') if boundary else C(0)
    kw = dict(nx=s.nx, ny=s.ny, nob=nob, dt=S('dt'), iob=z.array('iob', nob, C(2)) if boundary else T('list'), hz=z.array('hz', s.ny, s.nx), mz=z.array('mz', s.ny, s.nx), **s.lim)
    names = []
    if kind == 'atlas':
        kw['pmask'] = z.array('pmask', s.ny, s.nx)
        local = []
        for k in range(models):
            n, nx1, ny1 = z.size(f'k{k}', f'kk{k}'), z.size(f'x{k}', f'xx{k}'), z.size(f'y{k}', f'yy{k}')
            names.append(C((b'Arctic Ocean', b'Mediterranean')[k].ljust(20)))
            local.append(T('tuple', nx1, ny1, n, z.array(f'lat{k}', C(2)), z.array(f'lon{k}', C(2)), names[-1], z.array(f'iz{k}', n), z.array(f'jz{k}', n), z.array(f'd{k}', n)))
        kw['models'] = T('list', *local)
    F, v, _ = run_(ctx, z, M + f'read_{kind}_grid', layout(ctx, z, 'grid' if kind == 'otis' else 'atlas_grid', **kw), input_file=S('file'))
    x, y = run_(ctx, z, SPEC + 'coordinates', west=C(kind == 'otis'), nx=s.nx, ny=s.ny, dt=S('dt'), **s.lim)[1].args
    out = {'x': [('', header(F, pick(v, 0)), header(F, x))], 'y': [('', header(F, pick(v, 1)), header(F, y))]}
    for k, n in ((2, 'hz'), (3, 'mz')) + (((6, 'pmask'),) if kind == 'atlas' else ()):
        out[n] = array(F, pick(v, k), idx(S(n), s.j, s.i), (s.j, s.i), (s.ny, s.nx))
    if boundary:
        for k in (0, 1):
            out[f'iob{k}'] = array(F, pick(v, 4), idx(S('iob'), z.atom('b'), C(k)), (z.atom('b'), C(k)), (nob, C(2)))
    else:
        out['iob'] = [('', C(len(pick(v, 4).args) if pick(v, 4).op in ('list', 'tuple') else -1), C(0))]
    out['dt'] = scalar(F, pick(v, 5), S('dt'))
    if kind == 'atlas':
        local = pick(v, 7)
        out['local'] = [('models', C(-1 if entries(local) is None else entries(local)), C(models))]
        for k in range(models):
            e = entry(local, C(names[k].args[0].strip()))
            nx1, ny1 = z.size(f'x{k}', f'xx{k}'), z.size(f'y{k}', f'yy{k}')
            out[f'local{k}'] = limits(F, e, k) + nodes(F, e, 'depth', z, f'iz{k}', f'jz{k}', f'k{k}', S(f'd{k}'), (ny1, nx1))
    return out


def header(F, t):
    """values of the header in an expression"""
    def one(x):
        if x.op == 'idx' and num(x.args[1]) is not None and x.args[0].op == 'call' and x.args[0].args[0] == 'numpy.array':
            return F.at(x.args[0], [R.poly(x.args[1])])
        return x
    return rewrite(t, one)


def limits(F, e, k):
    return [(f'{n}{i}', F.at(entry(e, C(n)), [R.poly(C(i))]), idx(S(f'{n}{k}'), C(i))) for n in ('lon', 'lat') for i in (0, 1)]


def nodes(F, e, field, z, i, j, k, value, shape):
    """grid of a local model: values at its nodes, masked elsewhere"""
    g = entry(e, C(field))
    q = z.atom(k)
    at = [T('sub', idx(S(j), q), C(1)), T('sub', idx(S(i), q), C(1))]
    out = masked(F, g, FALSE, idx(value, q) if value.op == 'sym' else value, at, shape)
    away = [S('%row'), S('%column')]
    F.distinct |= set(away)
    return out + [('elsewhere', T('ite', F.at(T('attr', 'mask', g), [R.poly(x) for x in away]), TRUE, FALSE), TRUE)]


# ---------------------------------------------------------------- constants
def constants(ctx, z, kind, quantity, models=(), constituent='k1'):
    """models: names of the constituents of each local model"""
    s = Settings(z)
    fields = ('h',) if quantity == 'elevation' else ('u', 'v')
    kw = dict(nx=s.nx, ny=s.ny, nc=s.nc, names=z.array('names', s.nc), **s.lim, **s.fields(*fields))
    args = dict(input_file=S('file'), ic=s.ic)
    titles = [C(n.ljust(20)) for n in (b'Arctic Ocean', b'Mediterranean')]
    if kind == 'atlas':
        local = []
        for k, cons in enumerate(models):
            nx1, ny1, nc = z.size(f'x{k}', f'xx{k}'), z.size(f'y{k}', f'yy{k}'), C(len(cons))
            head = [nx1, ny1, nc] + [z.size(f'{n}k{k}', f'{n}kk{k}') for n in fields]
            head += [z.array(f'lat{k}', C(2)), z.array(f'lon{k}', C(2)), T('list', *[C(c.ljust(4).encode()) for c in cons]), titles[k]]
            for n in fields:
                size = z.size(f'{n}k{k}', f'{n}kk{k}')
                head += [z.array(f'i{n}{k}', size), z.array(f'j{n}{k}', size)]
            for n in fields:
                head.append(z.array(f'{n}{k}', nc, z.size(f'{n}k{k}', f'{n}kk{k}')))
            local.append(T('tuple', *head))
        kw['models'] = T('list', *local)
        args['constituent'] = C(constituent)
    F, v, _ = run_(ctx, z, M + f'read_{kind}_{quantity}', layout(ctx, z, quantity if kind == 'otis' else 'atlas_' + quantity, **kw), **args)
    out = {}
    for k, n in enumerate(fields):
        got = v if kind == 'otis' and quantity == 'elevation' else pick(v, k)
        want = idx(S(n), s.j, s.i, s.ic)
        out[n] = masked(F, got, T('call', 'numpy.isnan', want) if kind == 'otis' else FALSE, want, (s.j, s.i), (s.ny, s.nx))
    if kind == 'atlas':
        local = pick(v, len(fields))
        listed = [k for k, c in enumerate(models) if constituent in c]
        out['local'] = [('models', C(-1 if entries(local) is None else entries(local)), C(len(listed)))]
        for k in listed:
            e = entry(local, C(titles[k].args[0].strip()))
            nx1, ny1 = z.size(f'x{k}', f'xx{k}'), z.size(f'y{k}', f'yy{k}')
            out[f'local{k}'] = limits(F, e, k)
            for n in fields:
                q = z.atom(f'{n}k{k}')
                out[f'local{k}'] += [(f'{n}.{a}', b, c) for a, b, c in nodes(
                    F, e, 'z' if quantity == 'elevation' else n, z, f'i{n}{k}', f'j{n}{k}', f'{n}k{k}', idx(S(f'{n}{k}'), C(models[k].index(constituent)), q), (ny1, nx1))]
    return out


def names(ctx, z, cons, grid):
    s = Settings(z)
    n = len(cons)
    kw = dict(nx=s.nx, ny=s.ny, nc=C(n), names=strs(cons), h=z.array('h', s.ny, s.nx, C(n)), **s.lim)
    F, v, _ = run_(ctx, z, M + 'read_constituents', layout(ctx, z, 'elevation', **kw), input_file=S('file'), grid=C(grid))
    got = pick(v, 0)
    return {'names': [(str(k), a, C(b)) for k, (a, b) in enumerate(zip(got.args, cons))] + [('count', C(len(got.args) if got.op in ('list', 'tuple') else -1), C(n))], 'number': scalar(F, pick(v, 1), C(n))}


# ---------------------------------------------------------------- writers
def written(ctx, z, quantity, boundary=False, lists=False):
    """every number and text of the reference layout lies there in what the program writes"""
    s = Settings(z)
    if quantity == 'grid':
        nob = z.size('b', 'bb') if boundary else C(0)
        fields = dict(hz=z.array('hz', s.ny, s.nx), mz=z.array('mz', s.ny, s.nx), iob=z.array('iob', nob, C(2)) if boundary else T('list'), dt=S('dt'))
        kw = dict(fields, nx=s.nx, ny=s.ny, nob=nob)
    else:
        fields = s.fields('h') if quantity == 'elevation' else s.fields('u', 'v')
        kw = dict(fields, nx=s.nx, ny=s.ny, nc=s.nc, names=z.array('names', s.nc))
        fields = dict(fields, constituents=S('names'))
    lim = {k: T('list', S(k + '0'), S(k + '1')) for k in s.lim} if lists else s.lim
    want = layout(ctx, z, quantity, **kw, **s.lim)
    F, _, logs = run_(ctx, z, M + 'output_otis_' + quantity, **{'FILE': S('file')}, **fields, **lim)
    content = F.load(logs[0]['log'])
    out = {'length': [('', R.aspoly(R.length(content)), R.aspoly(R.length(want)))]}
    value = lambda t: rewrite(t, lambda x: S(x.args[0].args[0] + str(int(num(x.args[1])))) if x.op == 'idx' and x.args[0] in s.lim.values() else x) if lists else t

    def visit(segs, here, sizes, tag):
        for k, g in enumerate(segs):
            label = f'{tag}{k}'
            if g[0] == 'rep':
                n = sizes[R.aspoly(R.poly(g[2]))]
                q = R.poly(n)
                visit(R.put(g[3], {g[1]: n}), R.plus(here, R.times(q, R.length(g[3]))), sizes, label + '.')
            elif g[0] == 'text':
                out[label] = [('', R.find(F, content, here, None)[0], C(g[1]))]
            else:
                for pos in elements(g, sizes, z):
                    flat = {}
                    for p, d in zip(pos, g[3]):
                        flat = R.plus(R.times(flat, R.poly(d)), p)
                    at = R.plus(here, R.times(flat, {(): R.Fraction(R.size(g[1]))}))
                    got = R.find(F, content, at, g[1])[0]
                    want = F.at(g[2], pos) if pos else g[2]
                    out[label + ''.join(':' + show(R.aspoly(p), 3) for p in pos)] = [('', F.tidy(got), value(F.tidy(want)))]
            here = R.plus(here, R.length([g]))
    sizes = {R.aspoly(R.poly(s.ny)): s.j, R.aspoly(R.poly(s.nx)): s.i, R.aspoly(R.poly(s.nc)): s.ic}
    if boundary:
        sizes[R.aspoly(R.poly(nob))] = z.atom('b')
    visit(want, {}, sizes, '')
    return out


def elements(g, sizes, z):
    """a position on every axis of each kind of element (parts of numbers follow each other)"""
    out = [[]]
    for d in g[3]:
        p = R.poly(d)
        if set(p) <= {()}:
            ks = [{(): R.Fraction(k)} if k else {} for k in range(int(p.get((), 0)))]
        else:
            ks = None
            for m in (1, 2, 4):
                n = sizes.get(R.aspoly(R.times(p, {(): R.Fraction(1, m)})))
                if n is not None:
                    ks = [R.plus(R.times(R.poly(n), {(): R.Fraction(m)}), {(): R.Fraction(k)} if k else {}) for k in range(m)]
                    break
            if ks is None:
                raise AnalysisBroken('extent ' + show(d, 4))
        out = [x + [k] for x in out for k in ks]
    return out


# ---------------------------------------------------------------- obligations
class Quiet:
    def __init__(self):
        self.failed = None

    def ob(self, rule, construct, ok, detail='', where=''):
        if not ok:
            self.failed = self.failed or f'{construct}: {detail}'


def decide(ctx, rule, construct, qual, f, *a, **k):
    ctx.analysed(qual)
    at = where(ctx, qual)
    try:
        out = f(ctx, Sizes(), *a, **k)
    except R.Misread as e:
        ctx.ob(rule, construct, False, str(e), at)
        return
    except R.Unplaced as e:
        # a position which is not decided for all sizes: it is, for given ones
        for numbers in ((0, 1, 2), (2, 1, 0, 3), (1, 3, 2, 0, 5)):
            try:
                out = f(ctx, Sizes(numbers), *a, **k)
            except R.Misread as x:
                ctx.ob(rule, construct, False, f'{x} (for sizes {numbers})', at)
                return
            except (R.Unplaced, AnalysisBroken):
                continue
            q = Quiet()
            for name, pairs in out.items():
                for n, got, want in pairs:
                    compare_cases(q, rule, f'{name}{n}', got, want, NF(), at)
            if q.failed:
                ctx.ob(rule, construct, False, f'{q.failed} (for sizes {numbers})', at)
                return
        raise AnalysisBroken(f'{construct}: position not decided: {e}')
    for name, pairs in out.items():
        for n, got, want in pairs:
            compare_cases(ctx, rule, f'{construct}:{name}{"." if n else ""}{n}', got, want, NF(), at)


def run(ctx):
    ctx.rule('grid', 'coordinates, depths, masks, open boundary and local grids are those which the records of a grid file hold', 60)
    ctx.rule('constants', 'constants of a constituent and of local models are those which its record holds, at its nodes; others are masked', 60)
    ctx.rule('names', 'names of constituents are the fields of four characters of the header', 8)
    ctx.rule('written', 'a written file holds the records of its grid or constants', 60)
    for kind in ('otis', 'atlas'):
        for boundary in (False, True):
            for models in (0,) if kind == 'otis' else (0, 1, 2):
                name = f'{kind}:boundary={boundary}:models={models}'
                with ctx.case(name):
                    decide(ctx, 'grid', name, M + f'read_{kind}_grid', grids_, kind, boundary, models)
    for quantity in ('elevation', 'transport'):
        with ctx.case(quantity):
            decide(ctx, 'constants', 'otis:' + quantity, M + 'read_otis_' + quantity, constants, 'otis', quantity)
        for models in ((), (('k1',),), (('m2', 's2'),), (('m2', 'k1', 'o1'),), (('eps2', '2mk5', 'k1'), ('m2', 's2', 'ms4')), (('m2', 's2', 'n2'), ('k1', 'p1')), (('k1', 'o1'), ('m2', 'k1'))) + MORE[ctx.tier]:
            name = f'atlas:{quantity}:' + '|'.join('-'.join(m) for m in models)
            with ctx.case(name):
                decide(ctx, 'constants', name, M + 'read_atlas_' + quantity, constants, 'atlas', quantity, models)
    for cons in (('m2',), ('m2', 's2', 'k1'), ('eps2', '2mk5', 'mf', 'msf')):
        for grid in ('OTIS', 'ATLAS'):
            name = f'{grid}:' + '-'.join(cons)
            with ctx.case(name):
                decide(ctx, 'names', name, M + 'read_constituents', names, cons, grid)
    for quantity in ('elevation', 'transport'):
        for lists in (False, True):
            with ctx.case(quantity):
                decide(ctx, 'written', f'{quantity}{":lists" if lists else ""}', M + 'output_otis_' + quantity, written, quantity, lists=lists)
    for boundary in (False, True):
        for lists in (False, True):
            with ctx.case('grid'):
                decide(ctx, 'written', f'grid:boundary={boundary}{":lists" if lists else ""}', M + 'output_otis_grid', written, 'grid', boundary=boundary, lists=lists)
    ctx.assumptions += ['numbers are written with the precision of their type', 'numbers of a file which count its elements are not negative',
                        'names of constituents have at most four characters', 'the nodes of a local model are different from each other']
