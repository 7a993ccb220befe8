"""P26 text and netCDF files of models"""
from .common import *
from .P25 import Sizes, Reader, Quiet
from sa import records as R
from sa.datasets import Data, line
from sa.equiv import compare_cases

EXPLANATION = ('Static evaluation of the readers and writers of text and netCDF files: the words of a text file are followed by line and column over symbolic numbers of rows and of full lines, '
               'the variables, dimensions and attributes of netCDF files at symbolic positions; the constant at each node, its mask, coordinates and constituent are compared with their definition.')
IO = 'pyTMD.io.'
FULL_ = T('slice', NONE, NONE, NONE)
RAD = T('div', T('pi'), C(180))


def V(name, *pos):
    x = T('idx', S('variables'), C(name))
    return T('idx', x, T('tuple', *pos) if len(pos) > 1 else pos[0]) if pos else x


def fill(x):
    return T('attr', 'fill_value', x)


def given(t):
    """fill values of an array do not change with its elements; numbers of a file are given by their data"""
    def one(x):
        if x.op == 'attr' and x.args[0] == 'fill_value':
            y = x.args[1]
            while y.op in ('setattr', 'store', 'idx') and y.args[0] is not S('variables') or y.op == 'meth' and y.args[0] == 'copy':
                y = y.args[1] if y.op == 'meth' else y.args[0]
            return T('attr', 'fill_value', y)
        if x.op == 'attr' and x.args[0] == 'data':
            return x.args[1]
        return x
    return rewrite(t, one)


def run_(ctx, z, qual, source, lines=None, dims=None, attrs=None, **kw):
    F = Data(z.known, z.shapes, source, lines, dims, attrs)
    I = Reader(ctx.repo, on_call=F)
    v, st = I.run(ctx.repo.func(qual), kwargs=kw)
    return F, NONE if v is None else F.tidy(I.deep(v, st)), I, st


def pick(v, k):
    if v.op not in ('tuple', 'list') or k >= len(v.args):
        raise R.Misread(f'returns {show(v, 2)[:100]}')
    return v.args[k]


def constant(F, got, mask, want, pos, shape):
    """complex constant at a node"""
    p = [R.poly(x) for x in pos]
    out = [(f'extent{k}', R.aspoly(a), R.aspoly(R.poly(b))) for k, (a, b) in enumerate(zip(F.extents(got), shape))]
    m = given(T('ite', F.at(T('attr', 'mask', got), p), TRUE, FALSE))
    v = given(F.at(got, p))
    out.append(('mask', m, T('ite', mask, TRUE, FALSE)))
    if v.op == 'complex':
        v = T('add', v.args[0], T('mul', T('I'), v.args[1]))
    out.append(('value', T('ite', mask, C(0), v), T('ite', mask, C(0), want)))
    return out


def vector(F, got, want, pos, n):
    p = R.poly(pos)
    if len(F.extents(got)) != 1:
        raise R.Misread('not an array of one dimension: ' + show(got, 3)[:100])
    return [('extent', R.aspoly(F.extents(got)[0]), R.aspoly(R.poly(n))), ('element', given(F.at(got, [p])), want)]


def oscillation(a, p):
    """amplitude and Greenwich phase lag in degrees"""
    return T('mul', a, T('call', 'numpy.exp', T('mul', T('neg', T('I')), T('mul', p, RAD))))


# ---------------------------------------------------------------- text
def text(ctx, z, model, rest, compressed, column):
    """nodes of a row follow each other on lines of a given number of words; column: of a full line (True) or of the last one"""
    per = dict(GOT=11, FES=30)[model]
    nlat, i = z.size('i', 'ii'), z.atom('i')
    q = z.size('k', 'kk') if column else z.atom('q')
    nlon = R.aspoly(R.plus(R.times(R.poly(q), {(): R.Fraction(per)}), {(): R.Fraction(rest)} if rest else {}))
    A, P = z.array('A', nlat, nlon), z.array('P', nlat, nlon)

    def rows(*arrays):
        row, k = S('%row'), S('%line')
        out = []
        at = lambda x, lo, n: T('idx', x, T('tuple', row, T('slice', lo, T('add', lo, C(n)), NONE)))
        full = [line(at(x, T('mul', C(per), k), per), C(per)) for x in arrays]
        out.append(('rep', k, q, full))
        if rest:
            out += [line(at(x, T('mul', C(per), q), rest), C(rest)) for x in arrays]
        return [('rep', row, nlat, out)]
    lim = [S(k) for k in ('a', 'b', 'c', 'd', 'f')]
    a, b, c, d, f = lim
    if model == 'GOT':
        header = [line([S('title')]), line([S('note')]), line([nlat, nlon]), line([a, b]), line([c, d]), line([f, f]), line([S('format')])]
        lines = header + rows(A) + header + rows(P)
    else:
        lines = [line([c, d]), line([a, b]), line([S('dx'), S('dy')]), line([nlon, nlat]), line([f, f])] + rows(A, P)
    F, v, *_ = run_(ctx, z, IO + f'{model}.read_ascii_file', (S('file'), 'compressed' if compressed else 'plain'), lines, input_file=S('file'), compressed=C(compressed))
    out = {}
    base = R.times(R.poly(z.atom('k') if column else q), {(): R.Fraction(per)})
    for m in ((0, 4, per - 1) if column else sorted({0, rest//2, rest - 1})):
        col_ = R.aspoly(R.plus(base, {(): R.Fraction(m)} if m else {}))
        am, ph = (T('idx', x, T('tuple', i, col_)) for x in (A, P))
        mask = tor(T('cmp', '==', am, f), T('cmp', '==', ph, f))
        out[f'node{m}'] = constant(F, pick(v, 0), mask, oscillation(am, ph), (i, col_), (nlat, nlon))
    for k, lo, hi, n in ((1, c, d, nlon), (2, a, b, nlat)):
        out[('lon', 'lat')[k - 1]] = [('', rewrite(pick(v, k), lambda x: T('call', *x.args[:4]) if x.op == 'call' and x.args[0] == 'numpy.linspace' else x), T('call', 'numpy.linspace', lo, hi, n))]
    if model == 'GOT':
        out['constituent'] = [('', pick(v, 3), T('call', 'parse', T('idx', S('%lines'), C(0))))]
    for pairs in out.values():
        pairs[:] = [(n, fills(F, x, f), y) for n, x, y in pairs]
    return out


def fills(F, t, f):
    """the fill value of the arrays is the one of the file"""
    def one(x):
        if x.op == 'attr' and x.args[0] == 'fill_value' and x.args[1].op == 'mu':
            y = x.args[1].args[2]
            while y.op in ('setattr', 'store', 'mu'):
                y = y.args[2] if y.op == 'mu' else y.args[0]
            return next((F.tidy(k.args[1]) for k in y.args if isinstance(k, T) and k.op == 'kw' and k.args[0] == 'fill_value'), x)
        return x
    return rewrite(t, one)


# ---------------------------------------------------------------- netCDF readers
FES = {'FES2012': ('lon', 'lat', dict(z=('Ha', 'Hg'), u=('Ua', 'Ug'), v=('Va', 'Vg'))),
       'FES2014': ('lon', 'lat', dict(z=('amplitude', 'phase'), u=('Ua', 'Ug'), v=('Va', 'Vg'))),
       'FES2022': ('lon', 'lat', dict(z=('amplitude', 'phase'), u=('Ua', 'Ug'), v=('Va', 'Vg'))),
       'EOT20': ('lon', 'lat', dict(z=('amplitude', 'phase'))),
       'HAMTIDE11': ('LON', 'LAT', dict(z=('AMPL', 'PHAS'), u=('UAMP', 'UPHA'), v=('VAMP', 'VPHA')))}


class Grid:
    def __init__(self, z, variables, dims=(), reverse=False):
        self.z = z
        self.ny, self.nx, self.i, self.j = z.size('j', 'jj'), z.size('i', 'ii'), z.atom('i'), z.atom('j')
        self.dims = {k: {'x': self.nx, 'y': self.ny}[k[-1]] for k in dims}
        sizes = {'x': self.nx, 'y': self.ny, 'c': C(4), 'k': z.size('n', 'nn')}
        for name, axes in variables.items():
            z.shapes[V(name)] = tuple(sizes[c] for c in axes)


def source(compressed):
    return (S('file'), 'compressed' if compressed else 'plain')


def polar(ctx, z, model, version, kind, compressed):
    lon, lat, keys = FES[version] if model == 'FES' else ('longitude', 'latitude', dict(z=('amplitude', 'phase')))
    a, p = keys[kind]
    g = Grid(z, {lon: 'x', lat: 'y', a: 'yx', p: 'yx'})
    kw = dict(version=C(version), type=C(kind)) if model == 'FES' else {}
    F, v, *_ = run_(ctx, z, IO + f'{model}.read_netcdf_file', source(compressed), attrs={'Constituent': S('name')}, input_file=S('file'), compressed=C(compressed), **kw)
    A, P = V(a, g.j, g.i), V(p, g.j, g.i)
    nan = lambda x: T('call', 'numpy.isnan', x)
    mask = tor(T('cmp', '==', A, fill(V(a))), T('cmp', '==', P, fill(V(p))), nan(A), nan(P))
    if model == 'FES':
        mask = tor(mask, tand(T('cmp', '==', A, C(0)), T('cmp', '==', P, C(0))))
    out = {'node': constant(F, pick(v, 0), mask, oscillation(A, P), (g.j, g.i), (g.ny, g.nx)),
           'lon': vector(F, pick(v, 1), V(lon, g.i), g.i, g.nx), 'lat': vector(F, pick(v, 2), V(lat, g.j), g.j, g.ny)}
    if model == 'GOT':
        out['constituent'] = [('', pick(v, 3), T('call', 'parse', S('name')))]
    return out


def atlas_grid(ctx, z, kind, compressed):
    k = kind.lower()
    g = Grid(z, {f'{n}_{c}': dict(lon='x', lat='y')[n] for c in 'zuv' for n in ('lon', 'lat')} | {'h' + c: 'xy' for c in 'zuv'}, ('nx', 'ny'))
    F, v, *_ = run_(ctx, z, IO + 'ATLAS.read_netcdf_grid', source(compressed), dims=g.dims, input_file=S('file'), variable=C(kind), compressed=C(compressed))
    h = V('h' + k, g.i, g.j)
    return {'node': constant(F, pick(v, 2), T('cmp', '==', h, C(0)), h, (g.j, g.i), (g.ny, g.nx)),
            'lon': vector(F, pick(v, 0), V('lon_' + k, g.i), g.i, g.nx), 'lat': vector(F, pick(v, 1), V('lat_' + k, g.j), g.j, g.ny)}


def atlas_constants(ctx, z, kind, compressed):
    k = dict(z='h').get(kind, kind.lower())
    g = Grid(z, {'con': 'c', **{c + p: 'xy' for c in 'huv' for p in ('Re', 'Im')}}, ('nx', 'ny'))
    F, v, *_ = run_(ctx, z, IO + 'ATLAS.read_netcdf_file', source(compressed), dims=g.dims, input_file=S('file'), variable=C(kind), compressed=C(compressed))
    want = T('add', V(k + 'Re', g.i, g.j), T('mul', T('I'), V(k + 'Im', g.i, g.j)))
    name = lambda t: rewrite(t, lambda x: x.args[0] if x.op == 'idx' and x.args[1] is FULL_ else x)
    con = T('meth', 'strip', T('meth', 'decode', T('meth', 'tobytes', V('con')), C('utf8')))
    return {'node': constant(F, pick(v, 0), FALSE, want, (g.j, g.i), (g.ny, g.nx)), 'constituent': [('', name(pick(v, 1)), con)]}


def tmd3(ctx, z, kind):
    ny = lambda g, y: R.aspoly(R.plus(R.plus(R.poly(g.ny), R.poly(y), -1), {(): R.Fraction(-1)}))
    if kind == 'grid':
        g = Grid(z, {'x': 'x', 'y': 'y', 'wct': 'yx', 'mask': 'yx', 'flexure': 'yx'})
        F, v, *_ = run_(ctx, z, IO + 'OTIS.read_netcdf_grid', source(False), input_file=S('file'))
        back = ny(g, g.j)
        h, m, s = (V(k, back, g.i) for k in ('wct', 'mask', 'flexure'))
        p = [R.poly(g.j), R.poly(g.i)]
        return {'x': vector(F, pick(v, 0), V('x', g.i), g.i, g.nx), 'y': vector(F, pick(v, 1), V('y', back), g.j, g.ny),
                'depth': constant(F, pick(v, 2), T('cmp', '==', h, C(0)), h, (g.j, g.i), (g.ny, g.nx)), 'land': [('', given(F.at(pick(v, 3), p)), m)],
                'flexure': constant(F, pick(v, 4), T('cmp', '==', s, C(0)), T('div', s, C(100)), (g.j, g.i), (g.ny, g.nx))}
    k = dict(z='h').get(kind, kind.upper())
    g = Grid(z, {k + 'Re': 'kyx', k + 'Im': 'kyx'}, ('x', 'y'))
    F, v, *_ = run_(ctx, z, IO + 'OTIS.read_netcdf_file', source(False), dims=g.dims, input_file=S('file'), ic=z.atom('n'), variable=C(kind))
    at = (z.atom('n'), ny(g, g.j), g.i)
    want = T('sub', V(k + 'Re', *at), T('mul', T('I'), V(k + 'Im', *at)))
    return {'node': constant(F, v, FALSE, want, (g.j, g.i), (g.ny, g.nx))}


# ---------------------------------------------------------------- netCDF writers
def created(F, I, st):
    """variables written: name -> contents"""
    if len(F.created) != 1:
        raise R.Misread(f'{len(F.created)} files are written')
    path, ref, variables, dims = F.created[0]
    if path is not S('file'):
        raise R.Misread('writes ' + show(path, 3))
    attrs = {kv.args[0]: F.tidy(I.deep(kv.args[1], st)) for kv in st.heap[ref.args[0]].args[1:]}
    return {sval(kv.args[0]): F.tidy(I.deep(kv.args[1], st)) for kv in st.heap[variables.args[0]].args[1:]}, attrs


def variable(F, cells, name, dims, pos, shape):
    """a number of a variable: as written, its mask, the value which stands for masked numbers"""
    if name not in cells:
        raise R.Misread(f'no variable {name}')
    cell = cells[name]
    base = cell
    while base.op in ('store', 'setattr', 'fill'):
        base = base.args[0]
    out = [('dimensions', T('list', *base.args[1].args), T('list', *map(C, dims)))]
    out += [(f'extent{k}', R.aspoly(a), R.aspoly(R.poly(b))) for k, (a, b) in enumerate(zip(F.extents(base), shape))]
    if base.op != 'variable':
        raise R.Misread(f'{name} is {show(base, 3)}')
    t = base.args[3]
    if t.op == 'ext' and t.args[0] in R.TYPES and R.TYPES[t.args[0]][1] != 'f' or sval(t) and R.code(t)[1] not in 'fS':
        raise R.Misread(f'{name} has the type {show(t, 2)}')
    if not pos:
        return out, None, None, None
    p = [R.poly(x) for x in pos]
    v, m = given(F.at(cell, p)), given(F.at(T('attr', 'mask', cell), p))
    return out, v, m, given(base.args[2])


def units(cells, name):
    x = cells[name]
    while x.op in ('store', 'setattr', 'fill'):
        if x.op == 'setattr' and x.args[1] == 'units':
            return x.args[2]
        x = x.args[0]
    return NONE


def write_polar(ctx, z, model, kind):
    a, p = dict(z=('amplitude', 'phase'), u=('Ua', 'Ug'), v=('Va', 'Vg'))[kind]
    lon, lat = ('lon', 'lat') if model == 'FES' else ('longitude', 'latitude')
    ny, nx, i, j = z.size('j', 'jj'), z.size('i', 'ii'), z.atom('i'), z.atom('j')
    hc = z.array('hc', ny, nx)
    kw = dict(type=C(kind)) if model == 'FES' else {}
    F, _, I, st = run_(ctx, z, IO + f'{model}.output_netcdf_file', None, FILE=S('file'), hc=hc, lon=z.array('x', nx), lat=z.array('y', ny), constituent=C('m2'), **kw)
    cells, attrs = created(F, I, st)
    out = {}
    for name, s, d, n in ((lon, 'x', i, nx), (lat, 'y', j, ny)):
        o, v, *_ = variable(F, cells, name, (name,), (d,), (n,))
        out[name] = o + [('element', v, T('idx', S(s), d))]
    o1, amp, m1, f1 = variable(F, cells, a, (lat, lon), (j, i), (ny, nx))
    o2, ph, m2, f2 = variable(F, cells, p, (lat, lon), (j, i), (ny, nx))
    h = T('idx', hc, T('tuple', j, i))
    mask = T('attr', 'mask', h)
    out[a], out[p] = list(o1), list(o2)
    for name, v, m, f in ((a, amp, m1, f1), (p, ph, m2, f2)):
        if f is NONE:
            raise R.Misread(f'{name} has no fill value')
        x = T('ite', m, f, v)
        out[name].append(('masked', T('ite', mask, x, C(0)), T('ite', mask, f, C(0))))
    z_ = oscillation(T('ite', m1, C(0), amp), T('ite', m2, C(0), ph))
    re, im = (T('attr', n, h) for n in ('real', 'imag'))
    out[a].append(('value', T('ite', mask, C(0), amp), T('ite', mask, C(0), T('call', 'numpy.abs', h))))
    want = T('div', T('mul', C(180), T('call', 'numpy.arctan2', T('neg', im), re)), T('pi'))
    if model == 'GOT':
        want = ite(T('cmp', '<', want, C(0)), T('add', want, C(360)), want)
    out[p].append(('value', T('ite', mask, C(0), ph), T('ite', mask, C(0), want)))
    if model == 'GOT':
        out['constituent'] = [('', attrs.get('Constituent', NONE), C('M2'))]
    out[p].append(('units', units(cells, p), C('degrees')))
    return out


def write_atlas(ctx, z, quantity):
    ny, nx, i, j = z.size('j', 'jj'), z.size('i', 'ii'), z.atom('i'), z.atom('j')
    kinds = dict(grid='zuv', elevation='z', transport='uv')[quantity]
    kw, want = {}, {}
    for k in kinds:
        name = {'z': 'h'}.get(k, k) if quantity != 'grid' else 'h' + k
        kw[name] = z.array(name, ny, nx)
        h = T('idx', kw[name], T('tuple', j, i))
        if quantity == 'grid':
            want[name] = (h, T('attr', 'mask', h))
        else:
            want.update({name + n: (T('attr', p, h), T('attr', 'mask', h)) for n, p in (('Re', 'real'), ('Im', 'imag'))})
        kw['lon_' + k], kw['lat_' + k] = z.array('lon_' + k, nx), z.array('lat_' + k, ny)
    if quantity != 'grid':
        kw['constituent'] = C('k1')
    F, _, I, st = run_(ctx, z, IO + 'ATLAS.output_netcdf_' + quantity, None, FILE=S('file'), **kw)
    cells, attrs = created(F, I, st)
    out = {}
    for k in kinds:
        for n, d, p, e in (('lon_', 'nx', i, nx), ('lat_', 'ny', j, ny)):
            o, v, *_ = variable(F, cells, n + k, (d,), (p,), (e,))
            out[n + k] = o + [('element', v, T('idx', S(n + k), p))]
    for name, (w, m) in want.items():
        o, v, mask, f = variable(F, cells, name, ('nx', 'ny'), (i, j), (nx, ny))
        out[name] = o + [('element', T('ite', mask, f, v), T('ite', m, C(0), w))]
        if f is NONE:
            raise R.Misread(f'{name} has no fill value')
    if quantity != 'grid':
        o, *_ = variable(F, cells, 'con', ('nct',), (), (C(4),))
        v = cells['con']
        while v.op == 'setattr':
            v = v.args[0]
        v = v.args[-1] if v.op in ('store', 'fill') else NONE
        text_ = next((x for x in walk(v) if x.op == 'list'), T('list'))
        out['con'] = o + [('text', text_, T('list', *[C(c.encode()) for c in 'k1  ']))]
    return out


# ---------------------------------------------------------------- obligations
def opaque(t):
    """parts of constants as quantities"""
    def one(x):
        if x.op == 'attr' and x.args[0] in ('real', 'imag'):
            return T('call', '%' + x.args[0], x.args[1])
        if x.op == 'call' and x.args[0] == 'numpy.angle':
            a = T('call', 'numpy.arctan2', T('call', '%imag', x.args[1]), T('call', '%real', x.args[1]))
            d = x.args[2] if len(x.args) > 2 else FALSE
            d = d.args[1] if d.op == 'kw' else d
            return T('div', T('mul', C(180), a), T('pi')) if d is TRUE else a if d is FALSE else x
        return x
    return rewrite(t, one)


def decide(ctx, rule, construct, qual, f, *a):
    ctx.analysed(qual)
    at = where(ctx, qual)
    try:
        out = f(ctx, Sizes(), *a)
        pairs = [(f'{construct}:{name}{"." if n else ""}{n}', x, y) for name, ps in out.items() for n, x, y in ps]
    except R.Misread as e:
        ctx.ob(rule, construct, False, str(e), at)
        return
    except R.Unplaced as e:
        for numbers in ((0, 1, 2), (2, 1, 0, 3), (1, 3, 2, 0, 5)):
            try:
                out = f(ctx, Sizes(numbers), *a)
            except R.Misread as x:
                ctx.ob(rule, construct, False, f'{x} (for sizes {numbers})', at)
                return
            except (R.Unplaced, AnalysisBroken, IndexError):
                continue
            q = Quiet()
            for name, ps in out.items():
                for n, x, y in ps:
                    compare_cases(q, rule, f'{name}{n}', opaque(x), opaque(y), NF(), at)
            if q.failed:
                ctx.ob(rule, construct, False, f'{q.failed} (for sizes {numbers})', at)
                return
        raise AnalysisBroken(f'{construct}: position not decided: {e}')
    for name, x, y in pairs:
        compare_cases(ctx, rule, name, opaque(x), opaque(y), NF(), at)


def run(ctx):
    ctx.rule('text', 'constants, coordinates and constituent of a text file are those of its lines', 20)
    ctx.rule('netcdf', 'constants, coordinates and constituent of a netCDF file are those of the variables of its format', 40)
    ctx.rule('written', 'variables of a written netCDF file hold the constants, coordinates and constituent given', 40)
    for model, per in (('GOT', 11), ('FES', 30)):
        for compressed in (False, True):
            for rest in (0, 1, 5, per - 1):
                for column in (True, False) if rest else (True,):
                    name = f'{model}:{"compressed" if compressed else "plain"}:rest={rest}:{"full" if column else "last"}'
                    with ctx.case(name):
                        decide(ctx, 'text', name, IO + f'{model}.read_ascii_file', text, model, rest, compressed, column)
    for compressed in (False, True):
        c = ':compressed' if compressed else ''
        with ctx.case('GOT' + c):
            decide(ctx, 'netcdf', 'GOT' + c, IO + 'GOT.read_netcdf_file', polar, 'GOT', None, 'z', compressed)
        for version, (_, _, keys) in FES.items():
            for kind in keys:
                with ctx.case(f'{version}:{kind}{c}'):
                    decide(ctx, 'netcdf', f'{version}:{kind}{c}', IO + 'FES.read_netcdf_file', polar, 'FES', version, kind, compressed)
        for kind in ('z', 'u', 'U', 'v', 'V'):
            with ctx.case('ATLAS' + kind + c):
                decide(ctx, 'netcdf', f'ATLAS:grid:{kind}{c}', IO + 'ATLAS.read_netcdf_grid', atlas_grid, kind, compressed)
                decide(ctx, 'netcdf', f'ATLAS:{kind}{c}', IO + 'ATLAS.read_netcdf_file', atlas_constants, kind, compressed)
    for kind in ('grid', 'z', 'u', 'U', 'v', 'V'):
        with ctx.case('TMD3' + kind):
            decide(ctx, 'netcdf', 'TMD3:' + kind, IO + ('OTIS.read_netcdf_grid' if kind == 'grid' else 'OTIS.read_netcdf_file'), tmd3, kind)
    for model, kinds in (('GOT', 'z'), ('FES', 'zuv')):
        for kind in kinds:
            with ctx.case(model + kind):
                decide(ctx, 'written', f'{model}:{kind}', IO + f'{model}.output_netcdf_file', write_polar, model, kind)
    for quantity in ('grid', 'elevation', 'transport'):
        with ctx.case(quantity):
            decide(ctx, 'written', f'ATLAS:{quantity}', IO + f'ATLAS.output_netcdf_{quantity}', write_atlas, quantity)
