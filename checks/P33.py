"""P33 files of spatial data: netCDF4, HDF5 and geotiff"""
import ast
import re
from sa.equiv import compare_cases, spread
from sa.interp import PathRaises, UNDEF
from sa.paths import Files, text
from .common import *

EXPLANATION = ('Static evaluation of the readers and writers of spatial files over files with given variables and attributes (symbolic contents): what is returned for each variable, attribute and mask, '
               'and the variables, dimensions, attributes and geometry a writer leaves in the file, are compared with their definition.')
M = 'pyTMD.spatial.'
ALL = T('slice', NONE, NONE, NONE)
READ = ('description', 'units', 'long_name', 'calendar', 'standard_name', 'grid_mapping', '_FillValue')


def var(n):
    return S('%var:' + n)


def att(n, a):
    return C('crs') if a == 'grid_mapping' else S(f'%att:{n}@{a}')


def unvar(t):
    return t.args[0][5:] if t.op == 'sym' and t.args[0].startswith('%var:') else None


def kvs(t):
    return {sval(x.args[0]) if sval(x.args[0]) is not None else show(x.args[0], 2): x.args[1] for x in t.args if isinstance(x, T) and x.op == 'kv'}


def mapping(**kw):
    return T('dict', NONE, *[T('kv', C(k), v) for k, v in kw.items()])


class Spatial(Interp):
    """an expression that fails ends the path"""
    raised = None

    def fail(self, name):
        self.raised = name
        raise PathRaises(name)

    def unpack(self, v, elts, st):
        c = self.rd(v, st)
        if c.op in ('list', 'tuple') and len(c.args) != len(elts) and not any(isinstance(e, ast.Starred) for e in elts):
            self.fail('ValueError')
        return super().unpack(v, elts, st)

    def index(self, b, i, st):
        c = self.rd(b, st)
        if c.op == 'obj' and c.args[0] in ('%file', '%new'):
            table = self.rd({k.args[0]: k.args[1] for k in c.args[1:]}['variables'], st)
            i = self.rd(i, st)
            for kv in table.args[1:]:
                if kv.args[0] is i:
                    return kv.args[1]
            groups = {k.args[0]: k.args[1] for k in c.args[1:]}.get('groups')
            if groups is not None:
                return self.index(groups, i, st)
            self.fail('KeyError')
        if c.op == 'dict' and c.args[0] is NONE and i.op == 'c' and not any(kv.args[0] is i for kv in c.args[1:]):
            self.fail('KeyError')
        return super().index(b, i, st)


    def compare(self, op, a, b, st=None):
        if op == 'in' and b.op == 'obj' and b.args[0] in ('%file', '%new'):
            return self.compare(op, a, self.rd({k.args[0]: k.args[1] for k in b.args[1:]}['variables'], st), st)
        return super().compare(op, a, b, st)

    def arith(self, op, a, b, st):
        x, y = consts(self.rd(a, st)), consts(self.rd(b, st))
        if x is not None and y is not None and op in ('sub', 'band', 'bor'):
            keep = [z for z in x if (z in y) == (op == 'band')] if op != 'bor' else x + [z for z in y if z not in x]
            return T('constants', *keep)
        return super().arith(op, a, b, st)


def consts(t):
    """elements of a set"""
    return list(t.args) if t.op == 'constants' else None


CAUGHT = {'ValueError': {'ValueError'}, 'KeyError': {'KeyError', 'LookupError'}, 'AttributeError': {'AttributeError'}, 'IndexError': {'IndexError', 'LookupError'}}


class Model:
    """files which are read: variables with attributes; files which are written"""
    def __init__(self, attrs=None, root=None, group=None, shapes=None, existing=()):
        self.attrs, self.root, self.group, self.shapes, self.existing = attrs or {}, root or {}, group, shapes or {}, existing
        self.opened, self.events = [], []
        self.top = None

    def __call__(self, I, f, args, kws, st, node):
        if f.op == 'exc':
            if I.definite and I.raised is not None:
                caught = {n.strip(' ()').split('.')[-1] for n in f.args[0].split(',')}
                return C(bool(caught & (CAUGHT.get(I.raised, set()) | {'Exception', 'BaseException'})))
            return FALSE
        a, k = [I.rd(x, st) for x in args], {n: I.rd(x, st) for n, x in kws.items()}
        if f.op == 'fn' and f.args[0] == M + 'case_insensitive_filename':
            return a[0] if a else k['filename']
        if f.op == 'ext':
            return self.function(I, f.args[0], a, k, st)
        if f.op == 'method':
            return self.method(I, f.args[0], f.args[1], I.rd(f.args[1], st), a, k, st)
        return None

    def path(self, t):
        while t.op == 'call' and t.args[0] in ('pathlib.Path', 'str') or t.op == 'meth' and t.args[0] in ('expanduser', 'absolute', 'resolve'):
            t = t.args[1]
        return t

    def function(self, I, n, a, k, st):
        n = re.sub(r'^osgeo\.(\w+\.)*(osr|gdal)\.', r'osgeo.\2.', n)
        if n == 'gzip.open':
            return T('unzip', self.path(a[0]))
        if n == 'io.BytesIO' and a[0].op == 'content':
            return I.alloc(st, T('obj', '%bytes', T('kv', 'content', a[0])))
        if n == 'netCDF4.Dataset':
            mode = sval(k.get('mode', a[1] if len(a) > 1 else C('r'))) or 'r'
            if mode in ('w', 'a'):
                return self.new(I, n, a[0], mode, st)
            return self.open(I, n, k['memory'] if k.get('memory', NONE) is not NONE else a[0], st)
        if n == 'h5py.File':
            mode = sval(k.get('mode', a[1] if len(a) > 1 else C('r'))) or 'r'
            if mode in ('w', 'a'):
                return self.new(I, n, a[0], mode, st)
            return self.open(I, n, a[0], st)
        if n == 'osgeo.osr.SpatialReference':
            return I.alloc(st, T('obj', '%srs', T('kv', 'source', NONE)))
        if n == 'osgeo.gdal.FileFromMemBuffer':
            self.events.append(('memory', a))
            return NONE
        if n == 'osgeo.gdal.Open':
            self.opened.append((n, a[0]))
            return S('%raster')
        if n == 'osgeo.gdal.GetDriverByName':
            return T('driver', a[0])
        if n == 'copy.deepcopy' and a and a[0].op == 'dict':
            return self.copied(I, I.deep(a[0], st), st)
        if n in ('set', 'frozenset') and a:
            x = a[0]
            x = list(x.args) if x.op in ('list', 'tuple', 'constants') else [kv.args[0] for kv in x.args[1:]] if x.op == 'dict' and x.args[0] is NONE else None
            return None if x is None or any(y.op != 'c' for y in x) else T('constants', *dict.fromkeys(x))
        if n in ('sorted', 'list') and a and a[0].op == 'constants':
            return I.alloc(st, T('list', *sorted(a[0].args, key=lambda x: str(x.args[0]))))
        if n in ('numpy.isnan', 'math.isnan') and a[0].op in ('c', 'num') and num(a[0]) is not None:
            return FALSE
        if n in ('numpy.size', 'len', 'numpy.ndim', 'numpy.shape') and a:
            s = self.shape(a[0])
            if s is None:
                return None
            if n == 'len' and not s:
                I.fail('TypeError')
            return C(len(s)) if n == 'numpy.ndim' else T('tuple', *map(C, s)) if n == 'numpy.shape' else C(s[0]) if n == 'len' else None
        return None

    def copied(self, I, t, st):
        if t.op != 'dict':
            return t
        return I.alloc(st, T('dict', NONE, *[T('kv', x.args[0], self.copied(I, x.args[1], st)) for x in t.args[1:]]))

    def shape(self, t):
        if t.op == 'call' and t.args[0] == 'numpy.atleast_3d' and len(t.args) == 2:
            x = self.shape(t.args[1])
            return None if x is None else x if len(x) == 3 else x + (1,) if len(x) == 2 else None
        while t.op == 'call' and t.args[0] in ('numpy.atleast_1d', 'numpy.asarray', 'numpy.array') and len(t.args) == 2:
            one = t.args[0] == 'numpy.atleast_1d'
            t = t.args[1]
            if one and t in self.shapes and not self.shapes[t]:
                return (1,)
        return self.shapes.get(t)

    def open(self, I, n, source, st):
        if source.op == 'obj' and source.args[0] == '%bytes':
            source = source.args[1].args[1]
        self.opened.append((n, source if source.op == 'content' else self.path(source)))
        d = I.alloc(st, mapping(**{v: var(v) for v in self.attrs}))
        none = I.alloc(st, mapping())
        at = I.alloc(st, mapping(**self.root))
        if self.group is None:
            return I.alloc(st, T('obj', '%file', T('kv', 'variables', d), T('kv', 'groups', none), T('kv', 'attrs', at)))
        g = I.alloc(st, T('obj', '%file', T('kv', 'variables', d), T('kv', 'attrs', none)))
        gs = I.alloc(st, mapping(**{self.group: g}))
        return I.alloc(st, T('obj', '%file', T('kv', 'variables', none), T('kv', 'groups', gs), T('kv', 'attrs', at)))

    def new(self, I, n, path, mode, st):
        if self.top is not None:
            raise AnalysisBroken('two files')
        names = self.existing if mode == 'a' else ()
        dims = {}
        for k in names:
            dims.update(self.existing[k][0])
        v = I.alloc(st, mapping(**{k: I.alloc(st, T('variable', C(k), T('tuple', *map(C, self.existing[k][0])), NONE, NONE)) if n == 'netCDF4.Dataset' else self.dataset(I, C(k), st) for k in names}))
        d = I.alloc(st, mapping(**{k: C(s) for k, s in dims.items()}))
        at = I.alloc(st, mapping())
        self.top = I.alloc(st, T('obj', '%new', T('kv', 'variables', v), T('kv', 'dimensions', d), T('kv', 'attrs', at)))
        self.opened.append((n, self.path(path), mode))
        self.tables = v, d, at
        return self.top

    def dataset(self, I, name, st, **kw):
        self.heaps = getattr(self, 'heaps', {})
        at = I.alloc(st, mapping())
        r = I.alloc(st, T('variable', name, at, kw.get('fillvalue', NONE), kw.get('dtype', NONE), kw.get('data', T('unwritten'))))
        return r

    def attributes(self, c):
        while c.op in ('store', 'setattr', 'fill'):
            c = c.args[0]
        return c.args[1] if c.op == 'variable' and len(c.args) == 5 else None

    def attr(self, c, name):
        if c.op == 'obj' and c.args[0] in ('%file', '%new', '%srs', '%bytes'):
            return None
        if c is S('%input') and name in ('name', 'stem', 'suffix', 'parent'):
            raise PathRaises('the name of the file may be a string')
        if c is S('%raster') and name in ('RasterXSize', 'RasterYSize', 'RasterCount'):
            return S('%' + name[6:])
        n = unvar(c)
        if n is not None and name == 'attrs':
            return mapping(**{a: att(n, a) for a in self.attrs[n]})
        if name == 'attrs':
            return self.attributes(c)
        s = self.shape(c)
        if s is not None and name in ('shape', 'ndim', 'size'):
            return T('tuple', *map(C, s)) if name == 'shape' else C(len(s)) if name == 'ndim' else None
        return None

    def method(self, I, name, ref, c, a, k, st):
        if c.op == 'unzip':
            return T('content', 'zip', c.args[0]) if name == 'read' else c if name == '__enter__' else NONE if name in ('close', '__exit__') else None
        if c is S('%input') and name == 'read':
            return T('content', 'object', c)
        if c.op == 'obj' and c.args[0] == '%bytes':
            return NONE if name in ('seek', 'close') else None
        if c.op == 'obj' and c.args[0] == '%srs':
            if name in ('ImportFromWkt', 'SetFromUserInput', 'ImportFromEPSG', 'ImportFromProj4'):
                st.heap[ref.args[0]] = T('obj', '%srs', T('kv', 'source', T('from', name, a[0])))
                return NONE
            if name.startswith('ExportTo'):
                return T('srs', name, c.args[1].args[1])
        n = unvar(c)
        if name == 'ncattrs':
            return I.alloc(st, T('list', *[C(x) for x in (self.attrs[n] if n is not None else self.root)]))
        if name == 'getncattr':
            names = self.attrs[n] if n is not None else self.root
            if sval(a[0]) not in names:
                I.fail('AttributeError')
            return att(n, sval(a[0])) if n is not None else self.root[sval(a[0])]
        if c.op == 'obj' and c.args[0] in ('%file', '%new'):
            if name in ('close', 'sync', 'flush', '__exit__'):
                return NONE
            if name == '__enter__':
                return ref
            if name in ('filepath', 'keys', 'items', 'values'):
                return S('%information')
        if c.op == 'obj' and c.args[0] == '%new':
            v, d, at = self.tables
            if name == 'createDimension':
                if any(x.args[0] is a[0] for x in I.rd(d, st).args[1:]):
                    I.fail('RuntimeError')
                st.heap[d.args[0]] = T('dict', NONE, *I.rd(d, st).args[1:], T('kv', a[0], a[1] if len(a) > 1 else k.get('size', NONE)))
                return NONE
            if name == 'createVariable':
                o = dict(zip(('varname', 'datatype', 'dimensions', 'zlib'), a), **k)
                dims = I.deep(o.get('dimensions', T('tuple')), st)
                dims = dims if dims.op in ('tuple', 'list') else T('tuple', dims)
                sizes = {x.args[0] for x in I.rd(d, st).args[1:]}
                if any(x not in sizes for x in dims.args):
                    I.fail('KeyError')
                r = I.alloc(st, T('variable', o['varname'], T('tuple', *dims.args), o.get('fill_value', NONE), o.get('datatype', NONE)))
                return self.enter(I, v, o['varname'], r, st)
            if name == 'create_dataset':
                o = dict(zip(('name', 'shape', 'dtype', 'data'), a), **k)
                return self.enter(I, v, o['name'], self.dataset(I, o['name'], st, **{x: y for x, y in o.items() if x != 'name'}), st)
            if name == 'setncattr':
                return self.enter(I, at, a[0], a[1], st)
        if name == 'setncattr' and ref.op == 'ref':
            if sval(a[0]) == '_FillValue':
                I.fail('AttributeError')
            st.heap[ref.args[0]] = T('setattr', c, sval(a[0]), a[1])
            return NONE
        if name == 'setncatts' and ref.op == 'ref' and a[0].op == 'dict':
            for kv in a[0].args[1:]:
                st.heap[ref.args[0]] = T('setattr', st.heap[ref.args[0]], sval(kv.args[0]), kv.args[1])
            return NONE
        if c is S('%raster') or any(x is S('%raster') for x in walk(c)) and name in ('ReadAsArray', 'ExportToProj4', 'ExportToWkt', 'GetNoDataValue'):
            if name == 'GetSpatialRef':
                return T('obj', '%srs', T('kv', 'source', S('%raster:wkt')))
            if name == 'GetGeoTransform':
                return T('tuple', *[S(f'%geo{i}') for i in range(6)])
            if name == 'GetRasterBand':
                return T('band', c, a[0])
            if name == 'GetNoDataValue':
                return self.nodata if c.op != 'band' or num(c.args[1]) == 1 else S('%nodata of another band')
            if name == 'ReadAsArray':
                o = dict(zip(('xoff', 'yoff', 'xsize', 'ysize'), a), **k)
                self.events.append(('read', o))
                return S('%pixels')
        if c.op == 'driver' and name == 'Create':
            self.opened.append((sval(c.args[0]) or show(c.args[0], 2), self.path(a[0]), a[1:], k))
            return S('%output')
        if c is S('%output'):
            if name == 'GetRasterBand':
                return T('band', c, a[0])
            if name not in ('FlushCache', 'close'):
                self.events.append((name, a, st.pc))
            return NONE
        if c.op == 'band':
            if c.args[0] is not S('%output'):
                return None
            self.events.append((name, c.args[1], a, st.pc))
            return NONE
        return None

    def enter(self, I, table, key, value, st):
        t = I.rd(table, st)
        st.heap[table.args[0]] = T('dict', NONE, *[x for x in t.args[1:] if x.args[0] is not key], T('kv', key, value))
        return value


def run_(ctx, q, model, **kw):
    I = Spatial(ctx.repo)
    F = Files(extra=model)
    I.on_call = F
    I.on_attr = model.attr
    v, st = I.run(ctx.repo.func(M + q), kwargs=kw)
    ctx.analysed(M + q)
    return I, v, st


def own(t):
    """copies are the values"""
    def one(x):
        if x.op == 'call' and x.args[0] in ('numpy.copy', 'numpy.array', 'numpy.asarray', 'numpy.ma.asarray', 'numpy.ma.array') and len(x.args) == 2:
            return x.args[1]
        if x.op == 'idx' and (x.args[1] is ALL or x.args[1] is T('c', Ellipsis) or x.args[1].op == 'ellipsis' or x.args[1] is T('tuple')):
            return x.args[0]
        if x.op == 'setattr' and x.args[1] in ('mask', 'data', 'fill_value') or x.op == 'attr' and x.args[0] == 'data' and unvar(x.args[1]):
            return x.args[1] if x.op == 'attr' else x
        return x
    return rewrite(t, one)


# ------------------------------------------------------------------ netCDF4 and HDF5
def files(fmt):
    """variables of a file: names of attributes"""
    odd = 'Long_Name' if fmt == 'netCDF4' else 'long_name'
    t = ('units_metadata', 'units', 'calendar', odd)
    return dict(lon=('units', 'standard_name'), lat=(), time=t, data=('description', 'descriptions', 'units', '_FillValue', '_FillValues'), X=('units',), Y=(), T=t, Z=('units', 'long_name'),
                P=('grid_mapping', 'units'), crs=('crs_wkt', 'name'))


CASES = {'default': ({}, dict(x='lon', y='lat', data='data', time='time')),
         'names': (dict(timename='T', xname='X', yname='Y', varname='Z'), dict(x='X', y='Y', data='Z', time='T')),
         'no data': (dict(varname=None), dict(x='lon', y='lat', time='time')),
         'no time': (dict(timename=None), dict(x='lon', y='lat', data='data')),
         'projection': (dict(varname='P'), dict(x='lon', y='lat', data='P', time='time')),
         'mapping': (dict(field_mapping=dict(time='T', y='lat', data='data', x='X')), dict(x='X', y='lat', data='data', time='T')),
         'mapping without data': (dict(field_mapping=dict(x='X', y='Y', other='Z')), dict(x='X', y='Y', other='Z')),
         'group': (dict(group='G'), dict(x='lon', y='lat', data='data', time='time')),
         'group projection': (dict(group='G', varname='P'), dict(x='lon', y='lat', data='P', time='time'))}


def const(x):
    return NONE if x is None else mapping(**{k: C(v) for k, v in x.items()}) if isinstance(x, dict) else C(x)


def read(ctx, fmt, case, compression, root):
    q = 'from_' + fmt
    given, want = CASES[case]
    at = files(fmt)
    m = Model(at, {k: att('', k) for k in root}, given.get('group'))
    name = S('%input')
    I, v, st = run_(ctx, q, m, filename=name, **{k: const(x) for k, x in given.items()}, **({} if compression is None else dict(compression=C(compression))))
    w = where(ctx, M + q)
    key = f'{q}:{case}' + (f':{compression}' if compression else '')
    src = {None: name, 'gzip': T('content', 'zip', name), 'bytes': T('content', 'object', name) if fmt == 'netCDF4' else name}[compression]
    lib = {'netCDF4': 'netCDF4.Dataset', 'HDF5': 'h5py.File'}[fmt]
    got = [(a, b) for a, b, *_ in m.opened]
    ctx.ob('source', key, got in ([(lib, src)], [(lib, T('content', 'object', name))] if compression == 'bytes' else None), f'opens {[(a, show(b, 3)) for a, b in got]}', w)
    if v is None:
        ctx.ob('read', key, False, 'raises ' + str(I.raised), w)
        return
    d = kvs(own(I.deep(v, st)))
    A = kvs(d.pop('attributes', T('dict', NONE)))
    ctx.ob('read', key + ':variables', sorted(d) == sorted(want), f'variables {sorted(d)}', w)
    nf = NF()
    for k, n in sorted(want.items()):
        if k not in d:
            continue
        if k == 'data' and '_FillValue' in at[n]:
            fv, x = att(n, '_FillValue'), var(n)
            mask = T('ite', T('call', 'numpy.isnan', fv), T('call', 'numpy.isnan', x), T('cmp', '==', x, fv))
            same_mask(ctx, f'{key}:{k}:mask', own(mask_of(d[k])), mask, w)
            compare(ctx, 'read', f'{key}:{k}', own(data_of(d[k])), x, nf, w)
            compare(ctx, 'read', f'{key}:{k}:fill', getattr_term(d[k], 'fill_value'), fv, nf, w)
        else:
            compare(ctx, 'read', f'{key}:{k}', d[k], var(n), nf, w)
        have = kvs(A[k]) if k in A else {}
        for a in READ:
            src = [x for x in at[n] if x == a or fmt == 'netCDF4' and x.lower() == a.lower()]
            ctx.ob('attribute', f'{key}:{k}:{a}', have.get(a) is (att(n, src[0]) if src else None), f'{show(have[a], 3) if a in have else "missing"}', w)
    mapped = 'grid_mapping' in at.get(want.get('data'), ())
    for a in ('title', 'description', 'projection'):
        e = att('', a) if a in root else None
        if mapped and a == 'projection':
            e = T('srs', 'ExportToProj4', T('from', 'ImportFromWkt', att('crs', 'crs_wkt')))
        ctx.ob('attribute', f'{key}:{a}', A.get(a) is e, f'{show(A[a], 3) if a in A else "missing"}', w)
    if mapped:
        c = kvs(A['crs']) if 'crs' in A else {}
        for a in at['crs']:
            ctx.ob('attribute', f'{key}:crs:{a}', c.get(a) is att('crs', a), f'{show(c[a], 3) if a in c else "missing"}', w)


def same_mask(ctx, key, got, want, w, rule='read'):
    def one(x):
        return T('ite', x, TRUE, FALSE) if x.op in ('cmp', 'call') else x
    compare_cases(ctx, rule, key, got if got.op == 'ite' else T('ite', got, TRUE, FALSE), T('ite', want.args[0], one(want.args[1]), one(want.args[2])), NF(), w)


# ------------------------------------------------------------------ geotiff
GEO = [S(f'%geo{i}') for i in range(6)]


def raster(ctx, compression, bounds, nodata):
    q = 'from_geotiff'
    key = f'{q}:{compression}:{"bounds" if bounds else "all"}:{nodata}'
    w = where(ctx, M + q)
    m = Model()
    m.nodata = {'none': NONE, 'zero': C(0), 'value': S('%nodata')}[nodata]
    B = [S(k) for k in ('left', 'right', 'lower', 'upper')]
    kw = dict(filename=S('%input'))
    if compression:
        kw['compression'] = C(compression)
    if bounds:
        kw['bounds'] = T('list', *B)
    I, v, st = run_(ctx, q, m, **kw)
    if v is None:
        ctx.ob('raster', key, False, 'raises ' + str(I.raised), w)
        return
    names = [show(x[1], 6) for x in m.opened]
    mem = [e for e in m.events if e[0] == 'memory']
    ok = len(m.opened) == 1
    if ok and compression == 'bytes':
        ok = len(mem) == 1 and mem[0][1][0] is m.opened[0][1] and mem[0][1][1] is T('content', 'object', S('%input'))
    elif ok:
        ok = S('%input') in set(walk(m.opened[0][1])) and ('/vsigzip/' in names[0]) == (compression == 'gzip')
    ctx.ob('source', key, ok, f'opens {names}', w)
    d = kvs(number(own(I.deep(v, st))))
    A = kvs(d.get('attributes', T('dict', NONE)))
    dx, dy = GEO[1], GEO[5]
    line = lambda a, b, n: value(ctx, 'spec.spatial.columns', kwargs=dict(origin=a, step=b, size=n))
    x, y = line(GEO[0], dx, S('%XSize')), line(GEO[3], dy, S('%YSize'))
    reads = [e[1] for e in m.events if e[0] == 'read']
    nf = NF()
    half = lambda t: T('div', t, C(2))
    add = lambda a, b: T('add', a, b)
    if bounds:
        win = value(ctx, 'spec.spatial.window', kwargs=dict(left=B[0], right=B[1], lower=B[2], upper=B[3], xmin=GEO[0], ymax=GEO[3], dx=dx, dy=dy)).args
        ctx.ob('raster', key + ':reads', len(reads) == 1 and set(reads[0]) == {'xoff', 'yoff', 'xsize', 'ysize'}, f'{len(reads)} windows', w)
        if len(reads) == 1:
            for k, e in zip(('xoff', 'yoff', 'xsize', 'ysize'), win):
                if k in reads[0]:
                    compare(ctx, 'raster', f'{key}:{k}', reads[0][k], e, nf, w)
        part = lambda t, k: T('idx', t, T('slice', win[k], add(win[k], win[k + 2]), NONE))
        full = x, y
        x, y = part(x, 0), part(y, 1)
        for k, e, z in (('x', x, full[0]), ('y', y, full[1])):
            g = d.setdefault(k, NONE)
            while g.op == 'call' and len(g.args) == 2:
                g = g.args[1]
            if g.op == 'idx' and g.args[1].op == 'slice':
                compare(ctx, 'raster', f'{key}:{k}', g.args[0], z, nf, w)
                for j, n in enumerate(('start', 'stop')):
                    compare(ctx, 'raster', f'{key}:{k}:{n}', g.args[1].args[j], e.args[1].args[j], nf, w)
            else:
                compare(ctx, 'raster', f'{key}:{k}', g, e, nf, w)
        low = lambda t, s: T('sub', T('call', 'numpy.min', t), half(s))
        high = lambda t, s: T('sub', T('call', 'numpy.max', t), half(s))
        extent = low(d['x'], dx), high(d['x'], dx), low(d['y'], dy), high(d['y'], dy)
    else:
        ctx.ob('raster', key + ':reads', len(reads) == 1 and not reads[0], f'{len(reads)} windows', w)
        for k, e in (('x', x), ('y', y)):
            compare(ctx, 'raster', f'{key}:{k}', d.setdefault(k, NONE), e, nf, w)
        extent = (GEO[0], add(GEO[0], T('mul', T('sub', S('%XSize'), C(1)), dx)), add(GEO[3], T('mul', T('sub', S('%YSize'), C(1)), dy)), GEO[3])
    ext = A.get('extent', NONE)
    ok = ext.op in ('tuple', 'list') and len(ext.args) == 4
    ctx.ob('raster', key + ':extent', ok, show(ext, 3), w)
    for n, a, b in zip(('xmin', 'xmax', 'ymin', 'ymax'), ext.args if ok else (), extent):
        compare(ctx, 'raster', f'{key}:extent:{n}', same_reduction(a), b, nf, w)
    sp = A.get('spacing', NONE)
    ctx.ob('raster', key + ':spacing', sp.op in ('tuple', 'list') and tuple(sp.args) == (dx, dy), show(sp, 3), w)
    for k, n in (('projection', 'ExportToProj4'), ('wkt', 'ExportToWkt')):
        ctx.ob('raster', f'{key}:{k}', A.get(k) is T('srs', n, S('%raster:wkt')), show(A[k], 3) if k in A else 'missing', w)
    P = S('%pixels')
    t = d.get('time', NONE)
    ctx.ob('raster', key + ':time', t.op == 'call' and t.args[0] == 'numpy.zeros' and t.args[1] is S('%Count'), show(t, 3), w)
    d.setdefault('data', NONE)
    compare(ctx, 'raster', key + ':data', own(data_of(d['data'])), P, nf, w)
    mask = own(mask_of(d['data']))
    fv = m.nodata
    if nodata == 'none':
        compare(ctx, 'raster', key + ':mask', zero(mask), C(0), nf, w)
        ctx.ob('raster', key + ':fill', '_FillValue' not in (kvs(A['data']) if 'data' in A else {}), 'fill value', w)
    else:
        want = T('cmp', '==', P, fv) if nodata == 'zero' else T('ite', T('call', 'numpy.isnan', fv), T('call', 'numpy.isnan', P), T('cmp', '==', P, fv))
        flag = lambda t: t if t.op == 'ite' else T('ite', t, TRUE, FALSE)
        mask = whole(mask)
        compare_cases(ctx, 'raster', key + ':mask', T('ite', mask.args[0], *map(flag, mask.args[1:])) if mask.op == 'ite' else flag(mask),
                      T('ite', want.args[0], *map(flag, want.args[1:])) if want.op == 'ite' else flag(want), nf, w)
        f = kvs(A['data']).get('_FillValue') if 'data' in A else None
        compare(ctx, 'raster', key + ':fill', f if f is not None else NONE, fv, nf, w)
        compare(ctx, 'raster', key + ':fill_value', getattr_term(d['data'], 'fill_value'), fv, nf, w)


def same_reduction(t):
    return rewrite(t, lambda x: T('call', 'numpy.' + x.args[0], x.args[1]) if x.op == 'meth' and x.args[0] in ('min', 'max') and len(x.args) == 2 else x)


def whole(t):
    """an array of which every element is set"""
    while t.op == 'store' and t.args[1] is ALL:
        t = t.args[2]
    return t


def number(t):
    """the value of pixels without data is given, and not zero"""
    def one(x):
        n = S('%nodata')
        if x.op == 'cmp' and x.args[0] == 'is' and n in x.args[1:] and NONE in x.args[1:]:
            return FALSE
        if x.op == 'ite':
            c = x.args[0]
            k = True if c is n or c.op in ('truth', 'bool') and c.args[0] is n else c.args[0] if c.op == 'c' else None
            if k is not None:
                return x.args[1] if k else x.args[2]
        if x.op == 'not' and x.args[0] in (TRUE, FALSE):
            return C(x.args[0] is FALSE)
        return x
    return rewrite(t, one)


def zero(t):
    return C(0) if t is FALSE or t.op == 'call' and t.args[0] in ('numpy.zeros_like', 'numpy.zeros') or t.op == 'c' and not t.args[0] else t


# ------------------------------------------------------------------ writers
def content(I, st, table):
    """variables of a file: name -> (dimensions or attributes, fill value, type, data, attributes)"""
    out = {}
    for kv in I.rd(table, st).args[1:]:
        t, at, data = own(I.deep(kv.args[1], st)), {}, None
        while t.op != 'variable':
            if t.op == 'setattr':
                at.setdefault(t.args[1], t.args[2])
            elif t.op in ('fill', 'store'):
                if t.op == 'store' and t.args[1].op not in ('slice', 'ellipsis', 'c', 'tuple'):
                    raise AnalysisBroken('part of a variable: ' + show(t, 3))
                data = t.args[-1] if data is None else data
            else:
                raise AnalysisBroken('variable: ' + show(t, 3))
            t = t.args[0]
        name, second, fill, dtype = t.args[:4]
        if len(t.args) == 5:
            data = t.args[4] if data is None else data
            at, second = kvs(second), None
        out[sval(kv.args[0])] = (None if second is None else tuple(sval(x) for x in second.args), fill, dtype, data, at)
    return out


LAYOUTS = {'drift': ('drift', dict(time=('time',), lon=('time',), lat=('time',), tide=('time',), note=('time',), k=()), dict(time=3)),
           'one point': ('drift', dict(time=('time',), lon=('time',), lat=('time',), tide=('time',)), dict(time=1)),
           'grid': ('grid', dict(time=('time',), y=('y',), x=('x',), tide=('y', 'x', 'time'), u=('y', 'x', 'time'), note=('y', 'x'), k=(), row=('y',), column=('x',), epoch=('time',)), dict(y=2, x=3, time=5)),
           'cube': ('grid', dict(time=('time',), y=('y',), x=('x',), tide=('y', 'x', 'time')), dict(y=4, x=4, time=4)),
           'sphere': ('grid', dict(lat=('y',), lon=('x',), time=('time',), tide=('y', 'x', 'time')), dict(y=4, x=4, time=2)),
           'stations': ('time series', dict(time=('time',), lon=('station',), lat=('station',), tide=('station', 'time'), u=('station', 'time'), k=(), name=('station',), epoch=('time',)), dict(station=2, time=5)),
           'as many stations': ('time series', dict(time=('time',), lon=('station',), lat=('station',), tide=('station', 'time')), dict(station=3, time=3))}


def attributes(names, fills):
    """attributes of the variables which are written"""
    out = {}
    for n in names:
        out[n] = {'units': S(f'%{n}:units'), 'long_name': S(f'%{n}:name')} if n not in ('k', 'note') else {}
        if n in fills:
            out[n]['_FillValue'] = S(f'%{n}:fill')
    return out


def write(ctx, fmt, layout, mode):
    q = 'to_' + fmt
    w = where(ctx, M + q)
    key = f'{q}:{layout}:{mode}'
    kind, dims, sizes = LAYOUTS[layout]
    x = {n: S('%' + n) for n in dims}
    m = Model(shapes={x[n]: tuple(sizes[d] for d in ds) for n, ds in dims.items()}, existing={n: ({d: sizes[d] for d in ds} if fmt == 'netCDF4' else None) for n, ds in dims.items() if n != 'u'} if mode == 'a' else ())
    if fmt == 'HDF5' and mode == 'a':
        m.existing = {n: ((), ) for n in m.existing}
    elif mode == 'a':
        m.existing = {n: (v,) for n, v in m.existing.items()}
    at = attributes(dims, ('tide',))
    kw = dict(filename=S('%path'), output=mapping(**x), attributes=mapping(ROOT=mapping(note=S('%root')), **{n: mapping(**a) for n, a in at.items()}))
    if mode != 'w':
        kw['mode'] = C(mode)
    if fmt == 'netCDF4' and kind != 'drift':
        kw['data_type'] = C(kind)
    I, v, st = run_(ctx, q, m, **kw)
    lib = {'netCDF4': 'netCDF4.Dataset', 'HDF5': 'h5py.File'}[fmt]
    ctx.ob('source', key, m.opened == [(lib, S('%path'), mode)], f'writes {[(a, show(b, 3), c) for a, b, c in m.opened]}', w)
    if v is None or m.top is None:
        ctx.ob('write', key, False, f'raises {I.raised}', w)
        return
    got = content(I, st, m.tables[0])
    ctx.ob('write', key + ':variables', sorted(got) == sorted(dims), f'variables {sorted(got)}', w)
    if fmt == 'netCDF4':
        have = {sval(kv.args[0]): kv.args[1] for kv in I.deep(m.tables[1], st).args[1:]}
        have = {n: num(t) for n, t in have.items()}
        ctx.ob('write', key + ':dimensions', have == {n: s for n, s in sizes.items()}, f'dimensions {have}', w)
    for n, ds in dims.items():
        if n not in got:
            continue
        d, fill, dtype, data, a = got[n]
        old = mode == 'a' and n != 'u'
        if fmt == 'netCDF4':
            ctx.ob('write', f'{key}:{n}:dimensions', d == ds, f'{d} where {ds} is required', w)
        ctx.ob('write', f'{key}:{n}:values', data is x[n], f'{show(data, 4) if data is not None else "nothing"}', w)
        if not old:
            ctx.ob('write', f'{key}:{n}:type', dtype is getattr_term(x[n], 'dtype'), show(dtype, 3), w)
            ctx.ob('write', f'{key}:{n}:fill', fill is at[n].get('_FillValue', NONE), show(fill, 3), w)
        for k, e in at[n].items():
            if k != '_FillValue' or fmt == 'HDF5':
                ctx.ob('written', f'{key}:{n}:{k}', a.get(k) is e, show(a[k], 3) if k in a else 'missing', w)
    top = kvs(I.deep(m.top, st)) if False else {kv.args[0]: kv.args[1] for kv in I.rd(m.top, st).args[1:]}
    top.update(kvs(I.deep(m.tables[2], st)))
    ctx.ob('written', key + ':note', top.get('note') is S('%root'), 'attribute of the file', w)


def write_raster(ctx, bands, driver, fill):
    q = 'to_geotiff'
    w = where(ctx, M + q)
    key = f'{q}:{bands}:{driver}:{fill}'
    z = S('%z')
    m = Model(shapes={z: (2, 3) if bands == 0 else (2, 3, bands)})
    at = dict(z=mapping(**({'_FillValue': S('%fill')} if fill else {})), extent=T('tuple', *[S(k) for k in ('left', 'right', 'lower', 'upper')]), spacing=T('tuple', S('dx'), S('dy')), wkt=S('%wkt'))
    kw = dict(filename=S('%path'), output=mapping(z=z), attributes=mapping(**at), varname=C('z'))
    if driver != 'cog':
        kw['driver'] = C(driver)
    I, v, st = run_(ctx, q, m, **kw)
    if v is None or len(m.opened) != 1:
        ctx.ob('raster written', key, False, f'raises {I.raised}; {len(m.opened)} files', w)
        return
    d, path, a, k = m.opened[0]
    a = [num(x) for x in a[:3]]
    ctx.ob('raster written', key + ':file', d == driver and path is S('%path') and a == [3, 2, bands or 1], f'{d} {show(path, 3)} of size {a}', w)
    ev = {}
    for e in m.events:
        ev.setdefault(e[0], []).append(e[1:])
    g = ev.get('SetGeoTransform', [])
    g = I.deep(g[0][0][0], st) if len(g) == 1 else T('list')
    want = [S('left'), S('dx'), C(0), S('upper'), C(0), S('dy')]
    ok = len(g.args) == 6 and all(p is q_ or num(p) is not None and num(p) == num(q_) for p, q_ in zip(g.args, want))
    ctx.ob('raster written', key + ':geometry', ok, show(g, 3), w)
    p = ev.get('SetProjection', []) + ev.get('SetSpatialRef', [])
    p = I.deep(p[0][0][0], st) if len(p) == 1 else NONE
    ok = p in (T('srs', 'ExportToWkt', T('from', 'ImportFromWkt', S('%wkt'))), S('%wkt')) or p.op == 'obj' and p.args[1].args[1] is T('from', 'ImportFromWkt', S('%wkt'))
    ctx.ob('raster written', key + ':projection', ok, show(p, 5), w)
    none = {num(b): x[0] for b, x, _ in ev.get('SetNoDataValue', [])}
    need = {b + 1: S('%fill') for b in range(bands or 1)} if fill else {}
    ctx.ob('raster written', key + ':fill', none == need, f'bands {sorted(map(str, none))}', w)
    arrays = ev.get('WriteArray', [])
    if any(num(b) is None for b, *_ in arrays):
        raise AnalysisBroken('bands ' + show(arrays[0][0], 4))
    ctx.ob('raster written', key + ':bands', sorted(num(b) for b, *_ in arrays) == list(range(1, (bands or 1) + 1)), 'bands ' + str([show(b, 2) for b, *_ in arrays]), w)
    for b, x, _ in arrays:
        e = T('idx', z, T('tuple', ALL, ALL, C(int(num(b)) - 1))) if bands else z
        y = own(I.deep(x[0], st))
        y = rewrite(y, lambda t: t.args[1] if t.op == 'call' and t.args[0] == 'numpy.atleast_3d' and (bands or t.args[1] is not z) else t)
        if not bands and y is T('idx', T('call', 'numpy.atleast_3d', z), T('tuple', ALL, ALL, C(0))):
            y = z
        ctx.ob('raster written', f'{key}:band{show(b, 1)}', y is e, show(y, 4), w)


# ------------------------------------------------------------------ helpers
KINDS = [((1,), (1,), (1,), 'time series'), ((1,), (1,), (9,), 'time series'), ((), (), (9,), 'time series'), ((9,), (9,), (9,), 'drift'), ((4,), (5,), (1,), 'grid'), ((4,), (5,), (9,), 'grid'),
         ((4,), (5,), (4,), 'grid'), ((4,), (5,), (5,), 'grid'), ((4, 5), (4, 5), (9,), 'grid'), ((4, 5), (4, 5), (1,), 'grid'), ((9,), (1,), (9,), 'grid'), ((9,), (9,), (5,), None)]
NAMES = [('DATA.NC', ['data.nc.gz', 'xdata.nc', 'DATA.NC', 'data_nc']), ('data.Nc', ['data.nc2', 'data.Nc']), ('data.nc', ['data.nc', 'DATA.NC'])]
FORMATS = {'ascii': 'ascii', 'netCDF4': 'netCDF4', 'HDF5': 'HDF5', 'GTiff': 'geotiff', 'cog': 'geotiff', 'parquet': 'parquet'}


def helpers(ctx):
    import math
    q = M + 'data_type'
    for x, y, t, want in KINDS:
        with ctx.case(f'data_type:{x}{y}{t}'):
            shapes = {S('X'): x, S('Y'): y, S('Tm'): t}

            def sized(I, f, a, k, st, node):
                if f.op == 'ext' and f.args[0] in ('numpy.size', 'numpy.ndim', 'len', 'numpy.shape') and a and I.rd(a[0], st) in shapes:
                    s = shapes[I.rd(a[0], st)]
                    return C({'numpy.size': math.prod(s), 'numpy.ndim': len(s), 'len': s[0] if s else 1}[f.args[0]]) if f.args[0] != 'numpy.shape' else T('tuple', *map(C, s))
                return None
            v = value(ctx, q, kwargs=dict(x=S('X'), y=S('Y'), t=S('Tm')), on_call=sized,
                      on_attr=lambda c, n: None if c not in shapes else C(math.prod(shapes[c])) if n == 'size' else C(len(shapes[c])) if n == 'ndim' else T('tuple', *map(C, shapes[c])) if n == 'shape' else None)
            ctx.ob('helper', f'data_type:{x}:{y}:{t}', sval(v) == want if want else v.op == 'noreturn', f'{show(v, 3)} where {want} is required', where(ctx, q))
    q = M + 'case_insensitive_filename'
    for want, names in NAMES:
        with ctx.case(f'case_insensitive_filename:{want}'):
            F = Files(found=lambda d, p: ['/data/' + n for n in names], exists=lambda p: p in ['/data/' + n for n in names])
            I = Spatial(ctx.repo, on_call=F)
            I.on_attr = F.attribute
            v, st = I.run(ctx.repo.func(q), kwargs=dict(filename=C('/data/data.nc')))
            v = NONE if v is None else I.deep(v, st)
            ctx.ob('helper', f'case_insensitive_filename:{want}', text(v) == '/data/' + want, f'{show(v, 4)} where {want} is required', where(ctx, q))
    q = M + 'default_field_mapping'
    for n in range(5):
        with ctx.case(f'default_field_mapping:{n}'):
            I = Spatial(ctx.repo, on_call=Model())
            names = [S(k) for k in 'abcd'[:n]]

            class Short(Spatial):
                def index(self, b, i, st):
                    c = self.rd(b, st)
                    if c.op in ('list', 'tuple') and num(i) is not None and num(i) >= len(c.args):
                        self.fail('IndexError')
                    return super().index(b, i, st)
            I = Short(ctx.repo, on_call=Model())
            v, st = I.run(ctx.repo.func(q), kwargs=dict(variables=T('list', *names)))
            got = {} if v is None else kvs(I.deep(v, st))
            ctx.ob('helper', f'default_field_mapping:{n}', v is not None and got == dict(zip(('time', 'y', 'x', 'data'), names)), f'{({k: show(x, 2) for k, x in got.items()})}', where(ctx, q))
    for way in ('from', 'to'):
        q = f'{M}{way}_file'
        for f, fn in FORMATS.items():
            with ctx.case(f'{way}_file:{f}'):
                calls = []

                def called(I, g, a, k, st, node):
                    if g.op == 'fn' and g.args[0].startswith((M + 'from_', M + 'to_')) and g.args[0] != q:
                        calls.append((g.args[0][len(M):], dict(zip(ctx.repo.func(g.args[0]).params(), [I.deep(x, st) for x in a]), **{n: I.deep(x, st) for n, x in k.items()})))
                        return S('%result')
                    return None
                kw = dict(filename=S('%path'), **({} if way == 'from' else dict(output=S('%output'), attributes=S('%attributes'))))
                I = Interp(ctx.repo, on_call=called)
                v, st = I.run(ctx.repo.func(q), kwargs=dict(kw, format=C(f), some_option=S('%option')))
                got = [(n, {k: x for k, x in b.items() if k is not None}) for n, b in calls]
                ok = len(got) == 1 and got[0][0] == f'{way}_{fn}' and got[0][1] == dict(kw, some_option=S('%option')) and (way == 'to' or v is S('%result'))
                ctx.ob('helper', f'{way}_file:{f}', ok, f'{[(n, sorted(b)) for n, b in got]}', where(ctx, q))
        with ctx.case(f'{way}_file:unknown'):
            v, st = Interp(ctx.repo, on_call=lambda I, g, *r: S('%result') if g.op == 'fn' and g.args[0].startswith((M + 'from_', M + 'to_')) and g.args[0] != q else None).run(ctx.repo.func(q), kwargs=dict(format=C('unknown')))
            ctx.ob('helper', f'{way}_file:unknown', v is None or v.op == 'noreturn', 'accepted', where(ctx, q))


def run(ctx):
    ctx.rule('source', 'the file which is given is opened, and expanded when it is compressed', 20)
    ctx.rule('helper', 'kinds of data, names of files, mapping of variables and formats are recognised', 30)
    helpers(ctx)
    ctx.rule('write', 'variables are written with their values, type, fill value and dimensions', 200)
    ctx.rule('written', 'attributes are written', 200)
    for fmt in ('netCDF4', 'HDF5'):
        for layout in LAYOUTS:
            for mode in ('w', 'a'):
                with ctx.case(f'to_{fmt}:{layout}:{mode}'):
                    write(ctx, fmt, layout, mode)
    ctx.rule('raster written', 'geotiff files have the bands, geometry and fill value which are given', 40)
    for bands in (0, 1, 2):
        for driver in ('cog', 'GTiff'):
            for fill in (False, True):
                with ctx.case(f'to_geotiff:{bands}:{driver}:{fill}'):
                    write_raster(ctx, bands, driver, fill)
    ctx.rule('raster', 'pixels of geotiff files are at their centers, in the window which is given, and invalid where they have no data', 60)
    for compression, bounds, nodata in ((None, False, 'value'), (None, False, 'none'), (None, False, 'zero'), (None, True, 'value'), (None, True, 'zero'), (None, True, 'none'), ('gzip', False, 'value'), ('bytes', False, 'value'), ('gzip', True, 'value')):
        with ctx.case(f'from_geotiff:{compression}:{bounds}:{nodata}'):
            raster(ctx, compression, bounds, nodata)
    ctx.rule('read', 'variables of files have the values in the file, and are invalid where they have the fill value', 80)
    ctx.rule('attribute', 'attributes of variables and files are those in the file', 400)
    for fmt in ('netCDF4', 'HDF5'):
        for case in CASES:
            for compression in (None, 'gzip', 'bytes') if case in ('default', 'mapping') else (None,):
                with ctx.case(f'from_{fmt}:{case}:{compression}'):
                    read(ctx, fmt, case, compression, ('title', 'description', 'projection', 'projections') if case != 'names' else ('title',))
