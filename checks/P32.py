"""P32 command line programs"""
import ast
from sa.equiv import spread
from sa.interp import PathRaises, is_const
from sa.term import walk
from .common import *
from .P11 import MODES, element
from . import P11, P12

EXPLANATION = ('Static equivalence: the value number of the fields every program writes, per kind of data, time standard and source of projection and units, is compared in canonical form with the reference '
               'composition that decides the library (P11, P12), at the coordinates and times that were read; options of the command line are traced to the parameters they set.')
OPAQUE = sorted(set(P11.OPAQUE + P12.OPAQUE)) + ['pyTMD.spatial.default_field_mapping']
READERS = {'csv': 'from_ascii', 'netCDF4': 'from_netCDF4', 'HDF5': 'from_HDF5', 'GTiff': 'from_geotiff', 'cog': 'from_geotiff', 'parquet': 'from_parquet'}
WRITERS = {'csv': 'to_ascii', 'netCDF4': 'to_netCDF4', 'HDF5': 'to_HDF5', 'GTiff': 'to_geotiff', 'cog': 'to_geotiff', 'parquet': 'to_parquet'}
X, Y, TIME_ = S('x'), S('y'), S('%time')
VARIABLE = 'variable of the model'
PROGRAMS = {'tidal_elevations': ('tide_elevations', VARIABLE), 'tidal_currents': ('tide_currents', 'component'), 'LPET_elevations': ('LPET_elevations', 'tide_lpe'),
            'LPT_displacements': ('LPT_displacements', 'tide_pole'), 'OPT_displacements': ('OPT_displacements', 'tide_oc_pole'), 'SET_displacements': ('SET_displacements', 'tide_earth')}
S_ = 'pyTMD.spatial.'
# symbols of the library which the parameters of the programs stand for
LIKE = dict(TIDE_MODEL='MODEL', tide_dir='DIRECTORY')


class Program(Interp):
    """a program: a mapping without an entry raises"""
    raised = unreadable = None

    def opaque_call(self, fn, args, kws, starkw, st):
        if fn.qual == 'pyTMD.crs.crs.from_input' and self.unreadable is not None and any(x is self.unreadable for x in [*args, *kws.values()]):
            self.raised = 'CRSError'
            raise PathRaises('CRSError')
        return super().opaque_call(fn, args, kws, starkw, st)

    def index(self, b, i, st):
        c = self.rd(b, st)
        if c.op == 'dict' and c.args[0] is NONE and is_const(i) and not any(kv.args[0] is i for kv in c.args[1:]):
            self.raised = 'KeyError'
            raise PathRaises('KeyError')
        return super().index(b, i, st)


class Run:
    """what a program reads and writes"""
    def __init__(self, attributes):
        self.reads, self.writes, self.attributes = [], [], attributes

    def __call__(self, I, f, a, k, st, node):
        if f.op == 'exc':
            if I.definite and I.raised is not None:
                caught = {n.strip(' ()').split('.')[-1] for n in f.args[0].split(',')}
                return C(bool(caught & ({'Exception', 'BaseException', I.raised} | ({'LookupError'} if I.raised == 'KeyError' else {'RuntimeError'}))))
            return FALSE
        if f.op != 'fn' or not f.args[0].startswith('pyTMD.'):
            return None
        n = f.args[0][len(S_):] if f.args[0].startswith(S_) else None
        a, k = [I.deep(x, st) for x in a], {q: I.deep(x, st) for q, x in k.items()}
        if n in READERS.values():
            self.reads.append((n, a, k))
            return I.alloc(st, T('dict', 'dict', T('kv', C('x'), X), T('kv', C('y'), Y), T('kv', C('time'), TIME_), T('kv', C('attributes'), self.attributes)))
        if n in WRITERS.values():
            self.writes.append((n, a, k, st.pc))
            return NONE
        return None


def mapping(**kw):
    return T('dict', NONE, *[T('kv', C(k), v) for k, v in kw.items()])


PROJ, UNITS = S('%projection'), S('%units')
SOURCES = {'file': (mapping(projection=PROJ, time=mapping(units=UNITS)), None, PROJ, UNITS),
           'options': (mapping(), None, S('PROJECTION'), S('TIME_UNITS')),
           'raster': (mapping(**{k: S('%raster:' + k) for k in ('projection', 'wkt', 'spacing', 'extent')}), None, S('%raster:projection'), S('TIME_UNITS')),
           'parquet': (mapping(geoparquet=S('%geo'), geometry_encoding=S('%encoding')), None, S('PROJECTION'), S('TIME_UNITS')),
           'unreadable': (mapping(projection=PROJ, time=mapping()), PROJ, S('PROJECTION'), S('TIME_UNITS'))}


def program(ctx, name, source, on_attr=None, **kw):
    q = f'scripts.compute_{name}.compute_{name}'
    fn = ctx.repo.func(q)
    r = Run(SOURCES[source][0])
    given = {p: kw[p] if p in kw else S(LIKE.get(p, p)) for p in fn.params()}
    I = Program(ctx.repo, opaque=OPAQUE, on_call=r)
    I.unreadable = SOURCES[source][1]
    I.on_attr = lambda c, n: SOURCES[source][0] if n == 'attrs' else C(VARIABLE) if n == 'variable' and 'pyTMD.io.model' in show(c, 3) else on_attr(c, n) if on_attr is not None else None
    v, st = I.run(fn, kwargs=given)
    ctx.analysed(q)
    return r, v


def series(x):
    """what a series of times has the length of"""
    while x.op in ('call', 'idx', 'attr', 'add', 'sub'):
        if x.op == 'call' and x.args[0] == 'timescale.time.convert_calendar_decimal':
            x = x.args[1]
        elif x.op == 'idx' and x.args[0].op == 'call' and x.args[0].args[0] == 'timescale.time.convert_julian' and num(x.args[1]) is not None:
            x = x.args[0].args[1]
        elif x.op in ('add', 'sub') and num(x.args[1]) is not None:
            x = x.args[0]
        elif x.op == 'attr' and x.args[0] in ('MJD', 'tide', 'tt_ut1', 'tt', 'ut1', 'year', 'T', 'day'):
            x = x.args[1]
        else:
            break
    return x


def shaped(x):
    """grid of columns and rows that has this shape"""
    if x.op == 'call' and x.args[0] == 'numpy.shape':
        x = x.args[1]
    elif x.op in ('attr', 'getattr') and 'shape' in x.args:
        x = [y for y in x.args if isinstance(y, T)][0]
    else:
        return None
    while x.op == 'idx' and num(x.args[1]) is not None:
        x = x.args[0]
        if x.op == 'call' and x.args[0] == 'numpy.meshgrid':
            return x
        if x.op == 'meth' and x.args[0] == 'transform':
            x = x.args[2]
    return None


def fold(t):
    """coordinates of a grid are its columns and rows"""
    def one(x):
        o, a = x.op, x.args
        if o == 'call' and a[0] in ('numpy.copy', 'numpy.array', 'numpy.asarray') and len(a) == 2:
            return a[1]
        if o == 'len':
            return T('len', series(a[0]))
        if o == 'cmp' and all(isinstance(y, T) and y.op == 'call' and y.args[0] in ('numpy.size', 'len') for y in a[1:]):
            return FALSE
        if o == 'not' and a[0] in (TRUE, FALSE):
            return C(a[0] is FALSE)
        if o == 'ite' and a[0] in (TRUE, FALSE):
            return a[1] if a[0] is TRUE else a[2]
        if o == 'idx' and num(a[1]) is not None:
            m = shaped(a[0])
            if m is not None:
                return T('len', m.args[2 - int(num(a[1])) % 2])
        return x
    return rewrite(t, one)


def reference(ctx, ref, TYPE, TIME, source, time=TIME_, on_attr=None, **kw):
    fn = ctx.repo.func('spec.compute.' + ref)
    q = T('call', 'timescale.time.parse_date_string', SOURCES[source][3])
    t = T('call', 'numpy.ravel', time)
    given = dict(x=X, y=Y, delta_time=t if TIME == 'datetime' else T('mul', T('idx', q, C(1)), t), EPOCH=T('idx', q, C(0)), EPSG=SOURCES[source][2],
                 TYPE=C(TYPE), TIME=C(TIME), BOUNDS=NONE, FILL_VALUE=S('FILL_VALUE'), **kw)
    given = {k: v for k, v in given.items() if k in fn.params()}
    v = fold(spread(value(ctx, 'spec.compute.' + ref, kwargs=given, opaque=OPAQUE, on_attr=on_attr)))
    return rewrite(v, lambda x: T(x.op, *[y for y in x.args if y is not T('kw', 'bounds', NONE)]) if x.op in ('call', 'meth') else x)


# options of the programs: parameter, value when the option is left out
LEFT = '(left out)'
OPTIONS = {'--format': ('FORMAT', 'csv'), '--variables': ('VARIABLES', ('time', 'lat', 'lon', 'data')), '--header': ('HEADER', 0), '--delimiter': ('DELIMITER', ','), '--type': ('TYPE', 'drift'),
           '--epoch': ('TIME_UNITS', 'days since 1858-11-17T00:00:00'), '--deltatime': ('TIME', None), '--standard': ('TIME_STANDARD', 'UTC'), '--projection': ('PROJECTION', '4326'),
           '--fill-value': ('FILL_VALUE', -9999.0), '--mode': ('MODE', 0o775)}
TIDE = {'--tide': ('TIDE_MODEL', None), '--gzip': ('GZIP', False), '--definition-file': ('DEFINITION_FILE', None), '--crop': ('CROP', False), '--buffer': ('BUFFER', None), '--interpolate': ('METHOD', 'spline'),
        '--extrapolate': ('EXTRAPOLATE', False), '--cutoff': ('CUTOFF', 10.0), '--nodal-corrections': ('CORRECTIONS', None), '--infer-minor': ('INFER_MINOR', False),
        '--minor-constituents': ('MINOR_CONSTITUENTS', None)}
EXTRA = {'tidal_elevations': dict(TIDE, **{'--append-node': ('APPEND_NODE', False), '--apply-flexure': ('APPLY_FLEXURE', False)}), 'tidal_currents': TIDE, 'LPET_elevations': {},
         'LPT_displacements': {'--ellipsoid': ('ELLIPSOID', 'WGS84'), '--convention': ('CONVENTION', '2018')},
         'OPT_displacements': {'--ellipsoid': ('ELLIPSOID', 'WGS84'), '--convention': ('CONVENTION', '2018'), '--interpolate': ('METHOD', 'spline')},
         'SET_displacements': {'--ellipsoid': ('ELLIPSOID', 'WGS84'), '--tide-system': ('TIDE_SYSTEM', 'tide_free'), '--ephemerides': ('EPHEMERIDES', 'approximate')}}
NUMBERS = {'--header': 'int', '--buffer': 'float', '--deltatime': 'float', '--cutoff': 'float', '--fill-value': 'float'}
UNITS_OF = {'u': 'cm/s', 'v': 'cm/s'}


def command_line(ctx, name):
    """options the program has (name, arguments of its definition) and parameters the program is run with"""
    m = f'scripts.compute_{name}.'
    given, ran = {}, []

    def define(I, f, a, k, st, node):
        if f.op == 'method' and f.args[0] == 'add_argument' or f.op == 'ext' and f.args[0].endswith('.add_argument'):
            x = [sval(I.rd(y, st)) for y in a]
            long = [y for y in x if y is not None and y.startswith('--')]
            given[(long or x)[0]] = ({q: I.deep(v, st) for q, v in k.items()}, node)
            return NONE
        return None

    def main(I, f, a, k, st, node):
        if f.op == 'exc':
            return FALSE
        if f.op == 'fn' and f.args[0] == m + 'arguments':
            return S('%parser')
        if f.op == 'method' and f.args[0] in ('parse_known_args', 'parse_args'):
            return T('tuple', S('%args'), S('%rest')) if 'known' in f.args[0] else S('%args')
        if f.op == 'fn' and f.args[0] == f'{m}compute_{name}':
            names = ctx.repo.func(f.args[0]).params()
            ran.append(dict(zip(names, [I.deep(x, st) for x in a]), **{q: I.deep(v, st) for q, v in k.items()}))
            return NONE
        return None
    Interp(ctx.repo, opaque=OPAQUE, on_call=define).run(ctx.repo.func(m + 'arguments'))
    I = Interp(ctx.repo, opaque=OPAQUE, on_call=main)
    I.on_attr = lambda c, n: S('%args.' + n) if n != 'outfile' and parsed(c) else None
    I.run(ctx.repo.func(m + 'main'))
    return given, ran


def parsed(c):
    """arguments of the command line, of which some may have been set"""
    while c.op in ('ite', 'setattr'):
        if c.op == 'ite' and not parsed(c.args[2]):
            return False
        c = c.args[1] if c.op == 'ite' else c.args[0]
    return c is S('%args')


def const_of(t):
    if t is None:
        return None
    if t.op in ('tuple', 'list'):
        return tuple(const_of(x) for x in t.args)
    return t.args[0] if t.op == 'c' else None if t is NONE else float(num(t)) if num(t) is not None else show(t)


def options(ctx, name):
    q = f'scripts.compute_{name}.main'
    given, ran = command_line(ctx, name)
    ctx.analysed(q)
    if len(ran) != 1:
        ctx.ob('option', name, False, f'the program is run {len(ran)} times', where(ctx, q))
        return
    table = dict(OPTIONS, **EXTRA[name])
    d = f'scripts.compute_{name}.arguments'
    for flag, (p, default) in sorted(table.items()):
        if flag not in given:
            ctx.ob('option', f'{name}:{flag}', False, 'the program has no such option', where(ctx, d))
            continue
        kw, node = given[flag]
        dest = sval(kw['dest']) if 'dest' in kw else flag[2:].replace('-', '_')
        got = ran[0].get(p)
        ctx.ob('option', f'{name}:{flag}', got is not None and got is S('%args.' + dest), f'{p} is {show(got, 4) if got is not None else "not given"} instead of the option', where(ctx, q))
        action = sval(kw['action']) if 'action' in kw else None
        left = const_of(kw['default']) if 'default' in kw else {'store_true': False, 'store_false': True}.get(action)
        same = left == default and (isinstance(left, bool) == isinstance(default, bool)) and (action == 'store_true') == (default is False)
        ctx.ob('option', f'{name}:{flag}:default', same, f'left out, the option is {left!r} (action {action}), documented {default!r}', where(ctx, d))
        if flag in NUMBERS:
            t = show(kw['type'], 6) if 'type' in kw else 'str'
            ctx.ob('option', f'{name}:{flag}:type', NUMBERS[flag] in t, f'the option is read as {t}', where(ctx, d))
    for p in ('input_file', 'output_file') + (('tide_dir',) if 'tide_dir' in ctx.repo.func(f'scripts.compute_{name}.compute_{name}').params() else ()):
        got = ran[0].get(p)
        want = {'input_file': 'infile', 'output_file': 'outfile', 'tide_dir': 'directory'}[p]
        if p == 'output_file':
            own = getattr_term(S('%args'), want)
            ok = got is not None and named(got, own, True) is own and any(x is S('%args.infile') for x in walk(named(got, own, False)))
        else:
            ok = got is S('%args.' + want)
        ctx.ob('option', f'{name}:{p}', ok, f'{p} is {show(got, 4) if got is not None else "not given"}', where(ctx, q))


def named(t, own, given):
    """name of the output, when the option for it is given or not"""
    def true(c):
        if c is own or c.op in ('truth', 'bool') and c.args[0] is own:
            return given
        if c.op == 'not':
            return not true(c.args[0])
        if c.op == 'cmp' and c.args[0] in ('is', '==', 'is not', '!=') and own in c.args[1:] and NONE in c.args[1:]:
            return given == (c.args[0] in ('is not', '!='))
        raise AnalysisBroken(f'condition {show(c, 4)} of the name of the output')
    while t is not own:
        if t.op == 'ite':
            t = t.args[1] if true(t.args[0]) else t.args[2]
        elif t.op in ('attr', 'getattr') and 'outfile' in t.args:
            b = [x for x in t.args if isinstance(x, T)][0]
            if b.op == 'ite':
                t = getattr_term(b.args[1] if true(b.args[0]) else b.args[2], 'outfile')
            elif b.op == 'setattr':
                t = b.args[2] if b.args[1] == 'outfile' else getattr_term(b.args[0], 'outfile')
            else:
                break
        else:
            break
    return t


def formats(ctx, name):
    q = f'scripts.compute_{name}.compute_{name}'
    names = ['u', 'v'] if name == 'tidal_currents' else None
    for FORMAT in READERS:
        for TIME in ('UTC', 'datetime'):
            key = f'{name}:{FORMAT}:{TIME}'
            with ctx.case(key):
                # names of columns are in the order of the file: the default ones, and those of the library
                columns, fields_of = (('time', 'lat', 'lon', 'data'), ('time', 'y', 'x', 'data')) if TIME == 'UTC' else (('x', 'data', 'y', 'time'),)*2
                given = T('list', *[C(c) for c in columns]) if FORMAT == 'csv' else S('VARIABLES')
                r, v = program(ctx, name, 'parquet' if FORMAT == 'parquet' else 'raster' if FORMAT in ('GTiff', 'cog') else 'options', on_attr=TWO if names else None, TYPE=C('drift'), TIME_STANDARD=C(TIME),
                               FORMAT=C(FORMAT), TIME=NONE, VARIABLES=given)
                reads = [(n, bound(ctx, n, a, k)) for n, a, k in r.reads]
                want = dict(filename=S('input_file'))
                if FORMAT == 'csv':
                    want.update(columns=T('list', *[C(c) for c in fields_of]), delimiter=S('DELIMITER'), header=S('HEADER'), parse_dates=C(TIME == 'datetime'))
                elif FORMAT in ('netCDF4', 'HDF5'):
                    want.update(field_mapping=T('call', 'pyTMD.spatial.default_field_mapping', T('kw', 'variables', S('VARIABLES'))))
                elif FORMAT == 'parquet':
                    want.update(columns=S('VARIABLES'))
                ok = len(reads) == 1 and reads[0][0] == READERS[FORMAT]
                ctx.ob('format', key + ':read', ok and same_arguments(reads[0][1], want), f'read by {[(n, {k: show(x, 3) for k, x in b.items()}) for n, b in reads]}', where(ctx, q))
                writes = [(n, bound(ctx, n, a, k)) for n, a, k, _ in r.writes]
                if len(writes) != 1 or writes[0][0] != WRITERS[FORMAT]:
                    ctx.ob('format', key + ':write', False, f'written by {[n for n, b in writes]}', where(ctx, q))
                    continue
                b = dict(writes[0][1])
                out, attrib = entries(b.pop('output')), entries(b.pop('attributes'))
                fields = [k for k in out if k not in ('lon', 'lat', 'time', 'data')]
                ctx.ob('format', key + ':fields', sorted(fields) == sorted(names or [PROGRAMS[name][1]]), f'fields {fields}', where(ctx, q))
                want = dict(filename=S('output_file'))
                if FORMAT == 'csv':
                    want.update(delimiter=S('DELIMITER'), header=FALSE)
                    cols = [(sval(x) if sval(x) is not None else show(x, 1)) for x in b.pop('columns').args]
                    ctx.ob('format', key + ':columns', cols[:3] == ['time', 'lat', 'lon'] and sorted(cols[3:]) == sorted(fields), f'columns {cols}', where(ctx, q))
                elif FORMAT == 'netCDF4':
                    want.update(data_type=C('drift'))
                elif FORMAT in ('GTiff', 'cog'):
                    want.update(driver=C(FORMAT))
                    n = b.pop('varname')
                    n = sval(n) if sval(n) is not None else show(n, 1)
                    ctx.ob('format', key + ':variable', n in fields and len(fields) == 1 or n == 'data' and names is not None, f'variable {n}', where(ctx, q))
                    for k in ('projection', 'wkt', 'spacing', 'extent'):
                        ctx.ob('format', f'{key}:{k}', attrib.get(k) is S('%raster:' + k), f'{show(attrib[k], 3) if k in attrib else "missing"}', where(ctx, q))
                elif FORMAT == 'parquet':
                    want.update(geoparquet=S('%geo'), geometry_encoding=S('%encoding'), crs=C(4326))
                ctx.ob('format', key + ':write', same_arguments(b, want), f'written with {({k: show(x, 3) for k, x in b.items()})}', where(ctx, q))
                text = FORMAT == 'csv' and TIME == 'datetime'
                for k in fields:
                    u = entries(attrib[k]) if k in attrib else {}
                    ctx.ob('format', f'{key}:{k}:units', 'units' in u and sval(u['units']) == UNITS_OF.get(k, 'meters'), f"units {show(u['units'], 2) if 'units' in u else 'missing'}", where(ctx, q))
                u = entries(attrib['time']) if 'time' in attrib else {}
                ctx.ob('format', f'{key}:time:units', ('units' in u) == (not text) and (text or sval(u['units']) == 'days since 1992-01-01T00:00:00'), 'units of times', where(ctx, q))
                t = value(ctx, 'spec.compute.times', kwargs=dict(delta_time=time_of(TIME, 'options'), EPOCH=T('idx', T('call', 'timescale.time.parse_date_string', S('TIME_UNITS')), C(0)), TIME=C(TIME)), opaque=OPAQUE)
                want = T('meth', 'to_string', t) if text else getattr_term(t, 'tide')
                compare(ctx, 'format', key + ':time', out['time'], want, NF(), where(ctx, q))


def entries(t):
    return {sval(kv.args[0]) if sval(kv.args[0]) is not None else show(kv.args[0], 1): kv.args[1] for kv in t.args if isinstance(kv, T) and kv.op == 'kv'}


def bound(ctx, n, a, k):
    names = ctx.repo.func(S_ + n).params()
    return dict(zip(names, a), **k)


def same_arguments(got, want):
    return set(got) == set(want) and all(got[k] is want[k] or num(got[k]) is not None and num(got[k]) == num(want[k]) for k in want)


UV = T('list', C('u'), C('v'))


def TWO(c, name):
    return UV if name == 'type' and 'pyTMD.io.model' in show(c, 3) else None


def time_of(TIME, source, time=TIME_):
    t = T('call', 'numpy.ravel', time)
    return t if TIME == 'datetime' else T('mul', T('idx', T('call', 'timescale.time.parse_date_string', SOURCES[source][3]), C(1)), t)


def run(ctx):
    ctx.rule('option', 'an option of the command line sets its parameter, and has the documented value when it is left out', 120)
    ctx.rule('format', 'data are read and written by the functions of the format, with the options for it', 200)
    ctx.rule('coordinates', 'coordinates which are written are those of the data', 36)
    for name in PROGRAMS:
        with ctx.case(name):
            options(ctx, name)
        formats(ctx, name)
    ctx.rule('program', 'programs write the tides of the library at the coordinates and times they read', 36)
    for name, (ref, var) in PROGRAMS.items():
        q = f'scripts.compute_{name}.compute_{name}'
        for TYPE, pick in MODES:
            TYPE = TYPE.lower()
            for TIME, source, given in (('UTC', 'file', None), ('UTC', 'options', None), ('datetime', 'unreadable', None), ('UTC', 'options', 'TIME')):
                key = f'{name}:{TYPE}:{TIME}' + (':time' if given else '')
                with ctx.case(key):
                    extra = dict(METHOD=C('spline'), CONVENTION=C('2018'))
                    extra = {k: v for k, v in extra.items() if k in ctx.repo.func(q).params()}
                    hook = TWO if name == 'tidal_currents' else None
                    r, v = program(ctx, name, source, on_attr=hook, TYPE=C(TYPE), TIME_STANDARD=C(TIME), FORMAT=C('netCDF4'), TIME=T('list', S(given)) if given else NONE, **extra)
                    if len(r.writes) != 1:
                        ctx.ob('program', key, False, f'{len(r.writes)} files are written', where(ctx, q))
                        continue
                    out = {sval(kv.args[0]) or show(kv.args[0], 1): kv.args[1] for kv in r.writes[0][1][0].args if isinstance(kv, T) and kv.op == 'kv'}
                    p = value(ctx, 'spec.compute.points', kwargs=dict(x=X, y=Y, TYPE=C(TYPE), EPSG=SOURCES[source][2]), opaque=OPAQUE)
                    for i, c in enumerate(('lon', 'lat')):
                        compare(ctx, 'coordinates', f'{key}:{source}:{c}', fold(out[c]), fold(spread(T('idx', p, C(i)) if p.op != 'tuple' else p.args[i])), NF(), where(ctx, q))
                    fields = {k: x for k, x in out.items() if k not in ('lon', 'lat', 'time')}
                    for c, a in sorted(fields.items()):
                        b = reference(ctx, ref, TYPE, TIME, source, T('list', S(given)) if given else TIME_, on_attr=hook, component=C(c), **extra)
                        nf = NF(keep=['numpy.reshape'], complex_calls=['pyTMD.io.IERS.extract_coefficients'])
                        c = f':{source}' + ('' if len(fields) == 1 else ':' + c)
                        if b.op == 'tuple':
                            compare(ctx, 'program', key + c + ':data', fold(element(data_of(a), pick)), b.args[0], nf, where(ctx, q))
                            compare(ctx, 'program', key + c + ':mask', fold(element(mask_of(a), pick)), b.args[1], nf, where(ctx, q), 'mask')
                        else:
                            compare(ctx, 'program', key + c, fold(element(a, pick)), b, nf, where(ctx, q))
