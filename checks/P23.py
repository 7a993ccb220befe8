"""P23 models: files, readers and options"""
import json
import posixpath
import re
from sa.cells import Cells, lin
from sa.paths import Files, HOME
from .common import *
from .grids import element

EXPLANATION = ('Every method of model is interpreted for every format, type and arrangement of files with the readers (P18-P20, P22) uninterpreted: the reader called, its files, '
               'type, version, scale and other options are compared with those of the definition of the model. Paths, patterns and regular expressions on known strings are folded. '
               'Models of the database and of definition files are constructed by the interpreter and compared with what their entry in the database or definition says.')
MOD = 'pyTMD.io.model.model'
READERS = {f'pyTMD.io.{m}.{f}': (m, f.split('_')[0]) for m in ('OTIS', 'ATLAS', 'GOT', 'FES') for f in ('extract_constants', 'read_constants', 'interpolate_constants')}
GRIDS = {'OTIS': 'OTIS', 'ATLAS-compact': 'ATLAS', 'TMD3': 'TMD3', 'ATLAS-netcdf': 'netcdf', 'GOT-ascii': 'ascii', 'GOT-netcdf': 'netcdf',
         'FES-ascii': 'ascii', 'FES-netcdf': 'netcdf'}
BINARY = ('OTIS', 'ATLAS-compact', 'TMD3')
DATA = {'lat': [None], 'lon': [None]}


def kv(**k):
    return T('dict', NONE, *[T('kv', C(a), b) for a, b in k.items()])


def item(t, *ks):
    for k in ks:
        t = t.args[k] if t.op in ('tuple', 'list') else T('idx', t, C(k))
    return t


def hook(names, gridded=False):
    """readers are uninterpreted: what they return has the constituents named"""
    def f(I, fn, args, kws, st, node):
        if fn.op == 'ext' and fn.args[0] == 'numpy.shape' and I.rd(args[0], st) == S('glat'):
            return T('tuple', C(4), C(3)) if gridded else T('tuple', C(4))
        if fn.op != 'fn' or fn.args[0] not in READERS:
            return None
        mod, what = READERS[fn.args[0]]
        r = I.opaque_call(I.repo.func(fn.args[0]), args, kws, getattr(I, 'starkw', None), st)
        r = T('call', r.args[0], *[a for a in r.args[1:] if a.args[0] != 'append_node'])
        if what == 'read':
            return I.call_func(I.repo.func('spec.dispatch.container'), [r, strs(names), S('glat')], {}, None, st, node)
        parts = [T('idx', r, C(k)) for k in range(3)]
        if what == 'interpolate':
            return T('tuple', *parts[:3 if mod in ('OTIS', 'ATLAS') else 2])
        return T('tuple', *parts[:{'OTIS': 3, 'ATLAS': 3, 'GOT': 2, 'FES': 2}[mod]], *([] if mod == 'FES' else [I.alloc(st, strs(names))]))
    return f


def evaluated(ctx, fn, names, kw, gridded=False):
    I = Interp(ctx.repo, on_call=hook(names, gridded), opaque=['pyTMD.io.model.load_database'])
    v = value(ctx, 'spec.dispatch.' + fn, kwargs=kw, interp=I)
    ctx.analysed(*[q for q in I.inlined if not q.startswith('spec.')])
    return v


REF = {'extracted': 'ref_extracted', 'read': 'ref_contents', 'interpolated': 'ref_interpolated'}


def one(ctx, construct, fn, fmt, files, file, type='z', own=None, options=None, first=None, reread=None, node=False, names=('m2', 'k1'), gridded=False):
    """own: type of the model; type: the component asked for; first: options of an earlier reading; reread: options which the constants used were read with"""
    names, options = list(names), options or {}
    own = own or type
    setup = dict(format=C(fmt), type=C(own) if isinstance(own, str) else strs(own), model_file=files, grid_file=S('grid_file'), projection=S('projection'),
                 version=S('version'), scale=C(0.025), compressed=S('compressed'), names=strs(names))
    append = node and 'node' not in names
    out = names + ['node']*append
    asked = {'type': C(type)} if own != type else {}
    given = dict(options, **asked, **({'append_node': TRUE} if node else {}))
    first = asked if first is None else first
    kw = dict(setup=kv(**setup), options=kv(**given), first=kv(**first), names=strs(out))
    plain = {k: v for k, v in options.items() if k != 'scale'}
    used = {k: v for k, v in (first if reread is None else reread).items() if k not in ('type', 'scale')}
    rkw = dict(setup=kv(**setup), options=kv(**plain), scale=options.get('scale', setup['scale']), grid=C(GRIDS[fmt]), file=file, type=C(type), names=strs(out),
               node=TRUE if append else FALSE, first=kv(**used))
    what = fn.split('_')[0]
    a = evaluated(ctx, fn, names, kw, gridded)
    b = evaluated(ctx, REF[what], names, rkw, gridded)
    at = where(ctx, f'{MOD}.{({"extracted": "extract", "read": "read", "interpolated": "interpolate"})[what]}_constants')
    nf = NF()
    n = lin(S('n'))
    rows = {S('lat').id: (n,), S('glat').id: (lin(C(4)), lin(C(3))) if gridded else (lin(C(4)),)}
    for t in {x for v in (a, b) for x in walk(v)}:
        if t.op == 'idx' and t.args[0].op == 'call' and t.args[0].args[0] in READERS:
            rows[t.id] = (n, lin(C(len(names)))) if what == 'extracted' else (lin(C(4)), lin(C(3)))
    cells = Cells(rows)
    i, j = lin(S('i')), lin(C(1))
    if what == 'extracted':
        inside = Cells({k: tuple(x.plus(i) if x == n else x for x in v) for k, v in rows.items()})
        for k, f in enumerate(out):
            for q, x in (('amplitude', 0), ('phase', 1)):
                y = item(b, x, k)
                compare(ctx, 'files', f'{construct}:{q}:{f}', element(inside, item(a, x), [i, lin(C(k))], nf), inside.broadcast(y, [i]), nf, where=at)
        compare(ctx, 'files', f'{construct}:constituents', item(a, 2), item(b, 2), nf, where=at)
    elif what == 'read':
        compare(ctx, 'files', f'{construct}:constituents', item(a, 0), item(b, 0), nf, where=at)
        for k, f in enumerate(out):
            x, y = (item(v, 1, k) for v in (a, b))
            p = [lin(C(2)), j]
            compare(ctx, 'files', f'{construct}:constants:{f}', element(cells, x, p, nf), cells.broadcast(y, p if f != 'node' or not append or gridded else p[:1]), nf, where=at)
    else:
        compare(ctx, 'files', f'{construct}:constants', a, b, nf, where=at)


OPTIONS = dict(crop=TRUE, bounds=S('bounds'), buffer=S('buffer'))
SAMPLING = dict(method=C('linear'), extrapolate=TRUE, cutoff=S('cutoff'))


def components(fmt):
    """(tag, type of the model, component, files of the model, files of the component)"""
    path, many = C('h.nc'), strs(['m2.nc', 'k1.nc'])
    yield 'z', 'z', 'z', path, path
    yield 'z:list', 'z', 'z', many, many
    if fmt.startswith('GOT'):
        return
    for tag, u, v in (('', C('u.nc'), C('v.nc')), (':list', strs(['u_m2.nc', 'u_k1.nc']), strs(['v_m2.nc', 'v_k1.nc']))):
        files = kv(u=u) if fmt in BINARY else kv(u=u, v=v)
        for c in 'uv':
            yield c + tag, ('u', 'v'), c, files, u if fmt in BINARY or c == 'u' else v


def reading(ctx):
    for fmt in GRIDS:
        deep = dict(OPTIONS, apply_flexure=TRUE) if fmt in BINARY else OPTIONS
        for tag, own, c, files, file in components(fmt):
            k = dict(fmt=fmt, files=files, file=file, type=c, own=own)
            other = {'u': 'v', 'v': 'u'}.get(c)

            def case(name, fn, **kw):
                with ctx.case(f'{fmt}:{tag}:{name}'):
                    one(ctx, f'{fmt}:{tag}:{name}', fn, **k, **kw)
            case('extract', 'extracted')
            case('extract-node', 'extracted', node=True, options=dict(deep, **SAMPLING, scale=S('factor')))
            case('read', 'read')
            case('read-node', 'read', node=True, options=deep)
            case('interpolate', 'interpolated', options=dict(SAMPLING, scale=S('factor')))
            case('interpolate-cropped', 'interpolated', first=dict(deep, **({'type': C(c)} if other else {})))
            case('interpolate-unread', 'interpolated_unread', options=dict(deep, **SAMPLING), reread=dict(deep, **SAMPLING))
            if other:
                case('interpolate-other', 'interpolated', first={'type': C(other)}, options=SAMPLING, reread=SAMPLING)
            if tag in ('z', 'u') or ctx.tier == 'thorough':
                case('extract-has-node', 'extracted', node=True, names=('m2', 'node'))
                case('read-has-node', 'read', node=True, names=('m2', 'node'))
                case('read-node-projected', 'read', node=True, gridded=True)
                case('function-extract', 'extracted_function', node=True, options=dict(deep, **SAMPLING))
                case('function-read', 'read_function', node=True, options=deep)
                case('function-interpolate', 'interpolated_function', options=SAMPLING)


# -- definitions of models
DATABASE = '<data>/data/database.json'
SCALES = {('ATLAS-netcdf', 'z', 'tide_ocean'): 0.001, ('ATLAS-netcdf', 'uv', None): 0.0001, ('FES-netcdf', 'uv', None): 1.0, ('FES-ascii', 'uv', None): 1.0,
          **{(f, 'z', v): 0.001 if v == 'tide_load' and f.startswith('GOT') else 0.01
             for f in ('GOT-ascii', 'GOT-netcdf', 'FES-ascii', 'FES-netcdf') for v in ('tide_ocean', 'tide_load', 'tide_lpe')}}
VARIABLES = ('tide_ocean', 'tide_load', 'tide_lpe')
ALIASES = {'2n': '2n2', 'la2': 'lambda2', 'lam2': 'lambda2', 'lm2': 'lambda2', 'e2': 'eps2', 'om0': 'node', 'omega0': 'node', 'msq': 'msqm', 'rho': 'rho1', 'sig1': 'sigma1', 'the1': 'theta1'}
#: names of constituents and of the abbreviations of theirs used in files of models
CONSTITUENTS = '''sa ssa mm msf mt mf alpha1 2q1 sigma1 q1 rho1 o1 tau1 m1 chi1 pi1 p1 s1 k1 psi1 phi1 beta1 theta1 j1 oo1 2n2 mu2 n2 nu2 m2 m2a m2b lambda2 l2 t2 s2 alpha2
beta2 delta2 gamma2 r2 k2 eta2 mns2 2sm2 m3 mk3 s3 mn4 m4 ms4 mk4 so1 s4 s5 m6 s6 s7 s8 m8 mks2 msqm mtm n4 eps2 ups1 z0 node'''.split()
SHORT = {**ALIASES, 'alp1': 'alpha1', 'alp2': 'alpha2', 'bet1': 'beta1', 'bet2': 'beta2', 'del2': 'delta2', 'ep2': 'eps2', 'gam2': 'gamma2'}
FORMS = ('{0}', '{0}.nc', '{0}_fes2014.nc', 'h_{0}_tpxo', '/x/m2/{0}.d', 'hf.{0}.nc')


def plain(t):
    """a known value of the analysis as a Python value"""
    if t.op == 'dict':
        return {plain(x.args[0]): plain(x.args[1]) for x in t.args[1:]}
    if t.op in ('list', 'tuple'):
        return [plain(x) for x in t.args]
    if t is NONE:
        return None
    if t.op == 'c' or num(t) is not None:
        x = t.args[0] if t.op == 'c' else num(t)
        return float(x) if not isinstance(x, (str, bool)) else x
    return 'unknown: ' + show(t, 4)


def known(ctx, fn, fs, **kw):
    I = Interp(ctx.repo, on_call=fs)
    I.on_attr, I.recursion, I.strict, I.unroll = fs.attribute, 4, True, 400
    v = value(ctx, 'spec.dispatch.' + fn, kwargs=kw, interp=I)
    ctx.analysed(*[q for q in I.inlined if not q.startswith('spec.')])
    return None if v.op == 'noreturn' else plain(v)


FIELDS = ('name', 'format', 'type', 'grid_file', 'model_file', 'projection', 'scale', 'version', 'variable', 'constituents')


def fields(ctx, rule, construct, got, want, at):
    if got is None:
        ctx.ob(rule, construct, False, 'is rejected', at)
        return
    for k, x in zip(FIELDS, got):
        unknown = 'unknown' in str(x)
        if unknown and x != want[k]:
            raise AnalysisBroken(f'{construct}: {k} is {str(x)[:300]}')
        ctx.ob(rule, f'{construct}:{k}', x == want[k], f'{k} = {str(x)[:200]}' + ('' if x == want[k] else f', required {str(want[k])[:200]}'), at)


def constituent(name, supported):
    """the constituent that a part of the name of a file stands for"""
    stem = posixpath.basename(name).lower()
    parts = re.split('[_.]', stem)
    parts += [re.sub('(load|x)$', '', p) for p in parts]
    found = [ALIASES.get(p, p) for p in parts if ALIASES.get(p, p) in supported and p not in ('tide', 'h', 'u', 'v')]
    return found[0] if found else None


def listing(directory, pattern):
    """files found in no particular order"""
    base = pattern.replace('*', '')
    names = [base + 'k1', base + 'm2'] if '*' in pattern else [base]
    return [directory + '/' + n for n in (names if base.startswith('v') else names[::-1])]


def expected(d, directory):
    """files of a definition: relative to the directory, where patterns are expanded in the order of the names"""
    binary = d['format'] in BINARY

    def path(p):
        return posixpath.join(directory, p) if directory else re.sub('^~', HOME, p)

    def files(p):
        ps = [p] if isinstance(p, str) else p
        if directory is None:
            out = [path(x) for x in ps]
            return out[0] if isinstance(p, str) or binary and len(out) == 1 else out
        out = [f for x in ps for f in sorted(listing(directory, x))]
        return out[0] if binary and len(out) == 1 else out
    w = {k: d.get(k) for k in FIELDS}
    w['model_file'] = {k: files(p) for k, p in d['model_file'].items()} if isinstance(d['model_file'], dict) else files(d['model_file'])
    w['grid_file'] = d.get('grid_file') and path(d['grid_file'])
    if d['format'].startswith('FES') and 'constituents' not in d:
        f = w['model_file']['u'] if isinstance(w['model_file'], dict) else w['model_file']
        w['constituents'] = [re.search('(m2|k1)', x).group(0) for x in ([f] if isinstance(f, str) else f)]
    return w


def definitions(ctx):
    at = where(ctx, MOD + '._parse_json')
    database = ctx.repo.json('pyTMD/data/database.json')

    def definition(fmt, type, files):
        d = dict(name='X', format=fmt, type=type, model_file=files, variable='tide_ocean', reference='R')
        if fmt in BINARY or fmt == 'ATLAS-netcdf':
            d['grid_file'] = 'deep/grid'
        if fmt in BINARY:
            d['projection'] = 'EPSG:4326'
        else:
            d['scale'] = 0.5
        if fmt.startswith('FES'):
            d['version'] = 'FES2014'
        return d

    def make(d, directory, fn='defined', **kw):
        files = Files({DATABASE: database, 'definition.json': d}, found=listing)
        return known(ctx, fn, files, directory=NONE if directory is None else C(directory), **kw)
    for fmt in GRIDS:
        currents = not fmt.startswith('GOT')
        kinds = [('z', f) for f in ('~/h/m2', ['~/h/m2', 'h/k1'], ['~/h/m2'])]
        inside = [('z', f) for f in ('h/*', ['h/m2', 'h/k1'], ['h/m2'], 'h/m2', ['h/k1*', 'h/m2'])]
        if currents:
            kinds += [(['u', 'v'], {'u': u, 'v': v}) for (_, u), (_, v) in zip(kinds, [('', '~/v/m2'), ('', ['~/v/m2', 'v/k1']), ('', ['v/m2'])])]
            inside += [(['u', 'v'], {'u': u, 'v': v}) for u, v in [('u*', 'v*'), (['u/m2', 'u/k1'], ['v/m2', 'v/k1']), (['u/m2'], ['v/m2']), ('u/m2', 'v/m2')]]
        if currents and fmt in BINARY:
            kinds.append((['u', 'v'], {'u': 'uv/m2'}))
        for directory, options in ((None, kinds), ('/tides', inside)):
            for type, files in options:
                d = definition(fmt, type, files)
                key = f'{fmt}:{"z" if type == "z" else "uv"}:{directory}:{json.dumps(files)}'
                with ctx.case('definition:' + key):
                    fields(ctx, 'definition', key, make(d, directory), expected(d, directory), at)
        for type, files in (kinds[1], kinds[-1]):
            d = definition(fmt, type, files)
            key = f'{fmt}:{"z" if type == "z" else "uv"}'
            for k in ('name', 'type', 'model_file', 'format', 'grid_file', 'projection', 'scale', 'version'):
                if k in d and not (k == 'version' and not fmt.startswith('FES')):
                    with ctx.case(f'missing:{key}:{k}'):
                        ok = make({x: y for x, y in d.items() if x != k}, None) is None
                        ctx.ob('required', f'{key}:{k}', ok, 'a definition without it is rejected' if ok else 'a definition without it is accepted', at)
            with ctx.case('copy:' + key):
                for serialize in (FALSE, TRUE):
                    got = make(d, None, 'copied', serialize=serialize)
                    fields(ctx, 'copy', f'{key}:{show(serialize)}', got and got[0], dict(zip(FIELDS, got[1])) if got else {}, where(ctx, MOD + '.to_dict'))
            with ctx.case('constituents:' + key):
                c = dict(d, constituents=['s2', 'n2'])
                fields(ctx, 'definition', key + ':constituents', make(c, None), expected(c, None), at)
        with ctx.case('format:' + fmt):
            d = definition(fmt, 'z', kinds[0][1])
            ctx.ob('required', fmt + ':unknown', make(dict(d, format='OTHER'), None) is None, 'a format that is not supported', at)
    for alias, fmt in (('ATLAS', 'ATLAS-compact'), ('netcdf', 'ATLAS-netcdf'), ('FES', 'FES-netcdf'), ('GOT', 'GOT-ascii')):
        with ctx.case('alias:' + alias):
            d = definition(fmt, 'z', 'h/m2')
            fields(ctx, 'definition', 'alias:' + alias, make(dict(d, format=alias), None), expected(d, None), at)


def listed(ctx):
    database = ctx.repo.json('pyTMD/data/database.json')
    supported = set(ctx.repo.json('pyTMD/data/doodson.json'))
    find = {'elevation': where(ctx, MOD + '.elevation'), 'current': where(ctx, MOD + '.current')}
    data = 'pyTMD/data/database.json'
    every = [(kind, name, e) for kind in ('elevation', 'current') for name, e in database[kind].items()]

    def make(kind, name, exists=lambda p: True, extra=None, more=None, small=None, **options):
        files = Files({DATABASE: {k: {n: e for n, e in v.items() if small is None or n in small} for k, v in database.items()}, **(more or {})}, exists=exists)
        directory = options.pop('directory', '~/tides')
        return known(ctx, 'listed', files, directory=NONE if directory is None else C(directory), kind=C(kind), name=C(name), extra=kv(**(extra or {})),
                     **{k: TRUE if v else FALSE for k, v in options.items()})

    def join(f, root, gz=''):
        return [join(x, root, gz) for x in f] if isinstance(f, list) else {k: join(x, root, gz) for k, x in f.items()} if isinstance(f, dict) else f'{root}/{f}{gz}'

    def wanted(e, root=HOME + '/tides', gz=''):
        w = {k: e.get(k) for k in FIELDS}
        w['model_file'] = join(e['model_file'], root, gz)
        w['grid_file'] = e.get('grid_file') and join(e['grid_file'], root, gz)
        if e['format'].startswith('FES'):
            f = e['model_file']
            w['constituents'] = [constituent(x, supported) for x in (f['u'] if isinstance(f, dict) else f)]
        return w
    # contents of the database
    names = {}
    for kind, name, e in every:
        key = f'{kind}:{name}'
        fmt, type = e['format'], e['type']
        ctx.ob('database', key + ':format', fmt in GRIDS, fmt, data)
        ctx.ob('database', key + ':type', type == ('z' if kind == 'elevation' else ['u', 'v']), str(type), data)
        ctx.ob('database', key + ':name', bool(e.get('name')) and name.startswith(e['name']), str(e.get('name')), data)
        ctx.ob('database', key + ':variable', kind == 'current' or e.get('variable') in VARIABLES, str(e.get('variable')), data)
        if kind == 'elevation':
            ctx.ob('database', key + ':load', ('load' in name) == (e.get('variable') == 'tide_load'), str(e.get('variable')), data)
        if fmt in BINARY or fmt == 'ATLAS-netcdf':
            ctx.ob('database', key + ':grid', isinstance(e.get('grid_file'), str) and bool(e['grid_file']), str(e.get('grid_file')), data)
        if fmt in BINARY:
            ctx.ob('database', key + ':projection', bool(e.get('projection')), str(e.get('projection')), data)
            for other, n, o in every:
                if n == name and other != kind:
                    ctx.ob('database', key + ':same', o.get('projection') == e.get('projection'), f'projection of {other}', data)
        else:
            want = SCALES.get((fmt, 'z' if type == 'z' else 'uv', e.get('variable')))
            ctx.ob('database', key + ':scale', e.get('scale') == want, f'{e.get("scale")} to metres or centimetres per second and square metres per second, required {want}', data)
        if fmt.startswith('FES'):
            ctx.ob('database', key + ':version', bool(e.get('version')), str(e.get('version')), data)
        files = e['model_file'] if isinstance(e['model_file'], dict) else {'z': e['model_file']}
        ctx.ob('database', key + ':components', set(files) == ({'z'} if kind == 'elevation' else {'u'} if fmt in BINARY and 'v' not in files else {'u', 'v'}), str(sorted(files)), data)
        several = {k: f for k, f in files.items() if isinstance(f, list)}
        ctx.ob('database', key + ':files', len(several) == len(files) if fmt not in BINARY else True, 'one file for every constituent', data)
        for k, f in several.items():
            cs = [constituent(x, supported) for x in f]
            names[key, k] = (f, cs)
            ctx.ob('database', f'{key}:{k}:constituents', None not in cs and len(set(cs)) == len(cs), str(cs) if None not in cs else str([x for x, c in zip(f, cs) if c is None]), data)
        if len(several) == 2:
            ctx.ob('database', key + ':same constituents', names[key, 'u'][1] == names[key, 'v'][1], 'the components have the same constituents in the same order', data)
    for (key, k), (f, cs) in names.items():
        with ctx.case(f'parse:{key}:{k}'):
            got = known(ctx, 'parsed', Files(), files=strs(f))
            bad = [f'{x}: {a}, required {b}' for x, a, b in zip(f, got or [None]*len(f), cs) if a != b]
            ctx.ob('names', f'{key}:{k}', not bad, '; '.join(bad)[:300] if bad else f'{len(f)} names of files', where(ctx, MOD + '.parse_file'))
    for n, want in {**{n: n for n in CONSTITUENTS}, **SHORT}.items():
        with ctx.case(f'parse:{n}'):
            fs = [f.format(x) for f in FORMS for x in (n, n.upper())]
            got = known(ctx, 'parsed', Files(), files=strs(fs))
            bad = [f'{x}: {a}, required {want}' for x, a in zip(fs, got or [None]*len(fs)) if a != want]
            ctx.ob('names', n, not bad, '; '.join(bad)[:300] if bad else f'{len(fs)} forms of the name', where(ctx, MOD + '.parse_file'))
    # models found in it
    deep = ctx.tier == 'thorough'
    seen = set()
    for kind, name, e in every:
        key = f'{kind}:{name}'
        # one entry of every format is needed for the list of formats
        reps = {next(n for k, n, o in every if o['format'] == f) for f in sorted({o['format'] for _, _, o in every})} | {name}
        with ctx.case('listed:' + key):
            fields(ctx, 'listed', key, make(kind, name, small=reps), wanted(e), find[kind])
        first = (kind, e['format'], isinstance(e['model_file'], list), str(e.get('grid_file')) != 'None')
        if first in seen and not deep:
            continue
        seen.add(first)
        all_files = [x for f in (e['model_file'].values() if isinstance(e['model_file'], dict) else [e['model_file']]) for x in (f if isinstance(f, list) else [f])]
        all_files += [e['grid_file']] if e.get('grid_file') else []
        for f in all_files if deep else [all_files[0], all_files[-1], *([all_files[len(all_files)//2]] if len(all_files) > 2 else [])]:
            with ctx.case(f'missing:{key}:{f}'):
                got = make(kind, name, exists=lambda p: not p.endswith('/' + f), small=reps)
                ctx.ob('missing', f'{key}:{f}', got is None, 'reported' if got is None else 'a file which does not exist is not reported', find[kind])
        with ctx.case('unverified:' + key):
            fields(ctx, 'listed', key + ':unverified', make(kind, name, exists=lambda p: False, small=reps, verify=False), wanted(e), find[kind])
        with ctx.case('compressed:' + key):
            fields(ctx, 'listed', key + ':compressed', make(kind, name, small=reps, compressed=True), wanted(e, gz='.gz'), find[kind])
        with ctx.case('here:' + key):
            fields(ctx, 'listed', key + ':here', make(kind, name, small=reps, directory=None), wanted(e, '/work'), find[kind])
    new = dict(name='NEW', format='GOT-netcdf', type='z', variable='tide_ocean', model_file=['new/m2.nc', 'new/k1.nc'], scale=2.0)
    base = {next(n for k, n, o in every if o['format'] == f) for f in sorted({o['format'] for _, _, o in every})}
    a = sorted(set(base) & set(database['elevation']))[0]
    changed = dict(database['elevation'][a], version='changed')
    with ctx.case('unlisted'):
        for kind in database:
            ctx.ob('listed', f'{kind}:unlisted', make(kind, 'NEW', small=base) is None, 'a model that is not listed is rejected', find[kind])
    for tag, more in (('elevation', {'elevation': {'NEW': new, a: changed}}), ('both', {'elevation': {'NEW': new}, 'current': {'NEWC': dict(new, type=['u', 'v'])}}), ('current', {'current': {'NEWC': new}})):
        with ctx.case('extra:' + tag):
            opts = dict(small=base, extra=dict(extra_databases=strs(['more.json'])), more={'more.json': more})
            if 'elevation' in more:
                fields(ctx, 'extra', f'{tag}:new', make('elevation', 'NEW', **opts), wanted(new), find['elevation'])
            for kind in database:
                n = next(n for n in sorted(base) if n in database[kind])
                w = more.get(kind, {}).get(n, database[kind][n])
                fields(ctx, 'extra', f'{tag}:{kind}:{n}', make(kind, n, **opts), wanted(w), find[kind])
    with ctx.case('two extra'):
        more = {'one.json': {'elevation': {'NEW': dict(new, scale=1.0)}}, 'two.json': {'elevation': {'NEW': new}}}
        fields(ctx, 'extra', 'later', make('elevation', 'NEW', small=base, extra=dict(extra_databases=strs(['one.json', 'two.json'])), more=more), wanted(new), find['elevation'])
    # lists of models
    with ctx.case('lists'):
        got = known(ctx, 'lists', Files({DATABASE: database}))
        sel = lambda kind, cond: sorted(n for n, e in database[kind].items() if cond(e))
        want = {'formats': sorted(GRIDS), 'ocean_elevation': sel('elevation', lambda e: e['variable'] in ('tide_ocean', 'tide_lpe')),
                'load_elevation': sel('elevation', lambda e: e['variable'] == 'tide_load'), 'ocean_current': sel('current', lambda e: True),
                **{k: sel('elevation', lambda e: e['format'] in f) for k, f in (('OTIS', ('OTIS',)), ('ATLAS_compact', ('ATLAS-compact',)), ('TMD3', ('TMD3',)), ('ATLAS', ('ATLAS-netcdf',)),
                                                                            ('GOT', ('GOT-ascii', 'GOT-netcdf')), ('FES', ('FES-ascii', 'FES-netcdf')))}}
        for (k, w), g in zip(want.items(), got or [None]*10):
            ctx.ob('lists', k, g == w, f'{len(w)} names' if g == w else f'{str(g)[:200]}, required {str(w)[:200]}', where(ctx, f'{MOD}.{k}'))


CORRECTIONS = {'OTIS': 'OTIS', 'ATLAS-compact': 'ATLAS', 'TMD3': 'TMD3', 'ATLAS-netcdf': 'ATLAS', 'GOT-ascii': 'perth3', 'GOT-netcdf': 'GOT', 'FES-ascii': 'FES', 'FES-netcdf': 'FES'}
NAMES = {'long_name': ('ocean_tide_elevation', 'load_tide_elevation', 'equilibrium_tide_elevation'),
         'atl03': ('tide_ocean', 'tide_load', 'tide_equilibrium'), 'atl06': ('tide_ocean', 'tide_load', 'tide_equilibrium'),
         'atl07': ('height_segment_ocean', 'height_segment_load', 'height_segment_lpe'), 'atl10': ('height_segment_ocean', 'height_segment_load', 'height_segment_lpe'),
         'atl11': ('tide_ocean', 'tide_load', 'tide_equilibrium'), 'atl12': ('tide_ocean_seg', 'tide_load_seg', 'tide_equilibrium_seg'),
         'gla12': ('d_ocElv', 'd_ldElv', 'd_eqElv')}


def described(ctx):
    keys = ('gzip', 'corrections', 'file_format', *NAMES)
    for fmt in GRIDS:
        for k, variable in enumerate((*VARIABLES, None)):
            for compressed in (False, True):
                type = 'z' if variable else ['u', 'v']
                key = f'{fmt}:{variable}:{compressed}'
                with ctx.case('described:' + key):
                    got = known(ctx, 'described', Files(), format=C(fmt), type=C('z') if variable else strs(type), variable=C(variable) if variable else NONE, compressed=TRUE if compressed else FALSE)
                    want = ['.gz' if compressed else '', CORRECTIONS[fmt], GRIDS[fmt], *[v[k] if variable else None for v in NAMES.values()]]
                    if not variable:
                        want[3] = {'u': 'zonal_tidal_current', 'v': 'meridional_tidal_current'}
                    for q, x, y in zip(keys, got or [None]*len(keys), want):
                        ctx.ob('names', f'{key}:{q}', x == y, f'{q} = {x}' + ('' if x == y else f', required {y}'), where(ctx, f'{MOD}.{q}'))


def run(ctx):
    ctx.rule('files', 'constants come from the reader of the format, from the files of the component, with the options given', 500)
    ctx.rule('definition', 'files named in a definition: relative to the directory of the model, patterns expanded in the order of names, user expanded', 500)
    ctx.rule('required', 'definitions without the values needed and with unknown formats are rejected', 60)
    ctx.rule('copy', 'a model made from the contents of another one is the same', 100)
    ctx.rule('database', 'the models listed: supported formats, factors to the units of the results, distinct constituents which are the same for the components', 500)
    ctx.rule('names', 'constituents are those of the names of the files; names of formats, corrections and variables', 500)
    ctx.rule('listed', 'a listed model has the files and options listed', 700)
    ctx.rule('missing', 'files which do not exist are reported', 15)
    ctx.rule('extra', 'models of additional databases are added to those listed, the last one is used', 50)
    ctx.rule('lists', 'lists of the models by format and variable', 10)
    reading(ctx)
    definitions(ctx)
    listed(ctx)
    described(ctx)
