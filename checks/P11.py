"""P11 tide heights and currents at points"""
from sa.equiv import spread
from .common import *

EXPLANATION = ('Static equivalence: the value number of the point computations (tide_elevations, tide_currents), per kind of data and time standard, '
               'read at a generic element, is compared in canonical form with a reference composition of model, coordinates, times, '
               'synthesis and inference; the called routines stay uninterpreted with all their (named) arguments.')

OPAQUE = ['pyTMD.io.model.model', 'pyTMD.crs.crs', 'pyTMD.predict.map', 'pyTMD.predict.drift', 'pyTMD.predict.time_series',
          'pyTMD.predict.infer_minor', 'pyTMD.spatial.data_type']
MODES = (('grid', T('tuple', FULL, FULL, S('k'))), ('Drift', None), ('time series', T('tuple', S('k'), FULL)))
DEFAULTS = dict(EPSG=4326, EPOCH=(2000, 1, 1, 0, 0, 0), TYPE='drift', TIME='UTC')
TIDE = dict(DEFAULTS, METHOD='spline', EXTRAPOLATE=False, CUTOFF=10, CORRECTIONS=None, INFER_MINOR=True, MINOR_CONSTITUENTS=None,
            CROP=False, BOUNDS=None, GZIP=False)


def const(t):
    if t is NONE:
        return None
    if t.op in ('tuple', 'list'):
        return tuple(const(x) for x in t.args)
    if num(t) is not None and not (t.op == 'c' and isinstance(t.args[0], bool)):
        return float(num(t))
    return t.args[0] if t.op == 'c' else show(t)


def check_defaults(ctx, rule, f, want):
    fn = ctx.repo.func('pyTMD.compute.' + f)
    d = defaults(ctx, fn)
    for k, v in want.items():
        got = const(d[k]) if k in d else 'missing'
        ctx.ob(rule, f'{f}:{k}', got == v, f'default {got!r} (documented {v!r})', fn.where)


def element(v, pick):
    return v if pick is None else T('idx', v, pick)


def returns(v):
    return v.op != 'noreturn'


def check_inferred_type(ctx, rule, f, opaque, on_attr=None):
    """without a type of data, the type is inferred from the coordinates and times"""
    seen = []

    def hook(I, fn, args, kws, st, node):
        if fn.op == 'fn' and fn.args[0] == 'pyTMD.spatial.data_type':
            seen.append(tuple(I.rd(a, st) for a in args) + tuple(I.rd(v, st) for _, v in sorted(kws.items())))
            return C('time series')
        return None
    with ctx.case(f + ':type'):
        op = [o for o in opaque if o != 'pyTMD.spatial.data_type']
        kw = dict(TIME=C('UTC'), METHOD=C('spline'), CONVENTION=C('2018'))
        kw = {k: v for k, v in kw.items() if k in ctx.repo.func('pyTMD.compute.' + f).params()}
        a = value(ctx, 'pyTMD.compute.' + f, kwargs=dict(kw, TYPE=NONE), opaque=op, on_call=hook, on_attr=on_attr)
        b = value(ctx, 'pyTMD.compute.' + f, kwargs=dict(kw, TYPE=C('time series')), opaque=op, on_attr=on_attr)
        ok = bool(seen) and all(s[:3] == (S('x'), S('y'), S('delta_time')) for s in seen) and (a is b or NF(keep=['numpy.reshape']).eq(a, b))
        ctx.ob(rule, f + ':type', ok, 'type of data inferred from coordinates and times when it is not given', where(ctx, 'pyTMD.compute.' + f))


def check_validation(ctx, rule, f, opaque, bad, on_attr=None):
    ok = dict(TIME=C('UTC'), TYPE=C('drift'), METHOD=C('spline'), CONVENTION=C('2018'), ELLIPSOID=C('WGS84'), TIDE_SYSTEM=C('tide_free'),
              EPHEMERIDES=C('approximate'))
    fn = ctx.repo.func('pyTMD.compute.' + f)
    ok = {k: v for k, v in ok.items() if k in fn.params()}
    for k, vals in bad.items():
        for val, good in vals:
            with ctx.case(f'{f}:{k}={val}'):
                v = value(ctx, 'pyTMD.compute.' + f, kwargs=dict(ok, **{k: C(val)}), opaque=opaque, on_attr=on_attr)
                ctx.ob(rule, f'{f}:{k}={val}', returns(v) == good, 'accepted' if returns(v) else 'rejected on every path', fn.where)


BADTIME = [('bogus', False), ('GPS', True), ('loran', True), ('Datetime', True), ('tai', True)]
BADTYPE = [('swath', False), ('Grid', True), ('Time Series', True), ('DRIFT', True)]


def run(ctx):
    ctx.rule('elevation', 'heights: constants of the chosen model at the transformed coordinates, synthesis and inference with the right time offset, masked where a part is invalid', 10)
    ctx.rule('current', 'currents: the same composition for every transport component of the model', 12)
    ctx.rule('type', 'the kind of data is inferred from the inputs when it is not given', 2)
    ctx.rule('options', 'unknown time standards, kinds of data and methods are rejected; the documented ones are accepted in any case', 18)
    ctx.rule('defaults', 'documented defaults', 20)
    ctx.rule('dispatch', 'the correction named by the caller is the one computed, with the same inputs and options', 6)
    uv = T('list', C('u'), C('v'))
    attr = lambda c, name: uv if name == 'type' and 'pyTMD.io.model' in show(c, 3) else None
    for TYPE, pick in MODES:
        for TIME in ('UTC', 'datetime', 'GPS'):
            kw = dict(TYPE=C(TYPE), TIME=C(TIME), METHOD=C('spline'))
            key = f'{TYPE}:{TIME}'
            q = 'pyTMD.compute.tide_elevations'
            with ctx.case('elevation:' + key):
                a = value(ctx, q, kwargs=kw, opaque=OPAQUE)
                b = value(ctx, 'spec.compute.tide_elevations', kwargs=kw, opaque=OPAQUE)
                b = spread(b)
                nf = NF(keep=['numpy.reshape'])
                compare(ctx, 'elevation', key + ':data', element(data_of(a), pick), b.args[0], nf, where(ctx, q), 'heights')
                compare(ctx, 'elevation', key + ':mask', element(mask_of(a), pick), b.args[1], nf, where(ctx, q), 'mask')
            if TIME == 'GPS':
                continue
            q = 'pyTMD.compute.tide_currents'
            with ctx.case('current:' + key):
                a = value(ctx, q, kwargs=kw, opaque=OPAQUE, on_attr=attr)
                parts = {kv.args[0].args[0]: kv.args[1] for kv in a.args[1:]} if a.op == 'dict' else {}
                ctx.ob('current', key + ':components', sorted(parts) == ['u', 'v'], f'components {sorted(parts)}', where(ctx, q))
                for c, x in parts.items():
                    b = spread(value(ctx, 'spec.compute.tide_currents', kwargs=dict(kw, component=C(c)), opaque=OPAQUE, on_attr=attr))
                    nf = NF(keep=['numpy.reshape'])
                    compare(ctx, 'current', f'{key}:{c}:data', element(data_of(x), pick), b.args[0], nf, where(ctx, q), 'currents')
                    compare(ctx, 'current', f'{key}:{c}:mask', element(mask_of(x), pick), b.args[1], nf, where(ctx, q), 'mask')
    check_inferred_type(ctx, 'type', 'tide_elevations', OPAQUE)
    check_inferred_type(ctx, 'type', 'tide_currents', OPAQUE, on_attr=attr)
    bad = dict(TIME=BADTIME, TYPE=BADTYPE, METHOD=[('cubist', False), ('bilinear', True), ('linear', True), ('nearest', True)])
    check_validation(ctx, 'options', 'tide_elevations', OPAQUE, bad)
    check_validation(ctx, 'options', 'tide_currents', OPAQUE, bad, on_attr=attr)
    check_defaults(ctx, 'defaults', 'tide_elevations', dict(TIDE, APPEND_NODE=False, APPLY_FLEXURE=False))
    check_defaults(ctx, 'defaults', 'tide_currents', TIDE)
    # dispatch
    target = dict(ocean='tide_elevations', load='tide_elevations', LPET='LPET_elevations', LPT='LPT_displacements', OPT='OPT_displacements',
                  SET='SET_displacements')
    q = 'pyTMD.compute.corrections'
    for name in ('ocean', 'LOAD', 'LPET', 'lpt', 'OPT', 'Set'):
        tgt = 'pyTMD.compute.' + {k.lower(): v for k, v in target.items()}[name.lower()]
        with ctx.case('dispatch:' + name):
            got = []

            def hook(I, fn, args, kws, st, node):
                if fn.op == 'fn' and fn.args[0].startswith('pyTMD.compute.'):
                    got.append((fn.args[0], tuple(I.rd(x, st) for x in args), dict(kws), I.node))
                    return T('call', fn.args[0], *[I.rd(x, st) for x in args])
                return None
            v = value(ctx, q, kwargs=dict(CORRECTION=C(name)), on_call=hook)
            ok = v.op == 'call' and v.args[0] == tgt and list(v.args[1:4]) == [S('x'), S('y'), S('delta_time')]
            fwd = forwards_options(ctx, q)
            ctx.ob('dispatch', name, ok and fwd, show(v, 2)[:200] + ('' if fwd else ' (options dropped)'), where(ctx, q))
    with ctx.case('dispatch:unknown'):
        v = value(ctx, q, kwargs=dict(CORRECTION=C('bogus')))
        ctx.ob('dispatch', 'unknown', not returns(v), 'unknown corrections are rejected', where(ctx, q))


def forwards_options(ctx, q):
    """every call of a computation passes the open options on"""
    import ast
    fn = ctx.repo.func(q)
    kw = fn.node.args.kwarg
    calls = [n for n in ast.walk(fn.node) if isinstance(n, ast.Call)]
    fwd = [n for n in calls if any(k.arg is None and isinstance(k.value, ast.Name) and kw is not None and k.value.id == kw.arg for k in n.keywords)]
    return kw is not None and len(fwd) >= 1 and all(
        n in fwd for n in calls if isinstance(n.func, ast.Name) and ctx.repo.resolve('pyTMD.compute.' + n.func.id) is not None)
