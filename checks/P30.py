"""P30 changes of coordinate reference system"""
import ast
from .common import *
from sa.interp import UNDEF

EXPLANATION = ('Static evaluation of the class of coordinate reference systems, on an object that may have been used before: the systems the transformer is made from, its order of axes, its direction and the coordinates '
               'handed to it are compared with their definition; each reading of a system that can fail is evaluated as a case. Every transformer that is made anywhere in the package is enumerated.')
SPEC = 'spec.crs.'
C_ = 'pyTMD.crs.crs.'
CRS = 'pyproj.CRS.'
DIRECTION = {k: T('ext', 'pyproj.enums.TransformDirection.' + k) for k in ('FORWARD', 'INVERSE')}
WGS84 = C(4326)


def canonical(t):
    """one form of the ways pyproj reads systems and takes options"""
    def one(x):
        o, a = x.op, x.args
        if o == 'call' and a[0] in ('pyproj.CRS', 'pyproj.crs.CRS', 'pyproj.crs.CRS.from_user_input'):
            return one(T('call', CRS + 'from_user_input', *a[1:]))
        if o == 'call' and a[0] == CRS + 'from_user_input' and len(a) == 2 and isinstance(a[1], T):
            if a[1].op == 'kw':
                return T('call', a[0], a[1].args[1])
            if a[1].op == 'call' and a[1].args[0].startswith(CRS):
                return a[1]
        if o == 'call' and a[0] in (CRS + 'from_epsg', CRS + 'from_user_input') and len(a) == 2:
            v = num(a[1]) if isinstance(a[1], T) else None
            if v is not None:
                return T('call', CRS + 'from_epsg', C(int(v)))
        if o == 'call' and a[0] == CRS + 'from_string' and len(a) == 2 and (sval(a[1]) or '').upper().startswith('EPSG:'):
            return T('call', CRS + 'from_epsg', C(int(sval(a[1])[5:])))
        if o in ('call', 'meth') and any(isinstance(y, T) and y.op == 'kw' for y in a):
            kws = {y.args[0]: y.args[1] for y in a if isinstance(y, T) and y.op == 'kw'}
            rest = [y for y in a if not (isinstance(y, T) and y.op == 'kw')]
            if o == 'call' and a[0] in ('pyproj.Transformer.from_crs', 'pyproj.transformer.Transformer.from_crs'):
                for n in ('crs_from', 'crs_to'):
                    if n in kws:
                        rest.append(kws.pop(n))
            if o == 'meth' and a[0] == 'transform':
                for n in ('xx', 'yy'):
                    if n in kws:
                        rest.append(kws.pop(n))
                d = kws.get('direction')
                if d is not None and (sval(d) or '').upper() in DIRECTION:
                    kws['direction'] = DIRECTION[sval(d).upper()]
                if kws.get('direction') is DIRECTION['FORWARD']:
                    del kws['direction']
            return T(o, *rest, *[T('kw', n, kws[n]) for n in sorted(kws)])
        return x
    return rewrite(t, one)


def system(P):
    return T('call', CRS + 'from_user_input', P)


def transformed(x, y, source, to, direction='FORWARD', **options):
    """the two coordinates a transformer gives"""
    options = dict(options, direction=direction if isinstance(direction, T) else DIRECTION[direction])
    t = T('call', 'pyproj.Transformer.from_crs', source, to, T('kw', 'always_xy', TRUE))
    r = T('meth', 'transform', t, x, y, *[T('kw', n, options[n]) for n in sorted(options)])
    return T('tuple', T('idx', r, C(0)), T('idx', r, C(1)))


class Failing:
    """calls of some ways to read a system raise an exception"""
    def __init__(self, ways, kind):
        self.ways, self.kind, self.flag = ways, kind, False

    def __call__(self, I, f, a, k, st, node):
        if f.op == 'exc':
            if not self.flag and not I.definite:
                return FALSE
            names = [n.strip(' ()').split('.')[-1] for n in f.args[0].split(',')]
            if {'Exception', 'BaseException', self.kind if self.flag else 'CRSError'} & set(names):
                self.flag = False
                return TRUE
            return FALSE
        if f.op == 'ext' and not self.flag and f.args[0] in ['pyproj.CRS.' + w for w in self.ways] + (['pyproj.CRS'] if 'from_user_input' in self.ways else []):
            self.flag = True
        return None


def reading(ctx, qual, ways, kind):
    """value of a reading in which some ways fail; None when an exception ends it"""
    c = Failing(ways, kind)
    fn = ctx.repo.func(qual)
    I = Interp(ctx.repo, on_call=c)
    v, st = I.run(fn, kwargs=dict(P=S('P')))
    ctx.analysed(*[q for q in I.inlined if not q.startswith('spec.')])
    if c.flag:
        return None, kind
    if v is None or v.op in ('raise', 'bottom', 'noreturn', 'undef') or v is UNDEF:
        return None, show(v, 4)
    return v, ''


def run(ctx):
    ctx.rule('transform', 'coordinates are transformed between the two systems, easting and longitude first', 12)
    ctx.rule('direction', 'the direction is that of the last conversion, and the one that is given', 8)
    ctx.rule('system', 'a system is read from each of the forms it can be given in', 6)
    ctx.rule('attribute', 'attributes of a system', 3)
    ctx.rule('axes', 'transformers have longitudes and eastings first', 12)
    x, y, P, E = S('x'), S('y'), S('P'), S('E')
    Q, R, D = S('Q'), S('R'), S('D')

    def check(rule, name, q, expected, **kw):
        with ctx.case(name):
            v = value(ctx, SPEC + q, kwargs=kw)
            fn = C_ + ('convert' if q in ('converted', 'again') else 'get' if q in ('attributes', 'geographic', 'assigned') else 'transform')
            v = T('tuple', *[T('idx', v, C(k)) for k in (0, 1)]) if v.op == 'meth' and v.args[0] == 'transform' else v
            compare(ctx, rule, name, canonical(v), canonical(expected), NF(), where(ctx, fn))
    check('transform', 'transform', 'transformed', transformed(x, y, system(E), system(P)))
    check('transform', 'transform:default', 'default', transformed(x, y, system(WGS84), system(P)))
    check('transform', 'transform:options', 'optional', transformed(x, y, system(WGS84), system(P), radians=R), R=R)
    for k in ('FORWARD', 'INVERSE'):
        check('direction', 'given:' + k, 'directed', transformed(x, y, system(E), system(P), DIRECTION[k]), D=DIRECTION[k])
        check('direction', 'given:' + k.lower(), 'directed', transformed(x, y, system(E), system(P), k), D=C(k))
    for k, words in (('FORWARD', ('F', 'f', 'forward', 'Forwards', 'FORWARD')), ('INVERSE', ('B', 'b', 'backward', 'Backwards', 'BACKWARD'))):
        for w in words:
            check('transform', 'convert:' + w, 'converted', transformed(x, y, system(E), system(P), k), BF=C(w))
        for first in ('F', 'b'):
            check('direction', f'convert:{first},{words[0]}', 'again', transformed(x, y, system(WGS84), system(P), k), first=C(first), then=C(words[0]))
    check('attribute', 'is_geographic', 'geographic', T('attr', 'is_geographic', system(P)))
    name = T('attr', 'name', system(P))
    check('attribute', 'name', 'attributes', T('tuple', name, system(P), name, system(P)))
    check('attribute', 'assignment', 'assigned', S('v'), v=S('v'))
    # ways to read a system
    number = T('call', CRS + 'from_epsg', T('call', 'int', P))
    for ways, required in (((), (system(P), T('call', CRS + 'from_string', P))), (('from_user_input',), (number, T('call', CRS + 'from_string', P))), (('from_user_input', 'from_string'), (number,)),
                           (('from_user_input', 'from_string', 'from_epsg'), ())):
        for q, fn in (('read', 'from_input'), ('got' if required else 'held', 'get')):
            for kind in ('CRSError', 'ValueError') if ways else ('CRSError',):
                tag = f'{fn}:{"+".join(ways) or "none"}:{kind}' if ways else fn
                with ctx.case(tag):
                    v, why = reading(ctx, SPEC + q, ways, kind)
                    if not required:
                        ok = v is None
                        d = 'no system is read: the exception is raised' if ok else f'a system that cannot be read has the value {show(v, 5)}'
                    else:
                        ok = v is not None and any(canonical(v) is canonical(r) for r in required)
                        d = f'read as {show(v, 5) if v is not None else why}; required {show(required[0], 5)}'
                    ctx.ob('system', tag, ok, d, where(ctx, C_ + fn))
    # transformers of the package
    for m in sorted(ctx.repo.modules):
        if m.startswith('spec.'):
            continue
        mod = ctx.repo.modules[m]
        for f in [n for n in ast.walk(mod.tree) if isinstance(n, ast.FunctionDef)]:
            sites = [n for n in ast.walk(f) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'from_crs' and 'ransformer' in ast.unparse(n.func.value)]
            for k, n in enumerate(sorted(sites, key=lambda n: n.lineno)):
                kw = {k.arg: k.value for k in n.keywords}
                if None in kw:
                    continue
                v = kw.get('always_xy')
                ok = v is not None and not (isinstance(v, ast.Constant) and not v.value)
                ctx.ob('axes', f'{m}.{f.name}[{k}]', ok, 'longitude and easting are first' if ok else 'order of the axes is that of the authority of the systems: latitudes come first', f'{mod.path}:{n.lineno}')
