"""P08 tables of the tidal constituents"""
import hashlib
import itertools
import json
import re
from .common import *
from sa.report import ROOT
from spec import tables as ref

EXPLANATION = ('Static table analysis: every row of the distributed coefficient table is compared with the reference copy and with the composition that its '
               'name states (multiples of the parent coefficients, phases modulo 360 degrees); the literal parameter table is resolved per constituent by '
               'constant propagation; Love numbers and Doodson number encodings are compared with their definitions as value numbers.')
A = 'pyTMD.arguments.'
TOKENS = {'m': ['m2'], 's': ['s2', 's1'], 'n': ['n2'], 'nu': ['nu2'], 'mu': ['mu2'], 'k': ['k1', 'k2'], 'l': ['l2'], 't': ['t2'], 'r': ['r2'],
          'o': ['o1'], 'p': ['p1'], 'q': ['q1'], 'j': ['j1'], 'rho': ['rho1'], 'oo': ['oo1']}


def parse(body, mult=1):
    """[(multiplicity, letter)] of a compound name"""
    i, out = 0, []
    while i < len(body):
        m = re.match(r'(\d*)(\(([a-z]+)\)|nu|mu|rho|oo|[msnkltropqj])', body[i:])
        if not m:
            return None
        k = int(m.group(1) or 1) * mult
        if m.group(3):
            sub = parse(m.group(3), k)
            if sub is None:
                return None
            out += sub
        else:
            out.append((k, m.group(2)))
        i += m.end()
    return out


def compositions(name, table):
    """coefficient rows that the name allows, or None when the name is not that of a compound"""
    m = re.fullmatch(r'(.*?)(\d+)', name)
    toks = parse(m.group(1)) if m else None
    if not toks or len(toks) < 2 or any(p not in table for k, a in toks for p in TOKENS[a]):
        return None
    rows = []
    for combo in itertools.product(*[[(s * k, x) for s in (1, -1) for x in TOKENS[a]] for k, a in toks]):
        D = [sum(k * table[x][i] for k, x in combo) for i in range(7)]
        if D[0] == int(m.group(2)):
            rows.append(D)
    return rows


def run(ctx):
    ctx.rule('coefficients', 'the Doodson coefficients of a constituent are those of the reference table', 480)
    ctx.rule('composition', 'the coefficients of a compound constituent are the combination of its components named by it', 280)
    ctx.rule('parameters', 'amplitude, phase, frequency, load factor and species of a constituent', 165)
    ctx.rule('consistency', 'the tabulated frequency and phase agree with the Doodson combination of the longitudes at 1992', 33)
    ctx.rule('unsupported', 'constituents without parameters give zeros, or an error when one is requested', 2)
    ctx.rule('love', 'Love numbers of the Earth model for the frequency (free core nutation resonance in the diurnal band)', 12)
    ctx.rule('encoding', 'Doodson numbers encode and decode the coefficients', 8)
    ctx.rule('potential', 'published tide potential tables are distributed unchanged, agree with their Doodson numbers and are read by column', 7)
    ctx.rule('order', 'order of the table of equilibrium arguments', 1)
    path = ctx.repo.root / 'pyTMD' / 'data' / 'doodson.json'
    ctx.require(path.exists(), f'{path} not found')
    try:
        table = json.loads(path.read_text(encoding='utf8'))
    except ValueError as e:
        ctx.ob('coefficients', 'file', False, f'not a JSON document: {e}', 'pyTMD/data/doodson.json')
        return
    want = json.loads((ROOT / 'spec' / 'doodson_reference.json').read_text(encoding='utf8'))
    W = 'pyTMD/data/doodson.json'
    for c, row in want.items():
        got = table.get(c)
        ctx.ob('coefficients', c, got is not None and [float(x) for x in got] == [float(x) for x in row], f'{c}: {got}, reference {row}', W)
    for c, row in table.items():
        if c in ref.EXEMPT or c in want and [float(x) for x in row] != [float(x) for x in want[c]]:
            continue
        rows = compositions(c, table)
        if rows is None:
            continue
        ok = any(r[:6] == row[:6] and (r[6] - row[6]) % 4 == 0 for r in rows)
        ctx.ob('composition', c, ok, f'{c}: {row} is no signed combination of its components', W)
    digest = json.loads((ROOT / 'spec' / 'potential_digest.json').read_text(encoding='utf8'))
    for name, want_rows in digest.items():
        p = ctx.repo.root / 'pyTMD' / 'data' / name
        ctx.require(p.exists(), f'{p} not found')
        lines = p.read_text(encoding='utf8').splitlines()
        n = len(want_rows) // 6
        bad = [k + 1 for k in range(n) if k >= len(lines) or hashlib.sha256(' '.join(lines[k].split()[:11]).encode()).hexdigest()[:6] != want_rows[6 * k:6 * k + 6]]
        ctx.ob('potential', name, not bad, f'lines {bad[:10]} differ from the published table', f'pyTMD/data/{name}')
        bad = []
        for k, r in enumerate(lines):
            x = r.split()
            try:
                co = [int(v) for v in x[:6]]
                code = str(co[0]) + ''.join('0123456789XE'[v + 5] for v in co[1:3]) + '.' + ''.join('0123456789XE'[v + 5] for v in co[3:])
                if code != x[9]:
                    bad.append(k + 1)
            except (ValueError, IndexError):
                bad.append(k + 1)
        ctx.ob('potential', name + ':doodson', not bad, f'lines {bad[:10]}: Doodson number does not encode the coefficients', f'pyTMD/data/{name}')
    q = A + '_parse_tide_potential_table'
    with ctx.case(q):
        a = T('idx', value(ctx, q, kwargs=dict(table=S('path'))), S('row'))
        b = value(ctx, 'spec.tables.potential_row', kwargs=dict(path=S('path'), k=S('row')))
        a = rewrite(a, lambda x: S('path') if x.op == 'call' and x.args[0] == 'pathlib.Path' and x.args[1] is S('path')
                    or x.op == 'meth' and x.args[0] in ('expanduser', 'absolute', 'resolve') and x.args[1] is S('path') else x)
        compare(ctx, 'potential', '_parse_tide_potential_table', a, b, NF(), where(ctx, q), 'row')
    Q = A + '_constituent_parameters'
    WQ = where(ctx, Q)
    NAMES = ('amplitude', 'phase', 'frequency', 'alpha', 'species')
    with ctx.case('parameters'):
        for c, row in ref.PARAMETERS.items():
            v = value(ctx, Q, kwargs=dict(c=C(c)))
            if v.op != 'tuple' or len(v.args) != 5:
                raise AnalysisBroken(f'{Q}: does not return five values')
            for k, nm in enumerate(NAMES):
                compare(ctx, 'parameters', f'{c}:{nm}', v.args[k], C(row[k]), NF(), WQ, nm)
        u = value(ctx, Q, kwargs=dict(c=C('M2')))
        for k, nm in enumerate(NAMES):
            compare(ctx, 'parameters', f'upper_case:{nm}', u.args[k], C(ref.PARAMETERS['m2'][k]), NF(), WQ, nm)
        u = value(ctx, Q, kwargs=dict(c=C('none')))
        for k, nm in enumerate(NAMES):
            compare(ctx, 'unsupported', f'zero:{nm}', u.args[k], C(0), NF(), WQ, nm)
        v, st = Interp(ctx.repo).run(ctx.repo.func(Q), kwargs=dict(c=C('none'), raise_error=TRUE))
        ctx.ob('unsupported', 'error', raises(v), f'value {v}', WQ)
    # frequencies and phases of the reference parameters against the reference table (mean longitudes at 1992-01-01)
    import math
    rate = [360.0 - 13.17639647 + 0.98564733, 13.17639647, 0.98564733, 0.11140408, -0.05295392, 0.00004708]
    T0 = 48622.0 - 51544.4993
    s = 218.3164 + 13.17639648 * T0
    h = 280.4661 + 0.98564736 * T0
    p = 83.3535 + 0.11140353 * T0
    n = 125.0445 - 0.05295377 * T0
    F = [h - s, s, h, p, n, 282.9384 + 0.0000470681 * T0, 90.0]
    for c, row in ref.PARAMETERS.items():
        co = want[c] if c != 's1' else [1, 1, -1, 0, 0, 0, 1]
        w = math.radians(sum(a * b for a, b in zip(co, rate))) / 86400.0
        g = math.radians(sum(a * b for a, b in zip(co, F)))
        d = (g - row[1] + math.pi) % (2 * math.pi) - math.pi
        ctx.ob('consistency', c, abs(w - row[2]) <= 2e-11 + 1e-6 * abs(w) and abs(d) < 1e-3 and int(co[0]) == row[4],
               f'{c}: frequency {w:.7e} tabulated {row[2]:.7e}; phase difference {d:.2e}; species {row[4]}', WQ)
    Q = A + '_love_numbers'
    for m in ('1066A', 'PEM-C', 'C2', 'PREM'):
        kw = dict(omega=S('omega'), model=C(m))
        same(ctx, 'love', m, Q, 'spec.tables.love', kwargs=kw, opaque=[A + 'frequency'])
    with ctx.case('love:default'):
        d = defaults(ctx, ctx.repo.func(Q)).get('model')
        ctx.ob('love', 'default', d is not None and sval(d) == 'PREM', f'default model {d}', where(ctx, Q))
    for q, sp, kw in (('_to_doodson_number', 'doodson', 'coef'), ('_from_doodson_number', 'from_doodson', 'DO'),
                      ('_to_extended_doodson', 'extended', 'coef'), ('_from_extended_doodson', 'from_extended', 'XDO')):
        extra = dict(raise_error=FALSE) if q == '_to_doodson_number' else {}
        with ctx.case(q):
            a = value(ctx, A + q, kwargs=dict({kw: S('x')}, **extra))
            compare(ctx, 'encoding', q, a, value(ctx, 'spec.tables.' + sp, args=[S('x')]), NF(), where(ctx, A + q))
    # the public function selects the formalism
    with ctx.case('doodson_number'):
        q = A + 'doodson_number'
        op = [A + x for x in ('coefficients_table', '_to_doodson_number', '_to_extended_doodson')]
        for f in ('Doodson', 'Cartwright', 'Extended', 'cartwright'):
            v = value(ctx, q, kwargs=dict(constituents=C('M2'), formalism=C(f)), opaque=op)
            calls = {x.args[0].rsplit('.', 1)[-1] for x in walk(v) if x.op == 'call' and str(x.args[0]).startswith('pyTMD')}
            need = {'Doodson': {'_to_doodson_number', 'coefficients_table'}, 'Extended': {'_to_extended_doodson', 'coefficients_table'},
                    'Cartwright': {'coefficients_table'}}[f.title()]
            low = any(x.op == 'call' and x.args[0] == A + 'coefficients_table' and x.args[1] in (C('m2'), kwof('constituents', C('m2'))) for x in walk(v))
            ctx.ob('encoding', f'doodson_number:{f}', calls == need and low, f'evaluates {sorted(calls)} for {f}: {show(v, 4)}', where(ctx, q))
    with ctx.case('order'):
        v = value(ctx, A + '_arguments_table', opaque=[A + 'coefficients_table'])
        names = None
        for x in walk(v):
            if x.op == 'kw' and x.args[0] == 'constituents':
                names = [sval(y) for y in x.args[1].args]
        ctx.ob('order', '_arguments_table', v.op == 'call' and names == ref.TABLE, f'constituents {names}', where(ctx, A + '_arguments_table'))


def kwof(k, v):
    return T('kw', k, v)


def raises(v):
    return v.op in ('undef', 'noreturn')
