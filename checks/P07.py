"""P07 compound constituents"""
from .common import *
from .P06 import entry, N, P
from spec.compound import COMPOUND

EXPLANATION = ('Static equivalence: for every compound constituent and correction family, the amplitude factor is reduced to a monomial in the '
               'amplitude factors of the parent constituents and the nodal phase to an integer combination of theirs, and compared with the '
               'composition table; parents are the same function evaluated with the same node, perigee and correction family.')
Q = 'pyTMD.arguments.nodal'


def symbolic(family):
    """a column of a recursive call becomes the symbol f_<parent> / u_<parent>"""
    def parent(call, j):
        kw = {a.args[0]: a.args[1] for a in call.args[1:] if isinstance(a, T) and a.op == 'kw'}
        if kw.get('n') != N or kw.get('p') != P or sval(kw.get('corrections')) != family:
            return None
        L = kw.get('constituents')
        if L.op == 'const' and j == 0:
            return sval(L)
        if L.op in ('list', 'tuple') and 0 <= j < len(L.args):
            return sval(L.args[j])

    def f(t):
        if t.op == 'idx' and t.args[0].op == 'idx' and t.args[0].args[0].op == 'call' and t.args[0].args[0].args[0] == Q:
            k, ix = num(t.args[0].args[1]), t.args[1]
            if k in (0, 1) and ix.op == 'tuple' and len(ix.args) == 2 and num(ix.args[1]) is not None:
                c = parent(t.args[0].args[0], int(num(ix.args[1])))
                if c is not None:
                    return S('uf'[int(k)] + '_' + c)
        return t
    return lambda t: rewrite(t, f)


def expand(ctx, family):
    memo = {}

    def f(t):
        if t.op == 'sym' and t.args[0][:2] in ('f_', 'u_'):
            c = t.args[0][2:]
            if c not in memo:
                memo[c] = entry(ctx, c, family).args
            return memo[c][0 if t.args[0][0] == 'f' else 1]
        return t
    return lambda t: rewrite(t, f)


def required(comp):
    f, u = C(1), C(0)
    for c, e, m in comp:
        f = T('mul', f, T('pow', S('f_' + c), C(e)))
        u = T('add', u, T('mul', C(m), S('u_' + c)))
    return f, u


def run(ctx):
    ctx.rule('composition', 'amplitude factor = product of powers of the parents\'; nodal phase = signed sum of the parents\'', 800)
    W = where(ctx, Q)
    fams = ('OTIS', 'GOT', 'FES') if ctx.tier == 'quick' else ('OTIS', 'ATLAS', 'TMD3', 'netcdf', 'GOT', 'EOT', 'FES', 'perth3')
    for family in fams:
        sym, exp = symbolic(family), expand(ctx, family)
        nf = NF()
        for comp, names in COMPOUND:
            req = required(comp)
            for c in names:
                with ctx.case(f'{family}:{c}'):
                    got = entry(ctx, c, family).args
                    for k, part in enumerate('fu'):
                        a, b = sym(got[k]), req[k]
                        if not nf.equal(nf.nf(a), nf.nf(b)):
                            n2 = NF()
                            if n2.equal(n2.nf(exp(a)), n2.nf(exp(b))):
                                ctx.ob('composition', f'{family}:{c}[{part}]', True, 'equal after expanding the parents', W)
                                continue
                        compare(ctx, 'composition', f'{family}:{c}[{part}]', a, b, nf, W, {'f': 'amplitude factor', 'u': 'nodal phase'}[part])
