"""Comparison of the value numbers of repository functions with reference definitions."""
from .interp import Interp, getattr_term, ite, tnot, tand, tor
from .nf import NF, ERASE_CALL, ERASE_METH
from .repo import AnalysisBroken
from .term import T, C, S, NONE, TRUE, FALSE, walk, rewrite, show, num

UNMODELLED = {'mu', 'opaque', 'callv', 'while', 'closure', 'muvar'}
FULL = T('slice', NONE, NONE, NONE)


def col(k):
    """index of column k: x[:, k]"""
    return T('tuple', FULL, C(k))


def value(ctx, qual, args=None, kwargs=None, opaque=(), starkw=None, selfobj=None, on_call=None, interp=None, on_attr=None):
    fn = ctx.repo.func(qual)
    I = interp or Interp(ctx.repo, opaque=opaque, on_call=on_call)
    if on_attr is not None:
        I.on_attr = on_attr
    v, st = I.run(fn, args=args, kwargs=kwargs, starkw=starkw, selfobj=selfobj)
    if not qual.startswith('spec.'):
        ctx.analysed(qual, *[q for q in I.inlined if not q.startswith('spec.')])
    return v


def unmodelled(t):
    return sorted({x.op for x in walk(t) if x.op in UNMODELLED})


def compare(ctx, rule, construct, a, b, nf, where='', what='value', variants=None):
    """one obligation: two terms have the same normal form.  variants: values of recorded defects, which are told apart by the key of the finding"""
    A, B = nf.nf(a), nf.nf(b)
    same = nf.equal(A, B)
    if not same:
        for tag, v in (variants or {}).items():
            if nf.equal(A, nf.nf(v)):
                construct = f'{construct}:{tag}'
        u = unmodelled(a)
        if u and not unmodelled(b):
            raise AnalysisBroken(f'{construct}: construct outside the modelled subset ({", ".join(u)})')
    d = f'{what}: {nf.show(A, 4)}' if same else f'{what} differs from the reference: found {nf.show(A, 6)} ; required {nf.show(B, 6)} ; difference {nf.show(nf.sub(A, B), 5)}'
    ctx.ob(rule, construct, same, d[:1500], where)
    return same


def truth(c):
    return c if num(c) is None else TRUE if num(c) else FALSE


def elementwise(t, nf, memo=None):
    """read elements of array expressions where they are known"""
    memo = {} if memo is None else memo

    def one(x):
        r = x
        if x.op == 'ite':
            r = ite(truth(x.args[0]), *x.args[1:])
        elif x.op in ('and', 'or', 'not'):
            r = {'not': tnot, 'and': tand, 'or': tor}[x.op](*map(truth, x.args))
        elif x.op == 'idx' and x.args[0].op == 'setattr' and x.args[0].args[1] in ('data', 'mask'):
            r = T('idx', getattr_term(x.args[0], 'data'), x.args[1])
        elif x.op == 'idx':
            e = nf.elem(*x.args)
            r = x if e is None else e
        elif x.op == 'attr' and x.args[0] in ('data', 'mask'):
            r = getattr_term(x.args[1], x.args[0])
        elif x.op == 'call' and x.args[0] in nf.erase and len(x.args) > 1 and x.args[1].op not in ('list', 'tuple', 'dict', 'kw'):
            r = x.args[1]
        elif x.op == 'meth' and x.args[0] in ERASE_METH:
            r = x.args[1]
        elif x.op == 'fill' and nf.pointwise:
            r = x.args[1]
        elif x.op == 'call' and x.args[0] in ('numpy.sum', 'numpy.any', 'numpy.all') and len(x.args) == 2:
            parts = nf.chosen(x.args[1])
            if parts is not None and x.args[0] == 'numpy.sum':
                r = nf.addup([ite(c, y, C(0)) for c, y in parts])
            elif parts is not None:
                r = tor(*[tand(c, y) for c, y in parts]) if x.args[0] == 'numpy.any' else tand(*[tor(tnot(c), y) for c, y in parts])
        return r if r is x else elementwise(r, nf, memo)
    return rewrite(t, one, memo)


def gates(t):
    """conditions of a term which contain no gated value themselves, innermost first"""
    inner = {}

    def gated(x):
        if x.id not in inner:
            inner[x.id] = x.op == 'ite' or any(gated(y) for y in x.args if isinstance(y, T))
        return inner[x.id]
    for x in walk(t):
        if x.op == 'ite' and not gated(x.args[0]):
            c = x.args[0]
            while c.op in ('not', 'and', 'or'):
                c = c.args[0]
            return c
    return None


def condition(nf, x):
    memo = nf.__dict__.setdefault('conditions', {})
    if x.id not in memo:
        memo[x.id] = nf.vid(nf.bool(x))
    return memo[x.id]


def settle(t, truth, nf):
    """replace conditions whose normal form is decided"""
    same = {g[2].id: g[1] for g in truth}
    memo = {}

    def gated(x):
        if x.id not in memo:
            memo[x.id] = x.op == 'ite' or any(gated(y) for y in x.args if isinstance(y, T))
        return memo[x.id]

    def known(x):
        """a condition, or its value where it is decided"""
        if x.op in ('c', 'not', 'and', 'or') or gated(x):
            return x
        p = condition(nf, x)
        for q, v, _ in truth:
            if p == q[1]:
                return TRUE if v else FALSE
            if p == q[2]:
                return FALSE if v else TRUE
        if p == nf.vid({}):
            return FALSE
        if p == nf.vid(nf.const(1)):
            return TRUE
        return x

    def one(x):
        if x.id in same:
            return TRUE if same[x.id] else FALSE
        if x.op == 'ite':
            return ite(known(x.args[0]), *x.args[1:])
        if x.op in ('not', 'and', 'or'):
            return {'not': tnot, 'and': tand, 'or': tor}[x.op](*map(known, x.args))
        if x.op == 'cmp' or x.op == 'idx' and x.args[0].op == 'attr' and x.args[0].args[0] == 'mask' or x.op == 'call' and x.args[0] in ('numpy.any', 'numpy.all', 'numpy.isclose', 'numpy.isnan', 'numpy.isfinite', 'numpy.isinf'):
            return known(x)
        return x
    return rewrite(t, one)


def decided(truth, c, v, q, nf):
    """decisions after one more, which may be part of the conditions of earlier ones"""
    out = []
    for r, w, g in truth:
        if any(y is c for y in walk(g)):
            g = settle(g, ((q, v, c),), nf)
            r = quantity(g, nf)
        out.append((r, w, g))
    return tuple(out) + ((q, v, c),)


def quantity(c, nf):
    q = nf.bool(c)
    return q, nf.vid(q), nf.vid(nf.sub(nf.const(1), q))


def feasible(truth, nf, memo):
    """no array without true elements has a true element at a point"""
    ids = {q[1] if v else q[2] for q, v, _ in truth}
    for _, v, c in truth:
        if not v and c.op == 'call' and c.args[0] == 'numpy.any' and len(c.args) == 2:
            x = elementwise(T('idx', c.args[1], S('p')), nf, memo)
            for y in (x.args if x.op == 'or' else (x,)):
                if nf.vid(nf.bool(y)) in ids:
                    return False
    return True


def compare_cases(ctx, rule, construct, a, b, nf, where='', limit=4000):
    """one obligation: two gated terms have the same normal form under every combination of their conditions"""
    memo = {}
    work, n = [(elementwise(a, nf, memo), elementwise(b, nf, memo), ())], 0
    while work:
        x, y, truth = work.pop()
        c = gates(T('tuple', x, y))
        if c is None:
            n += 1
            A, B = nf.nf(x), nf.nf(y)
            if not nf.equal(A, B) and feasible(truth, nf, memo):
                when = ' and '.join(('' if v else 'not ') + nf.show(q[0], 3) for q, v, _ in truth)
                ctx.ob(rule, construct, False, f'when {when}: found {nf.show(A, 5)} ; required {nf.show(B, 5)}'[:1500], where)
                return False
            continue
        if n > limit:
            raise AnalysisBroken(f'{construct}: more than {limit} cases')
        q = quantity(c, nf)
        for v in (True, False):
            known = decided(truth, c, v, q, nf)
            work.append((settle(x, known, nf), settle(y, known, nf), known))
    ctx.ob(rule, construct, True, f'equal in {n} cases', where)
    return True


def strip(t):
    """through shape-only calls"""
    while True:
        if t.op == 'call' and t.args[0] in ERASE_CALL and len(t.args) > 1:
            t = t.args[1]
        else:
            return t


def data_of(t):
    t = strip(t)
    return getattr_term(t, 'data')


def mask_of(t):
    t = strip(t)
    return getattr_term(t, 'mask')


def spread(t):
    """gated tuples as tuples of gated values"""
    if t.op == 'ite':
        x, y = spread(t.args[1]), spread(t.args[2])
        if x.op in ('tuple', 'list') and y.op in ('tuple', 'list') and len(x.args) == len(y.args):
            return T('tuple', *[ite(t.args[0], p, q) for p, q in zip(x.args, y.args)])
    return t


def compare_all(ctx, rule, construct, a, b, nf, where='', names=None, variants=None):
    """component-wise comparison of tuples / dicts / lists"""
    a, b = spread(a), spread(b)
    variants = {k: spread(v) for k, v in (variants or {}).items()}
    if b.op in ('tuple', 'list'):
        if a.op not in ('tuple', 'list') or len(a.args) != len(b.args):
            ctx.ob(rule, construct, False, f'returns {show(a, 2)[:200]} where {len(b.args)} components are required', where)
            return
        for k, (x, y) in enumerate(zip(a.args, b.args)):
            compare_all(ctx, rule, f'{construct}[{names[k] if names else k}]', x, y, nf, where, variants={t: v.args[k] for t, v in variants.items()})
        return
    compare(ctx, rule, construct, a, b, nf, where, variants=variants)
