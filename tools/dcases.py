"""first failing case of a check, drilled down to the smallest differing parts (debugging aid): dcases.py P19 [construct prefix]"""
import sys
import pathlib
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
import resource
resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
sys.setrecursionlimit(100000)
import importlib
import sa.equiv as E
import sa.report
from sa.term import T, show

PREFIX = sys.argv[2] if len(sys.argv) > 2 else ''
LIMIT = [int(sys.argv[3]) if len(sys.argv) > 3 else 3]


def drill(x, y, nf, path, out, seen):
    if (x.id, y.id) in seen or len(out) > 4:
        return
    seen.add((x.id, y.id))
    try:
        if nf.equal(nf.nf(x), nf.nf(y)):
            return
    except Exception:
        if x is y:
            return
    if x.op == y.op and len(x.args) == len(y.args) and (x.op not in ('call', 'meth', 'attr', 'kw') or x.args[0] == y.args[0]):
        n = len(out)
        for k, (p, q) in enumerate(zip(x.args, y.args)):
            if isinstance(p, T) and isinstance(q, T):
                tag = x.op + (':' + str(x.args[0]) if x.op in ('call', 'meth', 'attr', 'kw') else '') + f'[{k}]'
                drill(p, q, nf, path + [tag], out, seen)
        if len(out) > n:
            return
    out.append((path, x, y))


def report(name, x, y, nf, truth=()):
    if LIMIT[0] <= 0 or not name.startswith(PREFIX):
        return
    LIMIT[0] -= 1
    print('==', name)
    for c, v in truth:
        print('   ', v, show(c, 3)[:160])
    out = []
    drill(x, y, nf, [], out, set())
    for path, p, q in out[:3]:
        print('  at', '/'.join(path)[-300:])
        print('     FOUND', show(p, 6)[:700])
        print('     REQ  ', show(q, 6)[:700])


def cases(ctx, rule, construct, a, b, nf, where='', limit=4000):
    memo = {}
    work, n = [(E.elementwise(a, nf, memo), E.elementwise(b, nf, memo), ())], 0
    while work:
        x, y, truth = work.pop()
        c = E.gates(T('tuple', x, y))
        if c is None:
            n += 1
            if not nf.equal(nf.nf(x), nf.nf(y)) and E.feasible(truth, nf, memo):
                report(construct, x, y, nf, [(c, v) for _, v, c in truth])
                return False
            continue
        if n > limit:
            print('== too many cases', construct)
            return
        q = E.quantity(c, nf)
        for v in (True, False):
            known = E.decided(truth, c, v, q, nf)
            work.append((E.settle(x, known, nf), E.settle(y, known, nf), known))
    ctx.ob(rule, construct, True)
    return True


def one(ctx, rule, construct, a, b, nf, where='', what='', variants=None):
    if not nf.equal(nf.nf(a), nf.nf(b)):
        report(construct, a, b, nf)
        return False
    ctx.ob(rule, construct, True)
    return True


if __name__ == '__main__':
    E.compare_cases, E.compare = cases, one
    import checks.common
    checks.common.compare = one
    P = importlib.import_module('checks.' + sys.argv[1])
    for m in list(sys.modules.values()):
        if getattr(m, '__name__', '').startswith('checks.'):
            for k, f in (('compare_cases', cases), ('compare', one)):
                if hasattr(m, k):
                    setattr(m, k, f)
    ctx = sa.report.Ctx(sys.argv[1], 'quick')
    P.run(ctx)
    print(len(ctx.obs), 'ok;', [b[:300] for b in ctx.broken])
