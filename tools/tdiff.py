"""first structural differences of two terms (debugging aid)"""
from sa.term import T, show


def tdiff(a, b, path='', out=None, limit=8, seen=None):
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if a is b or len(out) >= limit or (id(a), id(b)) in seen:
        return out
    seen.add((id(a), id(b)))
    if not (isinstance(a, T) and isinstance(b, T)) or a.op != b.op or len(a.args) != len(b.args):
        s = lambda t: show(t, 3)[:300] if isinstance(t, T) else repr(t)
        out.append(f'{path}\n   A {s(a)}\n   B {s(b)}')
        return out
    for k, (x, y) in enumerate(zip(a.args, b.args)):
        if isinstance(x, T) or isinstance(y, T):
            tdiff(x, y, f'{path}/{a.op}.{a.args[0] if a.op in ("call","meth","kw","attr") else ""}{k}', out, limit, seen)
        elif x != y:
            out.append(f'{path}/{a.op}{k}: {x!r} != {y!r}')
    return out
