"""Global value numbering over the Python syntax tree.

A join-based abstract interpreter: every expression is mapped to a hash-consed term
(its value number), branches are merged with gated phi terms (`ite`), loops over
literal tables are unrolled, other loops are summarised (sum / per-index store /
map / general mu), and calls to functions of the analysed tree are inlined unless
declared opaque.  No path is enumerated and nothing is executed.
"""
import ast
import sys
from fractions import Fraction
from .term import T, C, S, NONE, TRUE, FALSE, ZERO, ONE, num, sval, is_const, rewrite, walk, emptyselection, subst
from .repo import AnalysisBroken, Func

sys.setrecursionlimit(20000)
UNDEF = T('undef')
MAXUNROLL = 600

ALLOC = {'numpy.' + n for n in (
    'zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like', 'empty_like', 'full_like', 'copy', 'array',
    'ma.zeros', 'ma.ones', 'ma.empty', 'ma.zeros_like', 'ma.ones_like', 'ma.empty_like', 'ma.array',
    'ma.masked_array', 'ma.copy', 'linspace', 'arange', 'identity', 'eye', 'ma.masked_all')}
SYN = {
    'math.pi': 'numpy.pi', 'math.sqrt': 'numpy.sqrt', 'math.sin': 'numpy.sin', 'math.cos': 'numpy.cos',
    'math.tan': 'numpy.tan', 'math.atan2': 'numpy.arctan2', 'math.atan': 'numpy.arctan', 'math.exp': 'numpy.exp',
    'math.radians': 'numpy.radians', 'math.degrees': 'numpy.degrees', 'numpy.deg2rad': 'numpy.radians',
    'numpy.rad2deg': 'numpy.degrees', 'numpy.concat': 'numpy.concatenate', 'numpy.absolute': 'numpy.abs', 'abs': 'numpy.abs',
    'numpy.fabs': 'numpy.abs', 'numpy.conjugate': 'numpy.conj', 'numpy.atan2': 'numpy.arctan2', 'numpy.asin': 'numpy.arcsin',
    'numpy.acos': 'numpy.arccos', 'numpy.atan': 'numpy.arctan', 'math.asin': 'numpy.arcsin', 'math.acos': 'numpy.arccos',
    'numpy.fmod': 'numpy.fmod', 'numpy.remainder': 'numpy.mod', 'numpy.ma.sqrt': 'numpy.sqrt', 'numpy.ma.abs': 'numpy.abs',
    'numpy.ma.sin': 'numpy.sin', 'numpy.ma.cos': 'numpy.cos', 'numpy.ma.where': 'numpy.where', 'numpy.ma.sum': 'numpy.sum',
    'numpy.ma.exp': 'numpy.exp', 'numpy.ma.arctan2': 'numpy.arctan2', 'numpy.amax': 'numpy.max', 'numpy.amin': 'numpy.min',
    'numpy.ma.shape': 'numpy.shape', 'numpy.ma.ravel': 'numpy.ravel', 'numpy.asanyarray': 'numpy.asarray',
}
BINCALL = {'numpy.pow': 'pow', 'numpy.add': 'add', 'numpy.subtract': 'sub', 'numpy.multiply': 'mul', 'numpy.divide': 'div',
           'numpy.true_divide': 'div', 'numpy.power': 'pow', 'numpy.float_power': 'pow', 'math.pow': 'pow',
           'numpy.mod': 'mod', 'numpy.floor_divide': 'fdiv', 'numpy.ma.multiply': 'mul', 'numpy.ma.add': 'add'}
CMPCALL = {'numpy.equal': '==', 'numpy.not_equal': '!=', 'numpy.less': '<', 'numpy.less_equal': '<=',
           'numpy.greater': '>', 'numpy.greater_equal': '>='}


def binop(op, a, b):
    x, y = num(a), num(b)
    if x is not None and y is not None:
        try:
            if op == 'add':
                return C(x + y)
            if op == 'sub':
                return C(x - y)
            if op == 'mul':
                return C(x * y)
            if op == 'div' and y != 0:
                return C(x / y)
            if op == 'fdiv' and y != 0:
                return C(Fraction(x // y))
            if op == 'mod' and y != 0:
                return C(x % y)
            if op == 'pow' and y.denominator == 1 and abs(y) <= 64 and not (x == 0 and y < 0):
                return C(x ** int(y))
        except Exception:
            pass
    if op == 'add':
        s, t = sval(a), sval(b)
        if s is not None and t is not None:
            return C(s + t)
        if a.op == 'list' and b.op == 'list':
            return T('list', *(a.args + b.args))
        if a.op == 'tuple' and b.op == 'tuple':
            return T('tuple', *(a.args + b.args))
        if x == 0 and y is None and b.op not in ('list', 'tuple'):
            return b
        if y == 0 and x is None and a.op not in ('list', 'tuple'):
            return a
    if op == 'mul':
        n, l = (x, b) if x is not None else (y, a)
        if n is not None and l.op in ('list', 'tuple') and n.denominator == 1 and 0 <= n <= 500:
            return T(l.op, *(l.args * int(n)))
        if n is not None and sval(l) is not None:
            return C(sval(l) * int(n))
        if x == 1:
            return b
        if y == 1:
            return a
    if op == 'mod' and sval(a) is not None:
        return T('strfmt', a, b)
    return T(op, a, b)


def ite(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    t = T('ite', c, a, b)
    return a if emptyselection(t) else t


def tnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    return T('not', c)


def tand(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE or c in out:
            continue
        if c.op == 'and':
            out += [x for x in c.args if x not in out]
        else:
            out.append(c)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else T('and', *out)


def tor(*cs):
    out = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE or c in out:
            continue
        if c.op == 'or':
            out += [x for x in c.args if x not in out]
        else:
            out.append(c)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else T('or', *out)


def truth(t):
    """True / False / None(unknown)"""
    if t.op == 'c':
        return bool(t.args[0])
    if t.op in ('list', 'tuple'):
        if t.args and all(x.op == 'when' for x in t.args):
            return None
        return bool(t.args)
    if t.op == 'dict' and t.args[0] is NONE:
        return len(t.args) > 1
    if t.op in ('fn', 'cls', 'ext', 'module', 'closure', 'obj', 'match'):
        return True
    return None


class State:
    __slots__ = ('env', 'heap', 'pc')

    def __init__(self, env=None, heap=None, pc=()):
        self.env, self.heap, self.pc = env if env is not None else {}, heap if heap is not None else {}, pc

    def clone(self, *conds):
        return State(dict(self.env), dict(self.heap), self.pc + tuple(conds))


class Flow:
    __slots__ = ('fall', 'exits')

    def __init__(self, fall, exits=()):
        self.fall, self.exits = fall, list(exits)


class Unbounded(Exception):
    """a loop whose bound is not known"""


def outside(b, idx):
    """constant index beyond the constant dimensions of a new array"""
    while b.op in ('store', 'storeloop', 'setattr'):
        b = b.args[1 if b.op == 'storeloop' else 0]
    if not (b.op == 'call' and b.args[0] in ('numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full', 'numpy.ma.zeros') and len(b.args) > 1):
        return False
    dims = b.args[1].args if b.args[1].op in ('tuple', 'list') else (b.args[1],)
    for d, i in zip(dims, idx.args if idx.op == 'tuple' else (idx,)):
        if i.op == 'slice':
            continue
        if num(i) is None or isinstance(i.args[0], bool):
            return False
        if num(d) is not None and not -num(d) <= num(i) < num(d):
            return True
    return False


class PathRaises(Exception):
    """the evaluated call returns on no path"""


class Interp:
    def __init__(self, repo, opaque=(), on_call=None, budget=400000, open_kwargs=True):
        self.repo = repo
        self.opaque = set(opaque)
        self.on_call = on_call
        self.on_stmt = None
        self.strict = False      # a missing key of a known mapping ends the path
        self.unroll = MAXUNROLL
        self.recursion = 0       # how often a function may call itself before the call is uninterpreted
        self.on_attr = None      # (base term, name) -> term or None
        self.budget = budget
        self.steps = 0
        self.nref = 0
        self.closures = {}
        self.stack = []
        self.depth = 0
        self.loopdepth = 0
        self.nmu = 0
        self.raises = []      # (func qual, pc, exception text, node)
        self.undefs = []      # (func, name, node, term)
        self.inlined = set()
        self.globals_cache = {}
        self.unknown = []
        self.gheap = {}
        self.node = None

    # ------------------------------------------------------------ heap
    def alloc(self, st, content):
        self.nref += 1
        r = T('ref', self.nref)
        st.heap[self.nref] = content
        return r

    def rd(self, v, st):
        """contents of a reference (one level)"""
        if v.op == 'ref':
            c = st.heap.get(v.args[0])
            if c is None:
                c = self.gheap.get(v.args[0])
            return v if c is None else c
        if v.op == 'ite' and (v.args[1].op in ('ref', 'ite') or v.args[2].op in ('ref', 'ite')):
            return ite(v.args[0], self.rd(v.args[1], st), self.rd(v.args[2], st))
        return v

    def deep(self, v, st, memo=None, depth=0):
        """replace every reference inside a term by its contents"""
        if not isinstance(v, T):
            return v
        memo = {} if memo is None else memo
        if v.id in memo:
            return memo[v.id]
        if depth > 60:
            return v
        memo[v.id] = v
        if v.op == 'ref':
            c = st.heap.get(v.args[0], self.gheap.get(v.args[0]))
            r = v if c is None else self.deep(c, st, memo, depth + 1)
        elif any(isinstance(a, T) for a in v.args):
            new = tuple(self.deep(a, st, memo, depth) for a in v.args)
            r = v if all(x is y for x, y in zip(new, v.args)) else self.rebuild(v.op, new)
        else:
            r = v
        memo[v.id] = r
        return r

    def rebuild(self, op, args):
        if op in ('add', 'sub', 'mul', 'div', 'pow', 'mod'):
            return binop(op, *args)
        if op == 'ite':
            return ite(*args)
        return T(op, *args)

    # ------------------------------------------------------------ running functions
    def merge(self, cond, a, b):
        """phi of two states"""
        env = {}
        for k in list(a.env) + [k for k in b.env if k not in a.env]:
            if k in env:
                continue
            x, y = a.env.get(k, UNDEF), b.env.get(k, UNDEF)
            env[k] = x if x is y else ite(cond, x, y)
        heap = dict(b.heap)
        for k, x in a.heap.items():
            y = b.heap.get(k)
            heap[k] = x if (y is None or y is x) else self.merge_content(cond, x, y)
        return State(env, heap, ())

    def merge_content(self, cond, x, y):
        if x.op == 'obj' and y.op == 'obj' and x.args[0] == y.args[0]:
            dx = {kv.args[0]: kv.args[1] for kv in x.args[1:]}
            dy = {kv.args[0]: kv.args[1] for kv in y.args[1:]}
            out = []
            for k in list(dx) + [k for k in dy if k not in dx]:
                u, v = dx.get(k, UNDEF), dy.get(k, UNDEF)
                out.append(T('kv', k, u if u is v else ite(cond, u, v)))
            return T('obj', x.args[0], *out)
        if x.op == 'dict' and y.op == 'dict' and x.args[0] is y.args[0]:
            dx = {kv.args[0]: kv.args[1] for kv in x.args[1:]}
            dy = {kv.args[0]: kv.args[1] for kv in y.args[1:]}
            out = []
            for k in list(dx) + [k for k in dy if k not in dx]:
                u, v = dx.get(k, UNDEF), dy.get(k, UNDEF)
                out.append(T('kv', k, u if u is v else ite(cond, u, v)))
            return T('dict', x.args[0], *out)
        return ite(cond, x, y)

    def bind(self, fn, args, kws, st, starkw=None):
        """argument binding; returns env dict. args: list of T, kws: dict name->T, starkw: rest term"""
        a = fn.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        names = pos + [x.arg for x in a.kwonlyargs]
        args = list(args)
        for n in pos:
            if args:
                env[n] = args.pop(0)
        if a.vararg is not None:
            env[a.vararg.arg] = T('tuple', *args)
        kws = dict(kws)
        for n in names:
            if n in kws:
                env[n] = kws.pop(n)
        for n in names:
            if n not in env:
                if n in defaults:
                    env[n] = self.eval_default(fn, defaults[n], st)
                elif starkw is not None:
                    env[n] = T('idx', starkw, C(n))
                else:
                    env[n] = UNDEF
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.alloc(st, T('dict', starkw or NONE, *[T('kv', C(k), v) for k, v in kws.items()]))
        return env

    def eval_default(self, fn, node, st):
        self.stack.append(fn)
        try:
            tmp = State({}, st.heap, ())
            return self.ev(node, tmp)
        finally:
            self.stack.pop()

    def run(self, fn, args=None, kwargs=None, starkw=None, heap=None, selfobj=None):
        """analyse a function from its entry. Missing parameters become symbols named after
        themselves. Returns (value, state) with references dereferenced in `value`."""
        st = State({}, dict(heap or {}), ())
        kwargs = dict(kwargs or {})
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        pos = list(args or [])
        if selfobj is not None:
            pos = [selfobj] + pos
        given = dict(zip([x.arg for x in a.posonlyargs + a.args], pos))
        full = {}
        for n in names:
            full[n] = given.get(n, kwargs.pop(n, None))
            if full[n] is None:
                full[n] = S(n)
        if a.kwarg is not None:
            full[a.kwarg.arg] = self.alloc(st, T('dict', starkw or NONE, *[T('kv', C(k), v) for k, v in kwargs.items()]))
        if a.vararg is not None:
            n = len(a.posonlyargs + a.args)
            full[a.vararg.arg] = T('tuple', *pos[n:]) if len(pos) > n else S('*' + a.vararg.arg)
        val, st2 = self.body(fn, full, st)
        return self.deep(val, st2), st2

    def body(self, fn, env, st):
        self.stack.append(fn)
        self.depth += 1
        try:
            s = State(dict(env), st.heap, ())
            flow = self.block(fn.node.body, s)
        finally:
            self.stack.pop()
            self.depth -= 1
        rets = [(e[1], e[2], e[3]) for e in flow.exits if e[0] == 'return']
        if flow.fall is not None:
            rets.append((flow.fall.pc, NONE, flow.fall))
        if not rets:
            return T('noreturn', fn.qual), st
        pc, val, state = rets[-1]
        state = State(env, dict(state.heap), ())
        locs = {}
        for k in state.heap:
            pass
        fenv = rets[-1][2].env
        for pc, v, s in reversed(rets[:-1]):
            cond = tand(*pc)
            val = ite(cond, v, val)
            m = self.merge(cond, s, State(fenv, state.heap, ()))
            state = State(env, m.heap, ())
            fenv = m.env
        self.last_env = fenv
        return val, state

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        exits = []
        for s in stmts:
            self.steps += 1
            if self.steps > self.budget:
                raise AnalysisBroken('value numbering budget exhausted in ' + (self.stack[-1].qual if self.stack else '?'))
            f = self.stmt(s, st)
            exits += f.exits
            if f.fall is None:
                return Flow(None, exits)
            st = f.fall
        return Flow(st, exits)

    def stmt(self, s, st):
        self.node = s
        if self.on_stmt is not None:
            self.on_stmt(self, s, st)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise AnalysisBroken(f'statement {type(s).__name__} not supported')
        depth = (len(self.stack), self.depth)
        try:
            return m(s, st)
        except PathRaises as e:
            # a call that returns on no path
            del self.stack[depth[0]:]
            self.depth = depth[1]
            self.raises.append((self.stack[-1].qual, st.pc, e.args[0], s))
            return Flow(None, [('raise', st.pc, C(e.args[0]), st)])

    def s_Expr(self, s, st):
        if not (isinstance(s.value, ast.Constant)):
            self.ev(s.value, st)
        return Flow(st)

    def s_Pass(self, s, st):
        return Flow(st)

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, s, st):
        for a in s.names:
            if a.asname:
                st.env[a.asname] = self.dotted(a.name)
            else:
                n = a.name.split('.')[0]
                st.env[n] = self.dotted(n)
        return Flow(st)

    def s_ImportFrom(self, s, st):
        base = self.stack[-1].module._absolute(s)
        for a in s.names:
            st.env[a.asname or a.name] = self.dotted(f'{base}.{a.name}')
        return Flow(st)

    def s_FunctionDef(self, s, st):
        st.env[s.name] = self.closure(s, st)
        return Flow(st)

    def s_ClassDef(self, s, st):
        st.env[s.name] = T('opaque', 'class ' + s.name)
        return Flow(st)

    def closure(self, node, st):
        key = (id(node), self.depth)
        cid = len(self.closures)
        self.closures[cid] = (node, self.stack[-1].module, st.env)
        return T('closure', cid)

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        return Flow(None, [('return', st.pc, v, st)])

    def s_Raise(self, s, st):
        txt = ast.unparse(s.exc) if s.exc is not None else ''
        self.raises.append((self.stack[-1].qual, st.pc, txt, s))
        return Flow(None, [('raise', st.pc, C(txt), st)])

    def s_Assert(self, s, st):
        c = self.cond(s.test, st)
        if c is FALSE:
            self.raises.append((self.stack[-1].qual, st.pc, 'AssertionError', s))
            return Flow(None, [('raise', st.pc, C('AssertionError'), st)])
        if c is not TRUE:
            self.raises.append((self.stack[-1].qual, st.pc + (tnot(c),), 'AssertionError', s))
        return Flow(st)

    def s_Continue(self, s, st):
        return Flow(None, [('continue', st.pc, NONE, st)])

    def s_Break(self, s, st):
        return Flow(None, [('break', st.pc, NONE, st)])

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env[t.id] = UNDEF
            elif isinstance(t, ast.Attribute):
                self.del_attr(self.ev(t.value, st), t.attr, st)
            elif isinstance(t, ast.Subscript):
                base, i = self.ev(t.value, st), self.rd(self.ev(t.slice, st), st)
                c = self.rd(base, st)
                if base.op == 'ref' and c.op == 'list' and num(i) is not None and -len(c.args) <= num(i) < len(c.args):
                    l = list(c.args)
                    del l[int(num(i))]
                    st.heap[base.args[0]] = T('list', *l)
                elif base.op == 'ref' and c.op == 'dict' and is_const(i):
                    st.heap[base.args[0]] = T('dict', c.args[0], *[kv for kv in c.args[1:] if kv.args[0] is not i])
        return Flow(st)

    def del_attr(self, base, name, st):
        if base.op == 'ref' and st.heap[base.args[0]].op == 'obj':
            c = st.heap[base.args[0]]
            st.heap[base.args[0]] = T('obj', c.args[0], *[kv for kv in c.args[1:] if kv.args[0] != name])

    def s_If(self, s, st):
        c = self.cond(s.test, st)
        if c is TRUE:
            return self.block(s.body, st)
        if c is FALSE:
            return self.block(s.orelse, st) if s.orelse else Flow(st)
        a, b = st.clone(c), st.clone(tnot(c))
        f1 = self.block(s.body, a)
        f2 = self.block(s.orelse, b) if s.orelse else Flow(b)
        exits = f1.exits + f2.exits
        if f1.fall is None and f2.fall is None:
            return Flow(None, exits)
        if f1.fall is None:
            return Flow(f2.fall, exits)
        if f2.fall is None:
            return Flow(f1.fall, exits)
        m = self.merge(c, f1.fall, f2.fall)
        # common conditions that survived in both branches (early exits) are kept
        p1 = [x for x in f1.fall.pc[len(st.pc) + 1:]]
        p2 = [x for x in f2.fall.pc[len(st.pc) + 1:]]
        m.pc = st.pc
        if p1 or p2:
            extra = tor(tand(c, *p1), tand(tnot(c), *p2))
            if extra is not TRUE:
                m.pc = st.pc + (extra,)
        return Flow(m, exits)

    def s_Try(self, s, st):
        start = st.clone()
        f = self.block(s.body, st)
        exits = list(f.exits)
        raised_here = [e for e in exits if e[0] == 'raise']
        falls = []
        if f.fall is not None:
            if s.orelse:
                g = self.block(s.orelse, f.fall)
                exits += g.exits
                if g.fall is not None:
                    falls.append((None, g.fall))
            else:
                falls.append((None, f.fall))
        body_has_call = any(isinstance(n, (ast.Call, ast.Subscript, ast.Attribute, ast.BinOp, ast.Raise, ast.Assert, ast.Assign))
                            for b in s.body for n in ast.walk(b))
        for h in s.handlers:
            if not body_has_call:
                continue
            tp = ast.unparse(h.type) if h.type is not None else 'BaseException'
            c = T('exc', tp)
            self.definite = f.fall is None and bool(f.exits) and all(e[0] == 'raise' for e in f.exits)
            known = None if self.on_call is None else self.on_call(self, c, [], {}, start, s)
            if known is FALSE:
                continue
            if known is TRUE:
                falls, exits = [], []
            hs = start.clone(c)
            # variables and objects touched in the body may hold either value
            if f.fall is not None:
                mid = self.merge(T('excpoint', tp), start, f.fall)
                hs.env.update({k: v for k, v in mid.env.items() if k in start.env or True})
                hs.heap.update(mid.heap)
                for k, v in list(hs.env.items()):
                    if k not in start.env:
                        hs.env[k] = UNDEF
                    else:
                        hs.env[k] = start.env[k]
            if h.name:
                hs.env[h.name] = T('excval', tp)
            g = self.block(h.body, hs)
            exits += g.exits
            if g.fall is not None:
                falls.append((c, g.fall))
            if known is TRUE:
                break
        if not falls:
            fl = Flow(None, exits)
        else:
            cur = falls[0][1]
            c0 = falls[0][0]
            pc = st.pc if f.fall is not None else cur.pc
            if len(falls) > 1:
                basepc = start.pc
                for c, other in falls[1:]:
                    m = self.merge(c, other, cur)
                    m.pc = basepc
                    cur = m
            fl = Flow(cur, exits)
        if s.finalbody and fl.fall is not None:
            g = self.block(s.finalbody, fl.fall)
            fl = Flow(g.fall, fl.exits + g.exits)
        return fl

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        return self.block(s.body, st)

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return Flow(st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)
        return Flow(st)

    OPS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div', ast.Pow: 'pow', ast.Mod: 'mod',
           ast.FloorDiv: 'fdiv', ast.BitAnd: 'band', ast.BitOr: 'bor', ast.BitXor: 'bxor', ast.MatMult: 'matmul',
           ast.LShift: 'shl', ast.RShift: 'shr'}

    def arith(self, op, a, b, st):
        a, b = self.rd(a, st), self.rd(b, st)
        if op == 'matmul':
            return T('call', 'numpy.dot', a, b)
        if op in ('band', 'bor'):
            if op == 'band' and a.op == 'c' and b.op == 'c' and isinstance(a.args[0], bool):
                return C(bool(a.args[0]) and bool(b.args[0]))
            x = tand(a, b) if op == 'band' else tor(a, b)
            return x
        return binop(op, a, b)

    def s_AugAssign(self, s, st):
        op = self.OPS[type(s.op)]
        v = self.ev(s.value, st)
        load = ast.copy_location(ast.parse(ast.unparse(s.target), mode='eval').body, s.target)
        cur = self.ev(load, st)
        if isinstance(s.target, ast.Name) and cur.op == 'ref':
            content = self.rd(cur, st)
            vv = self.rd(v, st)
            if content.op == 'list' or vv.op == 'list':
                st.heap[cur.args[0]] = self.extend(content, vv)
            else:
                st.heap[cur.args[0]] = self.arith(op, content, vv, st)
            return Flow(st)
        if isinstance(s.target, ast.Attribute) and cur.op == 'ref' and op == 'add' and self.rd(cur, st).op == 'list':
            st.heap[cur.args[0]] = self.extend(self.rd(cur, st), self.rd(v, st))
            return Flow(st)
        new = self.arith(op, cur, v, st)
        self.assign(s.target, new, st)
        return Flow(st)

    def extend(self, content, items):
        if content.op == 'list' and items.op in ('list', 'tuple'):
            return T('list', *(content.args + items.args))
        return T('concat', content, items)

    # ---- assignment targets
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, t.elts, st)
            for e, x in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st)
        elif isinstance(t, ast.Subscript):
            idx = self.ev(t.slice, st)
            base = self.ev(t.value, st)
            self.store(t.value, base, idx, v, st)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            self.set_attr(t.value, base, t.attr, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        elif isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'getattr' and len(t.args) >= 2 and sval(self.rd(self.ev(t.args[1], st), st)) is not None:
            self.set_attr(t.args[0], self.ev(t.args[0], st), sval(self.rd(self.ev(t.args[1], st), st)), v, st)
        else:
            raise AnalysisBroken('assignment target ' + type(t).__name__)

    def unpack(self, v, elts, st):
        n = len(elts)
        c = self.rd(v, st)
        if c.op in ('tuple', 'list') and len(c.args) == n and not any(isinstance(e, ast.Starred) for e in elts):
            return list(c.args)
        if c.op == 'ite':
            xs = self.unpack(c.args[1], elts, st)
            ys = self.unpack(c.args[2], elts, st)
            return [ite(c.args[0], x, y) for x, y in zip(xs, ys)]
        if any(isinstance(e, ast.Starred) for e in elts):
            return [T('unpack', c, C(i)) for i in range(n)]
        if n == 1 and c.op == 'call' and c.args[0] in ('numpy.nonzero', 'numpy.where'):
            return [self.index(c, C(0), st)]
        return [self.index(c, C(i), st) for i in range(n)]

    def store(self, base_node, base, idx, v, st):
        idx = self.rd(idx, st)
        if base.op == 'ref' and self.rd(base, st).op == 'obj':
            _, m = self.method(self.rd(base, st).args[0], '__setitem__')
            if m is not None:
                self.call_func(m, [base, idx, v], {}, None, st, self.node)
                return
        if base.op == 'ref':
            rid = base.args[0]
            st.heap[rid] = self.put(st.heap.get(rid, self.gheap.get(rid, base)), idx, v, st)
            return
        if base.op == 'ite' and base.args[1].op == 'ref' and base.args[2].op == 'ref':
            c = base.args[0]
            for br, cc in ((base.args[1], c), (base.args[2], tnot(c))):
                rid = br.args[0]
                old = st.heap[rid]
                st.heap[rid] = ite(cc, self.put(old, idx, v, st), old)
            return
        new = self.put(base, idx, v, st)
        try:
            self.assign(base_node, new, st)
        except AnalysisBroken:
            self.unknown.append('store')

    def put(self, content, idx, v, st):
        if content.op == 'dict' and is_const(idx):
            out, done = [], False
            for kv in content.args[1:]:
                if kv.args[0] is idx:
                    out.append(T('kv', idx, v))
                    done = True
                else:
                    out.append(kv)
            if not done:
                out.append(T('kv', idx, v))
            return T('dict', content.args[0], *out)
        if content.op == 'list' and num(idx) is not None:
            i = int(num(idx))
            if -len(content.args) <= i < len(content.args):
                a = list(content.args)
                a[i] = v
                return T('list', *a)
        v = self.rd(v, st)
        if outside(content, idx):
            raise PathRaises('IndexError')
        if content.op == 'setattr':
            # masked array: data and mask follow the assignment
            base = content
            while base.op == 'setattr' and base.args[1] in ('data', 'mask', 'fill_value'):
                base = base.args[0]
            if base.op != 'setattr':
                out = T('setattr', content, 'data', self.put(getattr_term(content, 'data'), idx, getattr_term(v, 'data') if v.op in ('setattr', 'ite') else v, st))
                return T('setattr', out, 'mask', self.put(getattr_term(content, 'mask'), idx, getattr_term(v, 'mask'), st))
        if idx.op == 'slice' and all(x is NONE for x in idx.args) or idx is C(...):
            return T('fill', content, v)
        if content.op == 'store' and content.args[1] is idx:
            content = content.args[0]
        return T('store', content, idx, v)

    def set_attr(self, base_node, base, name, v, st):
        if base.op == 'ref':
            rid = base.args[0]
            st.heap[rid] = self.put_attr(st.heap[rid], name, v, st)
            return
        if base.op == 'ite' and base.args[1].op == 'ref' and base.args[2].op == 'ref':
            c = base.args[0]
            for br, cc in ((base.args[1], c), (base.args[2], tnot(c))):
                rid = br.args[0]
                old = st.heap[rid]
                st.heap[rid] = self.merge_content(cc, self.put_attr(old, name, v, st), old)
            return
        if base.op in ('module', 'ext', 'fn', 'cls', 'closure', 'excval'):
            return
        self.assign(base_node, self.put_attr(base, name, v, st), st)

    def put_attr(self, content, name, v, st):
        if content.op == 'obj':
            out, done = [], False
            for kv in content.args[1:]:
                if kv.args[0] == name:
                    out.append(T('kv', name, v))
                    done = True
                else:
                    out.append(kv)
            if not done:
                out.append(T('kv', name, v))
            return T('obj', content.args[0], *out)
        return T('setattr', content, name, self.rd(v, st))

    # ------------------------------------------------------------ loops
    def iteration(self, it, st):
        """(items, None) for a literal sequence, else (None, (domain, element(iv)))"""
        it = self.rd(it, st)
        if it.op in ('list', 'tuple'):
            return list(it.args), None
        if it.op == 'c' and isinstance(it.args[0], str):
            return [C(ch) for ch in it.args[0]], None
        if it.op == 'dict' and it.args[0] is NONE:
            return [kv.args[0] for kv in it.args[1:]], None
        if it.op == 'call' and it.args[0] in ('numpy.array', 'numpy.asarray', 'numpy.atleast_1d') and len(it.args) > 1 \
                and it.args[1].op in ('list', 'tuple'):
            return [T('call', 'numpy.array', x) if x.op in ('list', 'tuple') else x for x in it.args[1].args], None
        if it.op in ('add', 'sub', 'mul', 'div', 'neg'):
            items = self.literal_array(it)
            if items is not None:
                return items, None
        if it.op == 'range':
            lo, hi, step = (num(x) for x in it.args)
            if None not in (lo, hi, step) and step != 0:
                r = range(int(lo), int(hi), int(step))
                if len(r) <= self.unroll:
                    return [C(i) for i in r], None
            lo, hi, step = it.args
            if num(lo) == 0 and num(step) == 1:
                return None, (it, lambda iv: iv)
            return None, (it, lambda iv: binop('add', lo, binop('mul', iv, step)))
        if it.op == 'enumerate':
            items, sym = self.iteration(it.args[0], st)
            if items is not None:
                start = int(num(it.args[1]) or 0)
                return [T('tuple', C(i + start), x) for i, x in enumerate(items)], None
            return None, (sym[0], lambda iv: T('tuple', binop('add', iv, it.args[1]), sym[1](iv)))
        if it.op == 'zip':
            parts = [self.iteration(a, st) for a in it.args]
            if all(p[0] is not None for p in parts):
                return [T('tuple', *xs) for xs in zip(*[p[0] for p in parts])], None
            if not any(p[0] is not None for p in parts):
                return None, (parts[0][1][0], lambda iv: T('tuple', *[p[1][1](iv) for p in parts]))
            base = [p[1] if p[1] is not None else (None, (lambda a: (lambda iv: T('idx', a, iv)))(self.rd(a, st)))
                    for p, a in zip(parts, it.args)]
            dom = [b[0] for b in base if b[0] is not None][0]
            return None, (dom, lambda iv: T('tuple', *[b[1](iv) for b in base]))
        if it.op == 'reversed':
            items, sym = self.iteration(it.args[0], st)
            if items is not None:
                return items[::-1], None
        return None, (T('range', ZERO, self.length(it), ONE), lambda iv: self.index(it, iv, st))

    def literal_array(self, t):
        """items of elementwise arithmetic on literal one-dimensional arrays"""
        if t.op == 'call' and t.args[0] in ('numpy.array', 'numpy.asarray') and len(t.args) > 1 and t.args[1].op in ('list', 'tuple') \
                and all(x.op not in ('list', 'tuple', 'ite', 'sym', 'call') for x in t.args[1].args):
            return list(t.args[1].args)
        if t.op == 'neg':
            a = self.literal_array(t.args[0])
            return None if a is None else [binop('mul', C(-1), x) for x in a]
        if t.op in ('add', 'sub', 'mul', 'div'):
            a, b = [self.literal_array(x) for x in t.args]
            if a is None and num(t.args[0]) is not None:
                a = [t.args[0]] * len(b or ())
            if b is None and num(t.args[1]) is not None:
                b = [t.args[1]] * len(a or ())
            if a is not None and b is not None and len(a) == len(b):
                return [binop(t.op, x, y) for x, y in zip(a, b)]
        return None

    def length(self, t):
        if t.op in ('list', 'tuple'):
            if any(x.op == 'when' for x in t.args):
                return T('len', t)
            return C(len(t.args))
        if t.op == 'dict' and t.args[0] is NONE:
            return C(len(t.args) - 1)
        if t.op == 'c' and isinstance(t.args[0], str):
            return C(len(t.args[0]))
        return T('len', t)

    def s_For(self, s, st):
        items, sym = self.iteration(self.ev(s.iter, st), st)
        exits = []
        if items is not None and len(items) <= self.unroll:
            brk = []
            for x in items:
                guard = None
                if x.op == 'when':
                    # element present only under a condition
                    guard, x = x.args
                elif x.op == 'tuple' and any(y.op == 'when' for y in x.args):
                    guard = tand(*[y.args[0] for y in x.args if y.op == 'when'])
                    x = T('tuple', *[y.args[1] if y.op == 'when' else y for y in x.args])
                if guard is not None and guard is not TRUE:
                    if guard is FALSE:
                        continue
                    skip = st.clone()
                    run = st.clone(guard)
                    self.assign(s.target, x, run)
                    f = self.block(s.body, run)
                    end = f.fall
                    for e in f.exits:
                        if e[0] == 'continue':
                            end = e[3] if end is None else self._join_exit(e, end)
                        elif e[0] == 'break':
                            brk.append(e)
                        else:
                            exits.append(e)
                    pc0 = st.pc
                    st = skip if end is None else self.merge(guard, end, skip)
                    st.pc = pc0
                    continue
                self.assign(s.target, x, st)
                f = self.block(s.body, st)
                st2 = f.fall
                for e in f.exits:
                    if e[0] == 'continue':
                        st2 = e[3] if st2 is None else self._join_exit(e, st2)
                    elif e[0] == 'break':
                        brk.append(e)
                    else:
                        exits.append(e)
                if st2 is None:
                    st = None
                    break
                st2.pc = st.pc if not brk and not any(e[0] == 'return' for e in exits) else st2.pc
                st = st2
            if st is not None and s.orelse:
                f = self.block(s.orelse, st)
                exits += f.exits
                st = f.fall
            for e in reversed(brk):
                st = e[3] if st is None else self._join_exit(e, st)
            return Flow(st, exits)
        return self.symloop(s, st, sym)

    def _join_exit(self, e, st):
        base = 0
        for x, y in zip(e[1], st.pc):
            if x is not y:
                break
            base += 1
        m = self.merge(tand(*e[1][base:]), e[3], st)
        m.pc = st.pc[:base]
        return m

    def symloop(self, s, st, sym, iscomp=False):
        """summarise a loop whose trip count is unknown"""
        dom, elem = sym
        d = self.loopdepth
        iv = S(f'%i{d}')
        dom = T('over', iv, dom)
        exits = []
        self.loopdepth += 1
        try:
            modenv, modheap = set(), set()
            prev = None
            for attempt in range(6):
                cur = st.clone()
                mus = {}
                for k in modenv:
                    if k in cur.env:
                        mus[('e', k)] = T('muvar', f'%m{d}', k)
                        cur.env[k] = mus[('e', k)]
                for k in modheap:
                    old = st.heap[k]
                    if old.op == 'obj':
                        kvs = []
                        for kv in old.args[1:]:
                            if (k, kv.args[0]) in modattr:
                                m = T('muvar', f'%m{d}', f'h{k}.{kv.args[0]}')
                                mus[('o', k, kv.args[0])] = m
                                kvs.append(T('kv', kv.args[0], m))
                            else:
                                kvs.append(kv)
                        cur.heap[k] = T('obj', old.args[0], *kvs)
                    else:
                        mus[('h', k)] = T('muvar', f'%m{d}', f'h{k}')
                        cur.heap[k] = mus[('h', k)]
                if s is not None:
                    self.assign(s.target, elem(iv), cur)
                    pc0 = cur.pc
                    f = self.block(s.body, cur)
                else:
                    raise AnalysisBroken('loop')
                end = f.fall
                hasbrk = []
                rets = []
                for e in f.exits:
                    if e[0] == 'continue':
                        end = e[3] if end is None else self._join_exit(e, end)
                    elif e[0] == 'break':
                        hasbrk.append(e)
                    else:
                        rets.append(e)
                for e in hasbrk:
                    end = e[3] if end is None else self._join_exit(e, end)
                if end is None:
                    end = cur
                nenv = {k for k in st.env if end.env.get(k) is not cur_env_at_entry(cur, st, k, mus)}
                nheap = {k for k in st.heap if end.heap.get(k) is not (mus.get(('h', k)) or st.heap[k])}
                modattr = set() if prev is None else prev
                na = set(modattr)
                for k in nheap:
                    if st.heap[k].op == 'obj' and end.heap[k].op == 'obj':
                        old = {kv.args[0]: kv.args[1] for kv in st.heap[k].args[1:]}
                        for kv in end.heap[k].args[1:]:
                            if old.get(kv.args[0]) is not kv.args[1]:
                                na.add((k, kv.args[0]))
                stable = nenv <= modenv and nheap <= modheap and na <= modattr
                prev = na
                modattr = na
                if stable:
                    break
                modenv |= nenv
                modheap |= nheap
            if not hasbrk and not rets:
                self.counters(iv, st, end, mus)
            post = st.clone()
            for k in sorted(modenv):
                mu = mus.get(('e', k))
                b = end.env.get(k, UNDEF)
                post.env[k] = self.summarise(dom, iv, mu, st.env[k], b, mus, bool(hasbrk), post)
            for k in end.env:
                if k not in st.env:
                    # defined only by the loop body: value of the last iteration (or undefined)
                    post.env[k] = T('last', dom, end.env[k], UNDEF)
            for k in modheap:
                old = st.heap[k]
                if old.op == 'obj':
                    new = {kv.args[0]: kv.args[1] for kv in end.heap[k].args[1:]}
                    kvs = []
                    for kv in old.args[1:]:
                        mu = mus.get(('o', k, kv.args[0]))
                        if mu is None:
                            kvs.append(kv)
                        else:
                            kvs.append(T('kv', kv.args[0], self.summarise(dom, iv, mu, kv.args[1], new[kv.args[0]], mus, bool(hasbrk), post)))
                    for a, v in new.items():
                        if a not in {kv.args[0] for kv in old.args[1:]}:
                            kvs.append(T('kv', a, T('last', dom, v, UNDEF)))
                    post.heap[k] = T('obj', old.args[0], *kvs)
                else:
                    post.heap[k] = self.summarise(dom, iv, mus.get(('h', k)), old, end.heap[k], mus, bool(hasbrk), post)
            for k, v in end.heap.items():
                if k not in post.heap:
                    post.heap[k] = v
            for e in rets:
                if e[0] == 'return':
                    exits.append(('return', st.pc + (T('exists', dom, tand(*e[1][len(st.pc):])),), T('inloop', dom, e[2]), e[3]))
                else:
                    exits.append(e)
            post.pc = st.pc
        finally:
            self.loopdepth -= 1
        return Flow(post, exits)

    def counters(self, iv, st, end, mus):
        """quantities which grow by the same amount in each iteration, where others depend on them"""
        ids = {m.id for m in mus.values()}

        def value(s, key):
            return s.env.get(key[1], UNDEF) if key[0] == 'e' else next((kv.args[1] for kv in s.heap[key[1]].args[1:] if kv.args[0] == key[2]), UNDEF)
        known = {}
        for key, m in mus.items():
            if key[0] == 'h':
                continue
            body = value(end, key)
            r = None if body is m else self.peel(body, m, lambda t: not any(x.id in ids or x is iv for x in walk(t)))
            if r is not None and r[0] == 'sum':
                known[m] = binop('add', value(st, key), binop('mul', iv, r[1]))
        if known:
            for k, v in end.env.items():
                if mus.get(('e', k)) not in known:
                    end.env[k] = subst(v, known)
            for k, v in end.heap.items():
                if v.op == 'obj':
                    end.heap[k] = T('obj', v.args[0], *[kv if mus.get(('o', k, kv.args[0])) in known else T('kv', kv.args[0], subst(kv.args[1], known)) for kv in v.args[1:]])
                else:
                    end.heap[k] = subst(v, known)

    def summarise(self, dom, iv, mu, init, body, mus, brk, st):
        allmu = set(mus.values())
        muids = {m.id for m in allmu}

        def free(t):
            return not any(x.id in muids for x in walk(t))
        if mu is None:
            return T('last', dom, body, init)
        if body is mu:
            return init
        body = rewrite(body, lambda t: mu if t.op == 'idx' and t.args[0] is mu and (
            (t.args[1].op == 'slice' and all(x is NONE for x in t.args[1].args)) or t.args[1] is C(...)) else t)
        if not brk:
            if free(body):
                return T('last', dom, body, init)
            e = self.peel(body, mu, free)
            if e is not None:
                kind, x = e
                if kind == 'sum':
                    return binop('add', init, T('sum', dom, x))
                if kind == 'prod':
                    return binop('mul', init, T('prod', dom, x))
                if kind == 'any':
                    return binop('bor', init, T('anyloop', dom, x))
                if kind == 'store':
                    return T('storeloop', dom, init, *x)
                if kind == 'append':
                    m = T('map', dom, x)
                    return m if init.op == 'list' and not init.args else T('concat', init, m)
                if kind == 'attrstore':
                    pass
        # setattr chains: summarise the data and mask components separately
        comps = self.split_attrs(body, mu)
        if comps is not None and not brk:
            base, attrs = comps
            res = self.summarise(dom, iv, mu, init, base, mus, brk, st) if base is not mu else init
            for name, bterm in attrs:
                bterm2 = rewrite(bterm, lambda t: T('muattr', mu, name) if t.op == 'attr' and t.args == (name, mu) else t)
                m2 = T('muattr', mu, name)
                r = self.summarise(dom, iv, m2, getattr_term(init, name), bterm2, {0: m2, 1: mu}, brk, st)
                res = T('setattr', res, name, r)
            return res
        return T('mu', dom, mu, init, body)

    def split_attrs(self, body, mu):
        if body.op == 'ite':
            # a masked array assigned under conditions
            names = set()
            for x in leaves(body):
                while x.op == 'setattr' and x.args[1] in ('data', 'mask'):
                    names.add(x.args[1])
                    x = x.args[0]
                if x is not mu:
                    return None
            return mu, [(n, getattr_term(body, n)) for n in sorted(names)]
        attrs = []
        t = body
        while t.op == 'setattr':
            attrs.append((t.args[1], t.args[2]))
            t = t.args[0]
        if not attrs:
            return None
        names = [a for a, _ in attrs]
        if len(set(names)) != len(names):
            return None
        return t, attrs[::-1]

    def peel(self, body, mu, free):
        if body.op == 'add':
            a, b = body.args
            if a is mu and free(b):
                return 'sum', b
            if b is mu and free(a):
                return 'sum', a
            if free(b):
                r = self.peel(a, mu, free)
                if r and r[0] == 'sum':
                    return 'sum', binop('add', r[1], b)
            if free(a):
                r = self.peel(b, mu, free)
                if r and r[0] == 'sum':
                    return 'sum', binop('add', a, r[1])
        if body.op == 'sub':
            a, b = body.args
            if free(b):
                if a is mu:
                    return 'sum', T('neg', b)
                r = self.peel(a, mu, free)
                if r and r[0] == 'sum':
                    return 'sum', binop('sub', r[1], b)
        if body.op == 'mul':
            a, b = body.args
            if a is mu and free(b):
                return 'prod', b
            if b is mu and free(a):
                return 'prod', a
        if body.op in ('bor', 'or'):
            rest = [x for x in body.args if x is not mu]
            if len(rest) < len(body.args) and all(free(x) for x in rest):
                return 'any', (rest[0] if len(rest) == 1 else T('or', *rest))
            if len(body.args) == 2:
                a, b = body.args
                for x, y in ((a, b), (b, a)):
                    if free(y):
                        r = self.peel(x, mu, free)
                        if r and r[0] == 'any':
                            return 'any', T('or', r[1], y)
        if body.op == 'call' and body.args[0] == 'numpy.logical_or' and len(body.args) == 3:
            return self.peel(T('or', body.args[1], body.args[2]), mu, free)
        if body.op == 'fill':
            if body.args[0] is mu:
                return self.peel(body.args[1], mu, free)
        if body.op == 'store':
            c, i, v = body.args
            if c is mu and free(i) and free(v):
                return 'store', (i, v)
            if c is mu and free(i):
                v2 = rewrite(v, lambda t: T('old', i) if t.op == 'idx' and t.args[0] is mu and t.args[1] is i else t)
                if free(v2):
                    return 'store', (i, v2)
            if c.op == 'store':
                r = self.peel(c, mu, free)
                if r and r[0] == 'store' and free(i) and free(v):
                    return 'store', r[1] + (i, v)
        if body.op == 'concat' and body.args[0] is mu and body.args[1].op == 'list' and len(body.args[1].args) == 1 \
                and free(body.args[1]):
            return 'append', body.args[1].args[0]
        if body.op == 'ite':
            c, a, b = body.args
            if free(c):
                ra = ('sum', ZERO) if a is mu else self.peel(a, mu, free)
                rb = ('sum', ZERO) if b is mu else self.peel(b, mu, free)
                if ra and rb and ra[0] == rb[0] == 'sum':
                    return 'sum', ite(c, ra[1], rb[1])
                if b is mu and ra and ra[0] == 'append':
                    return 'append', T('when', c, ra[1])
                one = lambda r, x: r is not None and r[0] == 'store' and len(r[1]) == 2
                ra = None if a is mu else self.peel(a, mu, free)
                rb = None if b is mu else self.peel(b, mu, free)
                if one(ra, a) and b is mu:
                    return 'store', (ra[1][0], ite(c, ra[1][1], T('old', ra[1][0])))
                if one(rb, b) and a is mu:
                    return 'store', (rb[1][0], ite(c, T('old', rb[1][0]), rb[1][1]))
                if one(ra, a) and one(rb, b) and ra[1][0] is rb[1][0]:
                    return 'store', (ra[1][0], ite(c, ra[1][1], rb[1][1]))
                if b is mu and ra and ra[0] == 'store' and len(ra[1]) == 2:
                    return 'store', (T('when', c, ra[1][0]), ra[1][1])
        return None

    def s_While(self, s, st):
        # counting idiom:  i = lo; while i < n: ...; i += 1
        w = self.counted(s, st)
        if w is not None:
            return w
        c = self.cond(s.test, st)
        if c is FALSE:
            return self.block(s.orelse, st) if s.orelse else Flow(st)
        # constant-driven loops are unrolled as long as the test stays constant
        if c is TRUE:
            n = 0
            cur, exits, brk = st, [], []
            snapshot = st.clone()
            while n < 64:
                f = self.block(s.body, cur)
                exits += [e for e in f.exits if e[0] not in ('continue', 'break')]
                brk += [e for e in f.exits if e[0] == 'break']
                cur = f.fall
                for e in f.exits:
                    if e[0] == 'continue':
                        cur = e[3] if cur is None else self._join_exit(e, cur)
                if cur is None:
                    break
                c = self.cond(s.test, cur)
                if c is FALSE:
                    break
                if c is not TRUE or n > 62 or not is_progress(s):
                    cur = None
                    st = snapshot
                    break
                n += 1
            else:
                st = snapshot
                cur = None
            if c is FALSE or (cur is None and brk and st is not snapshot):
                for e in reversed(brk):
                    cur = e[3] if cur is None else self._join_exit(e, cur)
                return Flow(cur, exits)
            if st is not snapshot and cur is None:
                return Flow(None, exits)
        if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and not s.orelse \
                and not any(isinstance(n, (ast.Break, ast.Continue)) for n in ast.walk(s)):
            # gated unrolling: a conjunct (such as a bound on the number of iterations) ends the loop
            depth = self.__dict__.setdefault('_unroll', {})
            top = id(s) not in depth
            depth[id(s)] = depth.get(id(s), 0) + 1
            snapshot = st.clone()
            try:
                if depth[id(s)] > 4:
                    raise Unbounded()
                return self.s_If(ast.copy_location(ast.If(test=s.test, body=list(s.body) + [s], orelse=[]), s), st)
            except Unbounded:
                if not top:
                    raise
                st = snapshot
            finally:
                if top:
                    del depth[id(s)]
        fake = ast.For(target=ast.Name(id='%while', ctx=ast.Store()), iter=None, body=s.body, orelse=[])
        return self.symloop(fake, st, (T('while', C(ast.dump(s.test))), lambda iv: iv))

    def counted(self, s, st):
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE))
                and isinstance(t.left, ast.Name)):
            return None
        v = t.left.id
        last = s.body[-1] if s.body else None
        if not (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name)
                and last.target.id == v and isinstance(last.value, ast.Constant) and last.value.value == 1):
            return None
        for b in s.body[:-1]:
            for n in ast.walk(b):
                if isinstance(n, (ast.Continue,)) or (isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Store)):
                    return None
        bound = {n.id for n in ast.walk(t.comparators[0]) if isinstance(n, ast.Name)}
        for b in s.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in bound:
                    return None
        lo = st.env.get(v)
        if lo is None:
            return None
        hi = self.rd(self.ev(t.comparators[0], st), st)
        if isinstance(t.ops[0], ast.LtE):
            hi = binop('add', hi, ONE)
        it = T('range', lo, hi, ONE)
        st.env['%range'] = it
        f = ast.For(target=ast.Name(id=v, ctx=ast.Store()), iter=ast.Name(id='%range', ctx=ast.Load()), body=s.body[:-1] or [ast.Pass()], orelse=[])
        r = self.s_For(f, st)
        if r.fall is not None:
            r.fall.env[v] = hi
        return r

    # ------------------------------------------------------------ expressions
    def cond(self, node, st):
        v = self.rd(self.ev(node, st), st)
        return self.boolean(v)

    def boolean(self, v):
        if v.op == 'when':
            return tand(v.args[0], self.boolean(v.args[1]))
        if v.op == 'list' and v.args and all(x.op == 'when' for x in v.args):
            return tor(*[x.args[0] for x in v.args])
        t = truth(v)
        if t is not None:
            return TRUE if t else FALSE
        if v.op == 'ite':
            return self.norm_ite_bool(v)
        return v

    def norm_ite_bool(self, v):
        c, a, b = v.args
        a, b = self.boolean(a), self.boolean(b)
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return tnot(c)
        if a is TRUE:
            return tor(c, b)
        if b is FALSE:
            return tand(c, a)
        return ite(c, a, b)

    def ev(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.unknown.append(type(n).__name__)
            return T('opaque', ast.unparse(n))
        return m(n, st)

    def e_Constant(self, n, st):
        return C(n.value)

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                x = self.rd(self.ev(v.value, st), st)
                if v.format_spec is None and v.conversion == -1:
                    if sval(x) is not None:
                        parts.append(x)
                        continue
                    if num(x) is not None and num(x).denominator == 1:
                        parts.append(C(str(int(num(x)))))
                        continue
                spec = v.format_spec.values[0].value if v.format_spec is not None and len(v.format_spec.values) == 1 and isinstance(v.format_spec.values[0], ast.Constant) else None
                if spec and v.conversion == -1 and sval(x) is not None:
                    parts.append(C(format(sval(x), spec)))
                    continue
                parts.append(T('fmt', x, C(ast.unparse(v.format_spec) if v.format_spec is not None else '')))
        if all(sval(p) is not None for p in parts):
            return C(''.join(sval(p) for p in parts))
        return T('fstr', *parts)

    def e_Name(self, n, st):
        v = st.env.get(n.id)
        if v is None:
            v = self.global_name(self.stack[-1].module, n.id, st)
        if v is UNDEF or (v.op == 'ite' and any(x is UNDEF for x in leaves(v))):
            self.undefs.append((self.stack[-1].qual, n.id, n, v, st.pc))
            v = drop_undef(v)
        return v

    BUILTINS = {'len', 'range', 'enumerate', 'zip', 'isinstance', 'hasattr', 'getattr', 'setattr', 'delattr', 'sorted', 'set', 'list',
                'tuple', 'dict', 'str', 'int', 'float', 'bool', 'complex', 'abs', 'min', 'max', 'sum', 'any', 'all', 'map', 'reversed',
                'print', 'type', 'open', 'iter', 'next', 'round', 'filter', 'super', 'bytes', 'frozenset', 'input', 'callable',
                'divmod', 'pow', 'slice', 'repr', 'object', 'property', 'staticmethod', 'classmethod', 'id', 'hash', 'vars', 'ord', 'chr'}

    def global_name(self, mod, name, st):
        key = (mod.name, name)
        if key in self.globals_cache:
            return self.globals_cache[key]
        if name in mod.defs:
            node = mod.defs[name]
            v = T('cls', f'{mod.name}.{name}') if isinstance(node, ast.ClassDef) else T('fn', f'{mod.name}.{name}')
        elif name in mod.assigns:
            sts = mod.assigns[name]
            s = sts[-1]
            if isinstance(s.value, ast.Call) and ast.unparse(s.value.func).endswith('import_dependency') \
                    and s.value.args and isinstance(s.value.args[0], ast.Constant):
                v = T('ext', s.value.args[0].value)
            else:
                self.globals_cache[key] = T('global', f'{mod.name}.{name}')
                fake = ast.FunctionDef(name='<module>', args=None, body=[], decorator_list=[])
                self.stack.append(Func(mod, fake))
                try:
                    tmp = State({}, self.gheap, ())
                    val = self.ev(s.value, tmp)
                    tgt = s.targets[0] if isinstance(s, ast.Assign) else s.target
                    if isinstance(tgt, ast.Name):
                        v = val
                    else:
                        self.assign(tgt, val, tmp)
                        v = tmp.env.get(name, T('global', f'{mod.name}.{name}'))
                    if len(sts) > 1 and not isinstance(sts[0].value, ast.Constant):
                        pass
                except AnalysisBroken:
                    v = T('global', f'{mod.name}.{name}')
                finally:
                    self.stack.pop()
        elif name in mod.imports:
            v = self.dotted(mod.imports[name])
        elif name in self.BUILTINS:
            v = T('ext', name)
        else:
            r = self.repo.resolve(f'{mod.name}.{name}')
            if isinstance(r, Func):
                v = T('fn', r.qual)
            elif isinstance(r, tuple) and r[0] == 'class':
                v = T('cls', f'{r[1].name}.{r[2].name}')
            elif name in ('__name__',):
                v = C(mod.name)
            else:
                v = T('ext', name)
        self.globals_cache[key] = v
        return v

    def dotted(self, name):
        name = canon(name)
        r = self.repo.resolve(name)
        if isinstance(r, Func):
            return T('fn', r.qual)
        if isinstance(r, tuple):
            if r[0] == 'class':
                return T('cls', f'{r[1].name}.{r[2].name}')
            if r[0] == 'module':
                return T('module', r[1].name)
            if r[0] == 'global':
                return self.global_name(r[1], r[2], State())
        if name.split('.')[0] == 'pyTMD':
            return T('module', name)
        return self.extname(name)

    def extname(self, name):
        name = canon(name)
        name = SYN.get(name, name)
        if name == 'numpy.pi':
            return T('pi')
        if name == 'numpy.newaxis':
            return NONE
        if name in ('numpy.nan', 'numpy.NaN', 'math.nan'):
            return T('const', 'nan')
        if name in ('numpy.inf', 'math.inf'):
            return T('const', 'inf')
        return T('ext', name)

    def e_Attribute(self, n, st):
        b = self.ev(n.value, st)
        return self.getattr(b, n.attr, st, n)

    def getattr(self, b, name, st, node=None):
        if b.op == 'module':
            return self.dotted(f'{b.args[0]}.{name}')
        if b.op == 'ext':
            return self.extname(f'{b.args[0]}.{name}')
        if b.op == 'cls':
            r = self.repo.resolve(f'{b.args[0]}.{name}')
            if isinstance(r, Func):
                return T('fn', r.qual)
            return T('attr', name, b)
        c = self.rd(b, st)
        if self.on_attr is not None:
            r = self.on_attr(c, name)
            if r is not None:
                return r
        if c.op == 'obj':
            for kv in c.args[1:]:
                if kv.args[0] == name:
                    v = kv.args[1]
                    if any(x is UNDEF for x in leaves(v)):
                        v = drop_undef(v)
                    return v
            if name == '__dict__':
                return T('dict', NONE, *[T('kv', C(kv.args[0]), kv.args[1]) for kv in c.args[1:]])
            k, m = self.method(c.args[0], name)
            if m is not None:
                if 'property' in m.decorators() or 'reify' in m.decorators():
                    v, st2 = self.body(m, {m.params()[0]: b}, st)
                    st.heap.update(st2.heap)
                    return v
                if 'staticmethod' in m.decorators():
                    return T('fn', m.qual)
                return T('bound', b, m.qual)
            if k is not None:
                for s in k.body:
                    if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == name:
                        return self.ev(s.value, st)
                    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name and s.value is not None:
                        return self.ev(s.value, st)
            return T('attr', name, S(f'<{c.args[0]}>'))
        if c.op == 'ite' and (c.args[1].op == 'obj' or c.args[2].op == 'obj'):
            return ite(c.args[0], self.getattr(c.args[1], name, st), self.getattr(c.args[2], name, st))
        return getattr_term(c, name)

    def method(self, clsqual, name):
        r = self.repo.resolve(clsqual)
        if not (isinstance(r, tuple) and r[0] == 'class'):
            return None, None
        for s in r[2].body:
            if isinstance(s, ast.FunctionDef) and s.name == name:
                return r[2], Func(r[1], s, cls=r[2])
        return r[2], None

    def e_Subscript(self, n, st):
        b = self.ev(n.value, st)
        i = self.ev(n.slice, st)
        return self.index(b, self.rd(i, st), st)

    def e_Slice(self, n, st):
        g = lambda x: NONE if x is None else self.rd(self.ev(x, st), st)
        return T('slice', g(n.lower), g(n.upper), g(n.step))

    def index(self, b, i, st):
        c = self.rd(b, st)
        if c.op == 'obj':
            _, m = self.method(c.args[0], '__getitem__')
            if m is not None:
                return self.call_func(m, [b, i], {}, None, st, self.node)
        k = num(i)
        if c.op in ('list', 'tuple'):
            if k is not None and -len(c.args) <= k < len(c.args) and k.denominator == 1:
                return c.args[int(k)]
            if i.op == 'slice' and all(x is NONE or num(x) is not None for x in i.args):
                sl = slice(*[None if x is NONE else int(num(x)) for x in i.args])
                return T(c.op, *c.args[sl])
        if c.op == 'c' and isinstance(c.args[0], str):
            if k is not None and -len(c.args[0]) <= k < len(c.args[0]):
                return C(c.args[0][int(k)])
            if i.op == 'slice' and all(x is NONE or num(x) is not None for x in i.args):
                return C(c.args[0][slice(*[None if x is NONE else int(num(x)) for x in i.args])])
        if c.op == 'dict':
            for kv in c.args[1:]:
                if kv.args[0] is i:
                    v = kv.args[1]
                    return drop_undef(v) if any(x is UNDEF for x in leaves(v)) else v
            if is_const(i):
                if c.args[0] is NONE and self.strict:
                    raise PathRaises('KeyError')
                if c.args[0] is NONE:
                    return T('keyerror', i)
                if all(is_const(kv.args[0]) for kv in c.args[1:]):
                    return T('idx', c.args[0], i)
        if i.op == 'ite' and all(is_const(x) for x in leaves(i)) and c.op in ('list', 'tuple', 'dict'):
            return ite(i.args[0], self.index(c, i.args[1], st), self.index(c, i.args[2], st))
        if c.op == 'ite' and b.op != 'sym':
            return ite(c.args[0], self.index(c.args[1], i, st), self.index(c.args[2], i, st))
        if c.op == 'call' and c.args[0] in ('numpy.array', 'numpy.asarray', 'numpy.ma.array') and len(c.args) > 1:
            inner = c.args[1]
            if inner.op in ('list', 'tuple'):
                if k is not None and -len(inner.args) <= k < len(inner.args):
                    x = inner.args[int(k)]
                    return T('call', 'numpy.array', x) if x.op in ('list', 'tuple') else x
                if i.op == 'tuple' and all(num(x) is not None for x in i.args):
                    x = inner
                    for j in i.args:
                        if x.op in ('list', 'tuple') and -len(x.args) <= num(j) < len(x.args):
                            x = x.args[int(num(j))]
                        else:
                            return T('idx', c, i)
                    return x
                if i.op == 'tuple' and len(i.args) == 2 and i.args[0].op == 'slice' and num(i.args[1]) is not None \
                        and all(x is NONE for x in i.args[0].args) and all(r.op in ('list', 'tuple') for r in inner.args):
                    return T('call', 'numpy.array', T('list', *[r.args[int(num(i.args[1]))] for r in inner.args]))
        if c.op == 'call' and c.args[0].startswith('numpy.') and c.args[0].split('.')[-1] in ('zeros', 'zeros_like') \
                and i.op != 'slice' and (i.op != 'tuple' or all(x.op != 'slice' for x in i.args)):
            return ZERO
        return self.read(c, i)

    def read(self, c, i):
        """element of an array term, looking through stores at decidable indices"""
        t = c
        while True:
            if t.op == 'store':
                if t.args[1] is i:
                    return t.args[2]
                if disjoint(t.args[1], i):
                    t = t.args[0]
                    continue
                break
            if t.op == 'fill':
                return T('idx', t.args[1], i) if not scalarish(t.args[1]) else t.args[1]
            if t.op == 'setattr' and t.args[1] == 'mask':
                break
            break
        if t.op == 'call' and t.args[0].startswith('numpy.') and t.args[0].split('.')[-1] in ('zeros', 'zeros_like') and t is not c:
            return ZERO
        return T('idx', t if t is not c else c, i)

    def e_Tuple(self, n, st):
        return T('tuple', *self.seq(n.elts, st))

    def seq(self, elts, st):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.rd(self.ev(e.value, st), st)
                if v.op in ('list', 'tuple'):
                    out += list(v.args)
                else:
                    out.append(T('star', v))
            else:
                out.append(self.ev(e, st))
        return out

    def e_List(self, n, st):
        return self.alloc(st, T('list', *self.seq(n.elts, st)))

    def e_Set(self, n, st):
        return T('list', *self.seq(n.elts, st))

    def e_Dict(self, n, st):
        out = []
        rest = NONE
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.rd(self.ev(v, st), st)
                if d.op == 'dict':
                    out += list(d.args[1:])
                    if d.args[0] is not NONE:
                        rest = d.args[0]
                else:
                    rest = d
            else:
                out.append(T('kv', self.rd(self.ev(k, st), st), self.ev(v, st)))
        return self.alloc(st, T('dict', rest, *out))

    def e_BinOp(self, n, st):
        a, b = self.ev(n.left, st), self.ev(n.right, st)
        return self.arith(self.OPS[type(n.op)], a, b, st)

    def e_UnaryOp(self, n, st):
        v = self.rd(self.ev(n.operand, st), st)
        if isinstance(n.op, ast.USub):
            x = num(v)
            return C(-x) if x is not None else T('neg', v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Not):
            return tnot(self.boolean(v))
        return tnot(v)

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        cur = None
        for x in n.values:
            v = self.attempt(x, st) if cur is not None and truth(cur) is None else self.ev(x, st)
            if v is None:
                return cur          # the operand that cannot be evaluated was not needed
            v = self.rd(v, st)
            if cur is None:
                cur = v
                if truth(cur) is (not isand):
                    return cur
                continue
            t = truth(cur)
            if t is not None:
                if isand:
                    cur = v if t else cur
                else:
                    cur = cur if t else v
            else:
                if boolish(cur) and boolish(v):
                    cur = tand(cur, v) if isand else tor(cur, v)
                else:
                    c = cur
                    cur = ite(c, v, c) if isand else ite(c, c, v)
            if truth(cur) is not None and (truth(cur) is (not isand)):
                # short circuit decided
                return cur
        return cur

    CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
           ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}

    def e_Compare(self, n, st):
        left = self.rd(self.ev(n.left, st), st)
        out = []
        for op, r in zip(n.ops, n.comparators):
            right = self.rd(self.ev(r, st), st)
            out.append(self.compare(self.CMP[type(op)], left, right, st))
            left = right
        return tand(*out) if len(out) > 1 else out[0]

    def compare(self, op, a, b, st=None):
        if op in ('is not', '!=', 'not in'):
            pos = {'is not': 'is', '!=': '==', 'not in': 'in'}[op]
            return tnot(self.compare(pos, a, b, st))
        if op == '>':
            return self.compare('<', b, a, st)
        if op == '>=':
            return self.compare('<=', b, a, st)
        if st is not None:
            a, b = self.deep(a, st), self.deep(b, st)
        if a.op == 'ite' and (all(is_ground(x) for x in leaves(a))) and is_ground(b) and len(list(leaves(a))) < 40:
            return self.boolean(ite(a.args[0], self.compare(op, a.args[1], b), self.compare(op, a.args[2], b)))
        if op == 'is':
            if b is NONE:
                if a is NONE:
                    return TRUE
                if a.op in ('c', 'list', 'tuple', 'dict', 'obj', 'fn', 'cls', 'ext', 'module', 'mod', 'call', 'add', 'mul', 'store', 'fstr', 'range'):
                    return FALSE
                if a.op == 'ite':
                    return self.boolean(ite(a.args[0], self.compare(op, a.args[1], b), self.compare(op, a.args[2], b)))
            if is_const(a) and is_const(b):
                return C(a is b)
            return T('cmp', 'is', a, b)
        if op == '==':
            if a is b and is_ground(a):
                return TRUE
            if is_ground(a) and is_ground(b):
                return C(a is b or (a.op == b.op == 'c' and a.args[0] == b.args[0] and type(a.args[0]) is type(b.args[0])))
            if (a is NONE and b.op in ('list', 'tuple', 'dict', 'obj')) or (b is NONE and a.op in ('list', 'tuple', 'dict', 'obj')):
                return FALSE
            if (a.op in ('list', 'tuple', 'dict') and is_const(b)) or (b.op in ('list', 'tuple', 'dict') and is_const(a)):
                return FALSE
            return T('cmp', '==', *sorted((a, b), key=lambda x: (is_ground(x), x.id)))
        if op in ('<', '<='):
            x, y = num(a), num(b)
            if x is not None and y is not None:
                return C(x < y if op == '<' else x <= y)
            if sval(a) is not None and sval(b) is not None:
                return C(sval(a) < sval(b) if op == '<' else sval(a) <= sval(b))
            return T('cmp', op, a, b)
        if op == 'in':
            if b.op in ('list', 'tuple'):
                res = [self.compare('==', a, x) for x in b.args]
                if any(r is TRUE for r in res):
                    return TRUE
                if all(r is FALSE for r in res):
                    return FALSE
                return T('cmp', 'in', a, b)
            if b.op == 'dict':
                if any(kv.args[0] is a for kv in b.args[1:]):
                    return TRUE
                if b.args[0] is NONE and is_ground(a) and all(is_ground(kv.args[0]) for kv in b.args[1:]):
                    return FALSE
            if sval(a) is not None and sval(b) is not None:
                self.note_substring(a, b)
                return C(sval(a) in sval(b))
            return T('cmp', 'in', a, b)
        return T('cmp', op, a, b)

    substrings = None

    def note_substring(self, a, b):
        if self.substrings is not None:
            self.substrings.append((a, b, self.stack[-1].qual, self.node))

    def e_IfExp(self, n, st):
        c = self.cond(n.test, st)
        if c is TRUE:
            return self.ev(n.body, st)
        if c is FALSE:
            return self.ev(n.orelse, st)
        s1, s2 = st.clone(c), st.clone(tnot(c))
        a = self.attempt(n.body, s1)
        b = self.attempt(n.orelse, s2)
        if a is None and b is None:
            raise PathRaises('both branches')
        if a is None or b is None:
            keep = s2 if a is None else s1
            st.heap.clear()
            st.heap.update(keep.heap)
            return b if a is None else a
        m = self.merge(c, s1, s2)
        st.heap.clear()
        st.heap.update(m.heap)
        return ite(c, a, b)

    def attempt(self, n, st):
        """value of an expression, None when its evaluation cannot return"""
        depth = (len(self.stack), self.depth)
        try:
            return self.ev(n, st)
        except PathRaises:
            del self.stack[depth[0]:]
            self.depth = depth[1]
            return None

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st)
        return v

    def e_Lambda(self, n, st):
        return self.closure(n, st)

    def e_Starred(self, n, st):
        return T('star', self.rd(self.ev(n.value, st), st))

    def e_Yield(self, n, st):
        return T('yield', self.ev(n.value, st) if n.value else NONE)

    def comp(self, n, st, kind):
        def rec(gens, s):
            if not gens:
                if kind == 'dict':
                    return [T('kv', self.rd(self.ev(n.key, s), s), self.ev(n.value, s))]
                return [self.ev(n.elt, s)]
            g = gens[0]
            items, sym = self.iteration(self.ev(g.iter, s), s)
            if items is not None and len(items) <= self.unroll:
                out = []
                for x in items:
                    s2 = State(dict(s.env), s.heap, s.pc)
                    self.assign(g.target, x, s2)
                    c = tand(*[self.cond(i, s2) for i in g.ifs])
                    if c is FALSE:
                        continue
                    sub = rec(gens[1:], s2)
                    out += sub if c is TRUE else [T('when', c, y) for y in sub]
                return out
            dom, elem = sym
            iv = S(f'%i{self.loopdepth}')
            dom = T('over', iv, dom)
            self.loopdepth += 1
            try:
                s2 = State(dict(s.env), s.heap, s.pc)
                self.assign(g.target, elem(iv), s2)
                c = tand(*[self.cond(i, s2) for i in g.ifs])
                sub = rec(gens[1:], s2)
                sub = [self.deep(x, s2) for x in sub]
            finally:
                self.loopdepth -= 1
            body = sub[0] if len(sub) == 1 else T('list', *sub)
            if c is not TRUE:
                body = T('when', c, body)
            return [T('star', T('map', dom, body))]
        out = rec(n.generators, st)
        if kind == 'dict':
            if any(x.op == 'star' for x in out):
                return T('dictmap', *out)
            return T('dict', NONE, *out)
        if len(out) == 1 and out[0].op == 'star':
            return out[0].args[0]
        return T('list', *out)

    def e_ListComp(self, n, st):
        return self.alloc(st, self.comp(n, st, 'list'))

    def e_SetComp(self, n, st):
        return self.comp(n, st, 'list')

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, 'list')

    def e_DictComp(self, n, st):
        return self.alloc(st, self.comp(n, st, 'dict'))

    # ------------------------------------------------------------ calls
    def e_Call(self, n, st):
        # method calls need the receiver
        args, kws, starkw = [], {}, None
        if isinstance(n.func, ast.Attribute):
            recv = self.ev(n.func.value, st)
        else:
            recv = None
        args = self.seq(n.args, st)
        for k in n.keywords:
            if k.arg is None:
                d = self.rd(self.ev(k.value, st), st)
                if d.op == 'dict':
                    for kv in d.args[1:]:
                        key = sval(kv.args[0])
                        if key is not None:
                            kws[key] = kv.args[1]
                    if d.args[0] is not NONE:
                        starkw = d.args[0]
                else:
                    starkw = d
            else:
                kws[k.arg] = self.ev(k.value, st)
        if recv is not None:
            if recv.op not in ('module', 'ext', 'cls'):
                r = self.method_call(recv, n.func.attr, args, kws, starkw, st, n)
                if r is not None:
                    return r
            f = self.getattr(recv, n.func.attr, st, n.func)
        else:
            f = self.ev(n.func, st)
        if 'out' in kws and f.op == 'ext' and canon(f.args[0]).startswith('numpy.'):
            target = next(k.value for k in n.keywords if k.arg == 'out')
            if isinstance(target, (ast.Name, ast.Attribute, ast.Subscript)):
                out = kws.pop('out')
                if out is not NONE:
                    self.store(target, out, T('slice', NONE, NONE, NONE), self.call(f, args, kws, starkw, st, n), st)
                    return self.ev(target, st)
        return self.call(f, args, kws, starkw, st, n)

    def call(self, f, args, kws, starkw, st, node):
        if f.op == 'ite':
            xs = [x for x in leaves(f)]
            if all(x.op in ('fn', 'closure', 'cls') for x in xs):
                a = self.call(f.args[1], args, kws, starkw, st, node)
                b = self.call(f.args[2], args, kws, starkw, st, node)
                return ite(f.args[0], a, b)
        if f.op == 'fn':
            fn = self.repo.resolve(f.args[0])
            if isinstance(fn, Func):
                return self.call_func(fn, args, kws, starkw, st, node)
        if f.op == 'bound':
            fn = self.repo.resolve(f.args[1])
            return self.call_func(fn, [f.args[0]] + args, kws, starkw, st, node)
        if f.op == 'closure':
            nd, mod, env = self.closures[f.args[0]]
            if self.depth > 14:
                return T('call', 'closure', *[self.deep(a, st) for a in args])
            if isinstance(nd, ast.Lambda):
                fd = ast.FunctionDef(name='<lambda>', args=nd.args, body=[ast.Return(value=nd.body)], decorator_list=[])
            else:
                fd = nd
            fn = Func(mod, fd)
            b = self.bind(fn, args, kws, st, starkw)
            base = dict(env)
            base.update(b)
            v, s2 = self.body(fn, base, st)
            st.heap.clear()
            st.heap.update(s2.heap)
            return v
        if f.op == 'cls':
            return self.construct(f.args[0], args, kws, starkw, st, node)
        if f.op == 'ext':
            return self.ext_call(f.args[0], args, kws, starkw, st, node)
        if self.on_call is not None:
            r = self.on_call(self, f, args, kws, st, node)
            if r is not None:
                return r
        return T('callv', f, *[self.deep(a, st) for a in args], *[T('kw', k, self.deep(v, st)) for k, v in sorted(kws.items())])

    def call_func(self, fn, args, kws, starkw, st, node):
        if self.on_call is not None:
            self.starkw = starkw
            r = self.on_call(self, T('fn', fn.qual), args, kws, st, node)
            if r is not None:
                return r
        recursive = sum(f.node is fn.node for f in self.stack) > self.recursion
        if fn.qual in self.opaque or recursive or self.depth > 12:
            return self.opaque_call(fn, args, kws, starkw, st)
        self.inlined.add(fn.qual)
        env = self.bind(fn, args, kws, st, starkw)
        v, s2 = self.body(fn, env, st)
        if v.op == 'noreturn':
            raise PathRaises(fn.qual)
        st.heap.clear()
        st.heap.update(s2.heap)
        return v

    def opaque_call(self, fn, args, kws, starkw, st):
        env = self.bind(fn, args, kws, st, starkw)
        kwname = fn.node.args.kwarg.arg if fn.node.args.kwarg is not None else None
        out = []
        for k, v in env.items():
            if k == kwname:
                d = self.rd(v, st)
                reads, dflt = self.kw_reads(fn)
                present = {sval(kv.args[0]) for kv in d.args[1:]}
                if d.args[0] is NONE:
                    for name, node in dflt.items():
                        if name not in present and (reads is None or name in reads):
                            out.append((name, self.eval_default(fn, node, st)))
                for kv in d.args[1:]:
                    if reads is not None and sval(kv.args[0]) is not None and sval(kv.args[0]) not in reads:
                        continue        # an option the callee never looks at
                    out.append((sval(kv.args[0]) or str(kv.args[0]), self.deep(kv.args[1], st)))
                if d.args[0] is not NONE:
                    out.append(('**', d.args[0]))
            else:
                out.append((k, self.deep(v, st)))
        return T('call', fn.qual, *[T('kw', k, v) for k, v in sorted(out, key=lambda x: x[0])])

    def kw_reads(self, fn, seen=()):
        """(names of the open options the callee looks at, or None when unknown; constant defaults it installs)"""
        cache = self.repo.__dict__.setdefault('_kwreads', {})
        if fn.qual in cache:
            return cache[fn.qual]
        kw = fn.node.args.kwarg
        if kw is None or fn.qual in seen:
            return set(), {}
        kw = kw.arg
        reads, dflt, known = set(), {}, set()
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == kw:
                known.add(id(n.value))
                if isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                    reads.add(n.slice.value)
                else:
                    reads = None
                    break
            elif isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == kw \
                        and f.attr in ('get', 'pop', 'setdefault') and n.args and isinstance(n.args[0], ast.Constant):
                    known.add(id(f.value))
                    name = n.args[0].value
                    if f.attr != 'setdefault':
                        reads.add(name)
                    elif len(n.args) == 2 and isinstance(n.args[1], ast.Constant):
                        dflt.setdefault(name, n.args[1])
                        # the result of the call used as a value is a read
                        reads.add(name) if not any(isinstance(e, ast.Expr) and e.value is n for e in ast.walk(fn.node)) else None
                for k in n.keywords:
                    if k.arg is None and isinstance(k.value, ast.Name) and k.value.id == kw:
                        known.add(id(k.value))
                        target = self.repo.resolve(f'{fn.module.name}.{ast.unparse(f)}') or self.repo.resolve(ast.unparse(f))
                        if not isinstance(target, Func):
                            reads = None
                            break
                        sub, _ = self.kw_reads(target, seen + (fn.qual,))
                        if sub is None:
                            reads = None
                            break
                        a = target.node.args
                        reads |= set(sub) | {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
                if reads is None:
                    break
        if reads is not None and any(isinstance(n, ast.Name) and n.id == kw and id(n) not in known for n in ast.walk(fn.node)):
            reads = None
        if not seen:
            cache[fn.qual] = (reads, dflt)
        return reads, dflt

    def construct(self, clsqual, args, kws, starkw, st, node):
        r = self.repo.resolve(clsqual)
        if clsqual in self.opaque:
            if self.on_call is not None:
                x = self.on_call(self, T('cls', clsqual), args, kws, st, node)
                if x is not None:
                    return x
            _, init = self.method(clsqual, '__init__')
            if init is not None:
                t = self.opaque_call(init, [S('self')] + args, kws, starkw, st)
                return T('call', clsqual, *[a for a in t.args[1:] if a.args[0] != 'self'])
        ref = self.alloc(st, T('obj', clsqual))
        _, init = self.method(clsqual, '__init__')
        if init is not None and self.depth <= 12:
            env = self.bind(init, [ref] + args, kws, st, starkw)
            v, s2 = self.body(init, env, st)
            if v.op == 'noreturn':
                raise PathRaises(init.qual)
            st.heap.clear()
            st.heap.update(s2.heap)
        elif init is None:
            for k, v in kws.items():
                st.heap[ref.args[0]] = self.put_attr(st.heap[ref.args[0]], k, v, st)
        return ref

    # -- methods on values
    def method_call(self, recv, name, args, kws, starkw, st, node):
        c = self.rd(recv, st)
        if c.op == 'obj' and not c.args[0].startswith('%'):
            _, m = self.method(c.args[0], name)
            if m is None:
                return None
            if 'staticmethod' in m.decorators():
                return self.call_func(m, args, kws, starkw, st, node)
            return self.call_func(m, [recv] + args, kws, starkw, st, node)
        k = self.instance_of(c)
        if k is not None:
            _, m = self.method(k, name)
            if m is not None and 'staticmethod' not in m.decorators():
                return self.opaque_call(m, [c] + args, kws, starkw, st)
            if m is not None:
                return self.call_func(m, args, kws, starkw, st, node)
        if self.on_call is not None:
            r = self.on_call(self, T('method', name, recv), args, kws, st, node)
            if r is not None:
                return r
        a = [self.rd(x, st) for x in args]
        if c.op == 'dict':
            r = self.dict_method(recv, c, name, args, kws, st)
            if r is not None:
                return r
        if c.op in ('list', 'concat', 'map') or (recv.op == 'ref' and name in ('append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse')):
            r = self.list_method(recv, c, name, args, st)
            if r is not None:
                return r
        s = sval(c)
        if s is not None:
            r = self.str_method(s, name, a, kws)
            if r is not None:
                return r
        if c.op == 'ite' and all(sval(x) is not None for x in leaves(c)) and name in ('lower', 'upper', 'strip') and not args:
            return rewrite_leaves(c, lambda x: C(getattr(sval(x), name)()))
        if name in ('lower', 'upper') and c.op == 'meth' and c.args[0] == name:
            return c
        if name in ('copy', '__copy__') and not args:
            return self.alloc(st, T('call', 'numpy.copy', c)) if c.op != 'dict' else self.alloc(st, c)
        if name in ('astype', 'view'):
            return T('meth', name, c, *[self.deep(x, st) for x in a])
        if name in ('ravel', 'flatten', 'squeeze', 'reshape', 'transpose', 'sum', 'min', 'max', 'mean', 'any', 'all',
                    'conj', 'conjugate', 'cumsum', 'prod', 'dot', 'nonzero', 'clip', 'round', 'repeat', 'argmin', 'argmax', 'take', 'std'):
            nm = {'conjugate': 'conj', 'flatten': 'ravel'}.get(name, name)
            return self.ext_call('numpy.' + nm, [c] + args, kws, starkw, st, node)
        if name == 'fill' and len(a) == 1 and recv.op == 'ref':
            st.heap[recv.args[0]] = T('fill', c, a[0])
            return NONE
        if name == 'get' and c.op == 'sym':
            return T('meth', 'get', c, *a)
        return T('meth', name, self.deep(recv, st), *[self.deep(x, st) for x in args],
                 *[T('kw', k, self.deep(v, st)) for k, v in sorted(kws.items())])

    def instance_of(self, c):
        """class of an object built by an uninterpreted constructor (through methods that return the object itself)"""
        if c.op == 'ite':
            a = self.instance_of(c.args[1])
            return a if a is not None and a == self.instance_of(c.args[2]) else None
        if c.op != 'call':
            return None
        r = self.repo.resolve(c.args[0]) if c.args[0].startswith(('pyTMD', 'spec')) else None
        if isinstance(r, tuple) and r[0] == 'class':
            return c.args[0]
        if isinstance(r, Func) and '.' in c.args[0]:
            k = c.args[0].rsplit('.', 1)[0]
            q = self.repo.resolve(k)
            if isinstance(q, tuple) and q[0] == 'class' and returns_self(r):
                return k
        return None

    def dict_method(self, recv, c, name, args, kws, st):
        if name == 'setdefault' and len(args) >= 1:
            k = self.rd(args[0], st)
            d = args[1] if len(args) > 1 else NONE
            for kv in c.args[1:]:
                if kv.args[0] is k:
                    if any(x is UNDEF for x in leaves(kv.args[1])):
                        v = rewrite_leaves(kv.args[1], lambda x: d if x is UNDEF else x)
                        st.heap[recv.args[0]] = self.put(c, k, v, st)
                        return v
                    return kv.args[1]
            v = d
            if c.args[0] is not NONE:
                v = T('opt', c.args[0], k, self.rd(d, st))
            if recv.op == 'ref':
                st.heap[recv.args[0]] = T('dict', c.args[0], *c.args[1:], T('kv', k, v))
            return v
        if name == 'get' and args:
            k = self.rd(args[0], st)
            d = args[1] if len(args) > 1 else NONE
            for kv in c.args[1:]:
                if kv.args[0] is k:
                    return kv.args[1]
            if c.args[0] is NONE and is_ground(k):
                return d
            return T('opt', c, k, self.rd(d, st))
        if name == 'pop' and args:
            k = self.rd(args[0], st)
            for kv in c.args[1:]:
                if kv.args[0] is k:
                    if recv.op == 'ref':
                        st.heap[recv.args[0]] = T('dict', c.args[0], *[x for x in c.args[1:] if x is not kv])
                    return kv.args[1]
            return args[1] if len(args) > 1 else T('keyerror', k)
        if name == 'keys':
            return T('list', *[kv.args[0] for kv in c.args[1:]]) if c.args[0] is NONE else T('keys', c)
        if name == 'values':
            return T('list', *[kv.args[1] for kv in c.args[1:]]) if c.args[0] is NONE else T('values', c)
        if name == 'items':
            return T('list', *[T('tuple', *kv.args) for kv in c.args[1:]]) if c.args[0] is NONE else T('items', c)
        if name == 'copy':
            return self.alloc(st, c)
        if name == 'update' and recv.op == 'ref':
            if args:
                d = self.rd(args[0], st)
                if d.op == 'dict':
                    for kv in d.args[1:]:
                        st.heap[recv.args[0]] = self.put(st.heap[recv.args[0]], kv.args[0], kv.args[1], st)
                else:
                    st.heap[recv.args[0]] = T('dict', d, *c.args[1:])
            for k, v in kws.items():
                st.heap[recv.args[0]] = self.put(st.heap[recv.args[0]], C(k), v, st)
            return NONE
        return None

    def list_method(self, recv, c, name, args, st):
        a = args
        if name in ('append', 'extend', 'insert', 'remove', 'sort', 'reverse', 'pop') and recv.op != 'ref':
            return T('meth', name, c, *[self.deep(x, st) for x in a])
        if name == 'append':
            st.heap[recv.args[0]] = self.extend(c, T('list', a[0]))
            return NONE
        if name == 'extend':
            st.heap[recv.args[0]] = self.extend(c, self.rd(a[0], st))
            return NONE
        if name == 'insert' and c.op == 'list' and num(a[0]) is not None:
            l = list(c.args)
            l.insert(int(num(a[0])), a[1])
            st.heap[recv.args[0]] = T('list', *l)
            return NONE
        if name == 'remove' and c.op == 'list' and a and is_const(a[0]):
            for i, x in enumerate(c.args):
                if x is a[0]:
                    st.heap[recv.args[0]] = T('list', *c.args[:i], *c.args[i + 1:])
                    return NONE
                if not is_const(x):
                    break
        if name == 'pop' and c.op == 'list' and c.args:
            l = list(c.args)
            v = l.pop(int(num(a[0])) if a and num(a[0]) is not None else -1)
            st.heap[recv.args[0]] = T('list', *l)
            return v
        if name == 'index' and c.op == 'list' and a:
            for i, x in enumerate(c.args):
                if x is a[0]:
                    return C(i)
                if not (is_ground(x) and is_ground(a[0])):
                    break
            return T('meth', 'index', c, a[0])
        if name == 'copy':
            return self.alloc(st, c)
        return None

    def str_method(self, s, name, a, kws):
        try:
            if name in ('lower', 'upper', 'strip', 'title', 'capitalize', 'rstrip', 'lstrip', 'isdigit', 'swapcase', 'casefold'):
                return C(getattr(s, name)(*[sval(x) for x in a]))
            if name in ('startswith', 'endswith') and len(a) == 1:
                if a[0].op == 'tuple':
                    return C(getattr(s, name)(tuple(sval(x) for x in a[0].args)))
                if sval(a[0]) is not None:
                    return C(getattr(s, name)(sval(a[0])))
            if name in ('replace', 'split', 'rsplit', 'partition', 'rpartition', 'count', 'find', 'zfill') and all(
                    sval(x) is not None or num(x) is not None for x in a):
                return C(getattr(s, name)(*[sval(x) if sval(x) is not None else int(num(x)) for x in a]))
            if name == 'join' and a and a[0].op in ('list', 'tuple') and all(sval(x) is not None for x in a[0].args):
                return C(s.join(sval(x) for x in a[0].args))
            if name == 'format' and all(sval(x) is not None for x in a) and not kws:
                return C(s.format(*[sval(x) for x in a]))
        except Exception:
            return None
        return None

    # -- external functions
    def ext_call(self, name, args, kws, starkw, st, node):
        name = SYN.get(canon(name), canon(name))
        if self.on_call is not None:
            r = self.on_call(self, T('ext', name), args, kws, st, node)
            if r is not None:
                return r
        a = [self.rd(x, st) for x in args]
        if name == 'numpy.column_stack' and len(a) == 1 and a[0].op in ('tuple', 'list') and not kws:
            return T('idx', T('ext', 'numpy.c_'), T('tuple', *[self.deep(x, st) for x in a[0].args]))
        b = self.builtin(name, args, a, kws, st)
        if b is not None:
            return b
        if name in BINCALL and len(a) == 2 and not kws:
            return binop(BINCALL[name], a[0], a[1])
        if name in CMPCALL and len(a) == 2:
            return self.compare(CMPCALL[name], a[0], a[1])
        if name in ('numpy.logical_and', 'numpy.bitwise_and'):
            return tand(*a)
        if name in ('numpy.logical_or', 'numpy.bitwise_or'):
            return tor(*a)
        if name in ('numpy.logical_not', 'numpy.invert', 'numpy.bitwise_not'):
            return tnot(a[0])
        if name == 'numpy.flatnonzero' and len(a) == 1:
            return T('idx', T('call', 'numpy.nonzero', a[0]), C(0))
        if name == 'numpy.negative':
            return T('neg', a[0])
        if name == 'numpy.square':
            return binop('pow', a[0], C(2))
        if name == 'numpy.sqrt' and len(a) == 1 and not kws:
            return T('pow', a[0], C(Fraction(1, 2)))
        if name == 'numpy.radians':
            return T('div', T('mul', a[0], T('pi')), C(180))
        if name == 'numpy.degrees':
            return T('div', T('mul', a[0], C(180)), T('pi'))
        if name in ('numpy.real', 'numpy.imag') and len(a) == 1:
            return getattr_term(a[0], name[6:])
        if name in ('numpy.int64', 'numpy.int32', 'numpy.float64', 'numpy.float32', 'numpy.int16') and len(a) == 1 and num(a[0]) is not None:
            return a[0]
        if name == 'numpy.where' and len(a) == 3:
            return ite(a[0], a[1], a[2])
        da = [self.deep(x, st) for x in args]
        dk = [T('kw', k, self.deep(v, st)) for k, v in sorted(kws.items())]
        t = T('call', name, *da, *dk)
        if starkw is not None:
            t = T('call', name, *da, *dk, T('kw', '**', starkw))
        if name in ALLOC:
            return self.alloc(st, t)
        if name == 'copy.copy' or name == 'copy.deepcopy':
            if da[0].op in ('c', 'sym', 'opt', 'idx', 'ite', 'attr', 'tuple', 'keyerror'):
                return da[0] if name == 'copy.copy' else da[0]
            if a[0].op in ('list', 'dict', 'obj'):
                return self.alloc(st, a[0])
            return da[0]
        return t

    def builtin(self, name, args, a, kws, st):
        if name == 'len' and len(a) == 1:
            own = self.method(a[0].args[0], '__len__')[1] if a[0].op == 'obj' else None
            if own is not None:
                return self.call_func(own, [args[0]], {}, None, st, None)
            return self.length(a[0])
        if name == 'range':
            if len(a) == 1:
                return T('range', ZERO, a[0], ONE)
            if len(a) == 2:
                return T('range', a[0], a[1], ONE)
            return T('range', *a[:3])
        if name == 'slice' and not kws and 0 < len(a) < 4:
            return T('slice', *([NONE, a[0], NONE] if len(a) == 1 else [*a, NONE][:3]))
        if name == 'enumerate':
            return T('enumerate', a[0], a[1] if len(a) > 1 else (kws.get('start') or ZERO))
        if name == 'zip':
            return T('zip', *a)
        if name == 'reversed' and len(a) == 1:
            if a[0].op in ('list', 'tuple'):
                return T('list', *a[0].args[::-1])
            return T('reversed', a[0])
        if name == 'isinstance' and len(a) == 2:
            return self.isinst(a[0], a[1])
        if name == 'hasattr' and len(a) == 2 and sval(a[1]) is not None:
            if a[0].op == 'obj':
                if any(kv.args[0] == sval(a[1]) for kv in a[0].args[1:]):
                    return TRUE
                k, m = self.method(a[0].args[0], sval(a[1]))
                return C(m is not None)
            if a[0].op == 'dict':
                return C(hasattr({}, sval(a[1])))
            return None
        if name == 'getattr' and len(a) >= 2 and sval(a[1]) is not None:
            return self.getattr(args[0], sval(a[1]), st)
        if name == 'setattr' and len(a) == 3 and sval(a[1]) is not None and args[0].op == 'ref':
            self.set_attr(None, args[0], sval(a[1]), args[2], st)
            return NONE
        if name == 'delattr' and len(a) == 2 and sval(a[1]) is not None and args[0].op == 'ref':
            self.del_attr(args[0], sval(a[1]), st)
            return NONE
        if name in ('list', 'tuple', 'set', 'frozenset'):
            if not a:
                return self.alloc(st, T('list')) if name != 'tuple' else T('tuple')
            if a[0].op in ('list', 'tuple', 'dict', 'range', 'enumerate', 'zip') or sval(a[0]) is not None:
                items, sym = self.iteration(a[0], st)
                if items is not None:
                    if name in ('set', 'frozenset') and all(is_ground(x) for x in items):
                        items = sorted(set(items), key=lambda x: str(x.args[0]) if x.op == 'c' else str(x.id))
                    t = T('tuple' if name == 'tuple' else 'list', *items)
                    return t if name == 'tuple' else self.alloc(st, t)
            return T('call', name, self.deep(a[0], st))
        if name == 'dict':
            out = list(T('kv', C(k), v) for k, v in kws.items())
            rest = NONE
            if a and a[0].op == 'dict':
                rest = a[0].args[0]
                out = list(a[0].args[1:]) + out
            elif a:
                items, sym = self.iteration(a[0], st)
                if items is not None and all(x.op == 'tuple' and len(x.args) == 2 for x in items):
                    out = [T('kv', x.args[0], x.args[1]) for x in items] + out
                else:
                    rest = a[0]
            return self.alloc(st, T('dict', rest, *out))
        if name == 'sorted' and a and a[0].op in ('list', 'tuple') and not kws and all(x.op == 'c' for x in a[0].args):
            return self.alloc(st, T('list', *sorted(a[0].args, key=lambda x: x.args[0])))
        if name == 'str' and len(a) == 1:
            if sval(a[0]) is not None:
                return a[0]
            if num(a[0]) is not None and num(a[0]).denominator == 1:
                return C(str(int(num(a[0]))))
        if name == 'int' and len(a) == 1:
            if num(a[0]) is not None:
                return C(int(num(a[0])))
            if sval(a[0]) is not None:
                try:
                    return C(int(sval(a[0])))
                except ValueError:
                    return None
        if name in ('float', 'complex') and len(a) == 1:
            if num(a[0]) is not None:
                return a[0]
            return a[0] if sval(a[0]) is None else None
        if name == 'bool' and len(a) == 1:
            return self.boolean(a[0])
        if name in ('min', 'max') and a:
            xs = a if len(a) > 1 else (list(a[0].args) if a[0].op in ('list', 'tuple') else [])
            if xs and all(num(x) is not None for x in xs):
                return C((min if name == 'min' else max)(num(x) for x in xs))
        if name == 'sum' and a and a[0].op in ('list', 'tuple'):
            cur = a[1] if len(a) > 1 else ZERO
            for x in a[0].args:
                cur = binop('add', cur, x)
            return cur
        if name == 'sum' and a and a[0].op == 'map':
            return T('sum', a[0].args[0], a[0].args[1])
        if name in ('any', 'numpy.any') and a and a[0].op in ('list', 'tuple') and not kws:
            return self.boolean(tor(*[self.boolean(x) for x in a[0].args])) if a[0].args else FALSE
        if name in ('all', 'numpy.all') and a and a[0].op in ('list', 'tuple') and not kws:
            return tand(*[self.boolean(x) for x in a[0].args])
        if name == 'map' and len(a) == 2:
            items, sym = self.iteration(a[1], st)
            if items is not None:
                return T('list', *[self.call(args[0], [x], {}, None, st, None) for x in items])
        if name == 'type' and len(a) == 1:
            return T('call', 'type', a[0])
        if name == 'print':
            return NONE
        if name in ('numpy.copy', 'numpy.array', 'numpy.asarray', 'numpy.atleast_1d') and len(a) == 1 and num(a[0]) is not None and not kws:
            return a[0]
        if name == 'numpy.abs' and len(a) == 1 and num(a[0]) is not None:
            return C(abs(num(a[0])))
        if name == 'numpy.sign' and len(a) == 1 and num(a[0]) is not None:
            x = num(a[0])
            return C((x > 0) - (x < 0))
        return None

    def isinst(self, v, t):
        names = [x.args[0] for x in (t.args if t.op in ('tuple', 'list') else [t]) if x.op in ('ext', 'cls')]
        short = [n.split('.')[-1] for n in names]
        kind = None
        if v.op == 'c':
            x = v.args[0]
            kind = 'str' if isinstance(x, str) else 'bool' if isinstance(x, bool) else 'NoneType' if x is None else 'num'
        elif v.op in ('list', 'tuple', 'dict'):
            kind = v.op
        elif v.op == 'fstr':
            kind = 'str'
        elif v.op == 'obj':
            kind = v.args[0].split('.')[-1]
        elif v.op == 'call' and v.args[0] == 'pathlib.Path':
            kind = 'Path'
        if kind is None:
            return T('cmp', 'isinstance', v, t)
        if kind == 'num':
            integral = v.args[0].denominator == 1
            if 'int' in short or 'float' in short:
                if 'int' in short and 'float' in short:
                    return TRUE
                return C(('int' in short) == integral) if integral or 'float' in short else FALSE
            return FALSE
        if 'Iterable' in short or 'Sequence' in short:
            if kind in ('str', 'list', 'tuple', 'dict'):
                return TRUE
        return C(kind in short)


def cur_env_at_entry(cur, st, k, mus):
    return mus.get(('e', k)) or st.env[k]


def is_progress(s):
    return any(isinstance(n, (ast.Assign, ast.AugAssign, ast.Break, ast.Return)) for b in s.body for n in ast.walk(b))


def canon(name):
    if name == 'np' or name.startswith('np.'):
        name = 'numpy' + name[2:]
    return name


def leaves(t):
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'ite':
            stack += [x.args[2], x.args[1]]
        elif x.op == 'last':
            stack += [x.args[2], x.args[1]]
        else:
            yield x


def returns_self(fn):
    ps = fn.params()
    rets = [n for n in ast.walk(fn.node) if isinstance(n, ast.Return)]
    return bool(ps) and bool(rets) and all(isinstance(n.value, ast.Name) and n.value.id == ps[0] for n in rets)


def rewrite_leaves(t, fn):
    if t.op == 'ite':
        return ite(t.args[0], rewrite_leaves(t.args[1], fn), rewrite_leaves(t.args[2], fn))
    return fn(t)


def drop_undef(t):
    """value assuming the variable is defined"""
    if t.op == 'ite':
        a, b = t.args[1], t.args[2]
        a, b = drop_undef(a), drop_undef(b)
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        return ite(t.args[0], a, b)
    if t.op == 'last' and t.args[2] is UNDEF:
        return t
    return t


def is_ground(t):
    return t.op == 'c' or (t.op in ('list', 'tuple') and all(is_ground(x) for x in t.args))


def boolish(t):
    return t.op in ('cmp', 'not', 'and', 'or') or (t.op == 'c' and isinstance(t.args[0], bool)) or \
        (t.op == 'call' and t.args[0] in ('numpy.any', 'numpy.all', 'numpy.isfinite', 'numpy.isnan', 'hasattr', 'numpy.isclose'))


def scalarish(t):
    return t.op in ('c', 'const', 'pi')


def disjoint(i, j):
    """indices that certainly address different elements"""
    a = i.args if i.op == 'tuple' else (i,)
    b = j.args if j.op == 'tuple' else (j,)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if num(x) is not None and num(y) is not None and num(x) != num(y):
            return True
        if sval(x) is not None and sval(y) is not None and sval(x) != sval(y):
            return True
    return False


PLAIN = {'numpy.' + n for n in ('zeros', 'ones', 'empty', 'full', 'arange', 'linspace')}
SAMEMASK = {'numpy.exp', 'numpy.cos', 'numpy.sin', 'numpy.conj', 'numpy.abs', 'numpy.neg', 'numpy.copy', 'numpy.ma.zeros_like', 'numpy.ma.copy'}


def getattr_term(c, name):
    """attribute of an array-valued term"""
    if name == 'data' and c.op == 'attr' and c.args[0] == 'data':
        return c
    if c.op == 'setattr':
        if c.args[1] == name:
            return c.args[2]
        if name in ('real', 'imag') and c.args[1] == 'data':
            return getattr_term(c.args[2], name)
        if name in ('data', 'mask', 'fill_value', 'real', 'imag'):
            if c.args[1] in ('mask', 'fill_value', 'data'):
                return getattr_term(c.args[0], name)
    if name == 'mask' and c.op == 'call' and c.args[0] in ('numpy.ma.array', 'numpy.ma.masked_array'):
        for k in c.args[1:]:
            if k.op == 'kw' and k.args[0] == 'mask':
                return k.args[1]
    if name == 'fill_value' and c.op == 'call' and c.args[0].startswith('numpy.ma.'):
        for k in c.args[1:]:
            if k.op == 'kw' and k.args[0] == 'fill_value':
                return k.args[1]
    if name == 'fill_value' and c.op in ('store', 'storeloop', 'fill'):
        return getattr_term(c.args[1 if c.op == 'storeloop' else 0], name)
    if c.op == 'ite' and name in ('mask', 'data', 'fill_value', 'real', 'imag', 'shape', 'size', 'ndim'):
        return ite(c.args[0], getattr_term(c.args[1], name), getattr_term(c.args[2], name))
    if name == 'data' and c.op in ('fill', 'store'):
        return T(c.op, getattr_term(c.args[0], 'data'), *c.args[1:])
    if name == 'data' and c.op == 'storeloop' and carries_mask(c.args[1]):
        return T('storeloop', c.args[0], getattr_term(c.args[1], 'data'), *c.args[2:])
    if name == 'mask':
        if c.op == 'store' and carries_mask(c.args[0]):
            return T('store', getattr_term(c.args[0], 'mask'), c.args[1], getattr_term(c.args[2], 'mask'))
        if c.op == 'storeloop' and carries_mask(c.args[1]):
            out = list(c.args[2:])
            out[1::2] = [getattr_term(v, 'mask') for v in out[1::2]]
            return T('storeloop', c.args[0], getattr_term(c.args[1], 'mask'), *out)
        if c.op in ('c', 'pi', 'I', 'const') or c.op == 'call' and c.args[0] in PLAIN:
            return FALSE
        if c.op in ('add', 'sub', 'mul', 'div'):
            return tor(getattr_term(c.args[0], 'mask'), getattr_term(c.args[1], 'mask'))
        if c.op == 'idx' and carries_mask(c.args[0]):
            return T('idx', getattr_term(c.args[0], 'mask'), c.args[1])
        if c.op == 'neg' or c.op == 'call' and c.args[0] in SAMEMASK and len(c.args) > 1:
            return getattr_term(c.args[-1] if c.op == 'neg' else c.args[1], 'mask')
        if c.op == 'call' and c.args[0] == 'numpy.reshape' and len(c.args) > 2:
            return T('call', 'numpy.reshape', getattr_term(c.args[1], 'mask'), *c.args[2:])
    return T('attr', name, c)


def carries_mask(c):
    """a masked array (or the accumulator of a loop) whose mask follows assignments of elements"""
    while c.op in ('store', 'fill'):
        c = c.args[0]
    if c.op == 'storeloop':
        return carries_mask(c.args[1])
    if c.op == 'ite':
        return carries_mask(c.args[1]) and carries_mask(c.args[2])
    if c.op in ('add', 'sub', 'mul', 'div'):
        return carries_mask(c.args[0]) or carries_mask(c.args[1])
    return c.op in ('muvar', 'setattr') or c.op == 'call' and c.args[0].startswith('numpy.ma.')
