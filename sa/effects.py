"""Effects of calls on the objects of the caller and on the state of the package.

A flow-sensitive may-alias analysis of every function with summaries to a fixpoint.  The value of an expression is the set of
objects (parameters, globals) whose storage it may share and the set of objects which can be reached through it.  In-place
operations (stores into elements, attributes and slices, augmented assignments, list, dictionary and array methods, numpy functions
with an output argument, calls which modify their parameters) are effects on those objects.
"""
import ast
import re
from .repo import Func

# access paths: the object itself, one of its attributes, one of its elements
SAME, ATTR, ITEM = 'same', 'attr', 'item'


def part(own, p):
    """what is shared with the data ('d') or the mask ('m') of an array: an access path ends in the part, if only that is shared"""
    return {(r, how) for r, how in own if how[-2:] in ('/' + p, how[-2:] if '/' not in how else '')}


def only(own, p):
    return {(r, how if '/' in how else f'{how}/{p}') for r, how in part(own, p)}

VIEWS = {'numpy.' + k for k in ('asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'squeeze', 'ravel', 'reshape',
                                'transpose', 'swapaxes', 'moveaxis', 'rollaxis', 'flip', 'fliplr', 'flipud', 'rot90', 'real', 'imag', 'expand_dims', 'broadcast_to', 'diagonal',
                                'broadcast_arrays', 'split', 'array_split', 'hsplit', 'vsplit', 'diag', 'require', 'real_if_close', 'float64', 'float32', 'complex128', 'double',
                                'ma.array', 'ma.asarray', 'ma.asanyarray', 'ma.masked_array', 'ma.MaskedArray', 'ma.atleast_1d', 'ma.atleast_2d', 'ma.squeeze', 'ma.ravel', 'ma.reshape',
                                'ma.getdata', 'ma.getmask', 'ma.getmaskarray', 'ma.expand_dims', 'ma.transpose', 'ma.filled', 'ma.masked_values', 'matrix', 'asmatrix', 'mat')} - {'numpy.ma.masked_values'}
MASKED = {'numpy.ma.array', 'numpy.ma.masked_array', 'numpy.ma.MaskedArray'}
INPLACE = {'numpy.' + k: 0 for k in ('copyto', 'put', 'place', 'putmask', 'fill_diagonal', 'put_along_axis', 'random.shuffle', 'ma.putmask', 'ma.put', 'ma.harden_mask', 'ma.soften_mask')}
VIEW_METHODS = {'reshape', 'ravel', 'squeeze', 'transpose', 'swapaxes', 'view', 'filled', '__iter__', 'diagonal'}
ELEMENT_METHODS = {'get', 'items', 'values', 'keys', 'setdefault', 'pop', 'popitem', '__getitem__', '__next__'}
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'setdefault', 'popitem', 'sort', 'reverse', 'fill', 'put', 'itemset', 'resize', 'discard',
            'add', 'setflags', 'harden_mask', 'soften_mask', '__setitem__', '__delitem__', '__setattr__', '__delattr__', 'appendleft', 'popleft', 'shrink_mask', 'unshare_mask', 'byteswap_inplace',
            'intersection_update', 'difference_update', 'symmetric_difference_update', '__iadd__', 'move_to_end'}
STORED = {'append', 'extend', 'insert', 'update', 'setdefault', 'add', 'fill', '__setitem__', '__setattr__', 'appendleft'}
FRESH_ATTRS = {'shape', 'size', 'dtype', 'ndim', 'itemsize', 'nbytes', '__name__', '__doc__', 'stem', 'name', 'suffix', 'parent', 'parents'}
VIEW_ATTRS = {'T', 'data', 'mask', 'real', 'imag', 'flat', 'values', 'base', '_data', '_mask'}
SHALLOW = {'list', 'tuple', 'dict', 'set', 'sorted', 'frozenset', 'zip', 'enumerate', 'reversed', 'iter', 'map', 'filter', 'collections.OrderedDict', 'copy.copy', 'itertools.chain',
           'itertools.product', 'itertools.zip_longest', 'itertools.islice', 'next', 'types.SimpleNamespace', 'collections.ChainMap', 'collections.defaultdict', 'collections.deque', 'numpy.nditer',
           'numpy.ndenumerate', 'min', 'max', 'dataclasses.replace'}
IMMUTABLE = {'int', 'float', 'str', 'bool', 'bytes', 'complex', 'None', 'pathlib.Path', 'Path', 'float64', 'datetime.datetime', 'io.IOBase'}
MUTABLE_LITERALS = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Call)


# state of the process and functions which change it
PROCESS = {'os.environ', 'sys.path', 'sys.modules', 'warnings.filters'}
SETTINGS = {'os.chdir', 'os.umask', 'os.putenv', 'os.unsetenv', 'numpy.seterr', 'numpy.random.seed', 'random.seed', 'locale.setlocale', 'time.tzset', 'numpy.set_printoptions',
            'socket.setdefaulttimeout', 'sys.setrecursionlimit'}
CACHES = {'lru_cache', 'cache', 'cached_property'}

DEPTH = 4


class Value:
    """objects an expression may share its storage with, and objects which can be reached through 1, 2, ... elements (the last level holds
    everything deeper); a class of the repository when the object is known to be an instance"""
    __slots__ = ('own', 'levels', 'cls', 'plain')

    def __init__(self, own=(), levels=(), cls=None):
        self.own = frozenset(own)
        levels = [frozenset(x) for x in levels]
        self.levels = tuple(levels + [levels[-1] if levels else frozenset()] * (DEPTH - len(levels)))
        self.cls = cls
        self.plain = False      # an array which is not masked

    def join(self, *os):
        return Value(self.own.union(*[o.own for o in os]), [x.union(*[o.levels[i] for o in os]) for i, x in enumerate(self.levels)],
                     next((c for c in {o.cls for o in (self,) + os if o is not FRESH}), None) if len({o.cls for o in (self,) + os if o is not FRESH}) == 1 else None)

    def __eq__(self, o):
        return self.own == o.own and self.levels == o.levels and self.cls == o.cls

    def within(self, how):
        """an attribute or element"""
        inner = {(r, how + k[-2:] * ('/' in k)) for r, k in self.own}
        return Value(self.levels[0] | inner, [x | inner for x in self.levels[1:]] + [self.levels[-1] | inner])

    def holding(self, v, depth):
        """the object after v is stored in an element at a depth"""
        parts = (v.own,) + v.levels
        return Value(self.own, [x | (parts[min(i - depth + 1, DEPTH)] if i >= depth - 1 else frozenset()) for i, x in enumerate(self.levels)], self.cls)

    def elements(self):
        """a container of the same elements"""
        return Value((), [self.levels[0] | {(r, ITEM + k[-2:] * ('/' in k)) for r, k in self.own}] + list(self.levels[1:]))


FRESH = Value()


def container(*vs):
    """a new container of objects"""
    return FRESH.join(*[Value((), (v.own,) + v.levels[:-1]) for v in vs])


def shallow(v):
    """a copy: of an array with its values, of a container with the same elements (elements of the objects of the caller are taken for values)"""
    return Value((), [x - {(r, ITEM + how[-2:] * ('/' in how)) for r, how in v.own} for x in v.levels], v.cls)


class Effect:
    """an in-place operation on an object of the caller"""
    def __init__(self, root, how, where, what, field=None):
        self.root, self.how, self.where, self.what, self.field = root, how, where, what, field

    def key(self):
        return (self.root, self.how, self.field)


class Summary:
    def __init__(self):
        self.effects = {}       # (root, how) -> Effect
        self.ret = FRESH

    def state(self):
        return frozenset(self.effects), self.ret.own, self.ret.levels, self.ret.cls


class Effects:
    def __init__(self, repo, prefixes=('pyTMD',)):
        self.repo = repo
        self.funcs = {}
        for p in prefixes:
            for f in repo.functions(p):
                self.funcs.setdefault(f.qual, f)
        self.classes = {}           # name of a class -> name of a method -> function
        for f in self.funcs.values():
            if f.cls is not None:
                self.classes.setdefault(f.cls.name, {})[f.node.name] = f
        self.sum = {q: Summary() for q in self.funcs}
        self.sites = {q: 0 for q in self.funcs}
        self.calls = {q: 0 for q in self.funcs}
        for self.rounds in range(12):
            changed = False
            for q, f in self.funcs.items():
                before = self.sum[q].state()
                self.sites[q] = self.calls[q] = 0
                Body(self, f).run()
                changed = changed or self.sum[q].state() != before
            if not changed:
                break

    # ------------------------------------------------------------------
    def modified(self, qual, param):
        return [e for (r, *_), e in self.sum[qual].effects.items() if r == param]


def annotation(f, name):
    a = f.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        if x.arg == name:
            return ast.unparse(x.annotation) if x.annotation is not None else None
    return None


def immutable(f, name):
    s = annotation(f, name)
    if not s:       # documented type
        m = re.search(rf'^\s*{re.escape(name)}\s*:\s*(.+)$', ast.get_docstring(f.node) or '', re.M)
        if not m:
            return False
        s = re.sub(r',?\s*default.*', '', m.group(1)).replace(' or ', '|').replace(',', '|').strip('| ')
    for k in s.strip('"\'').split('|'):
        if k.strip().removeprefix('np.').removeprefix('or ').strip() not in IMMUTABLE:
            return False
    return True


class Body:
    def __init__(self, E, f):
        self.E, self.f = E, f
        self.m = f.module
        self.S = E.sum[f.qual]
        a = f.node.args
        self.env = {}
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for n in self.params:
            self.env[n] = FRESH if immutable(self.f, n) else Value({(n, SAME)}, [{(n, ITEM)}], self.instance(n))
        for x in (a.vararg, a.kwarg):
            if x is not None:       # a fresh container of objects of the caller
                self.env[x.arg] = Value((), [{(x.arg, ITEM)}])
        self.globals = set()
        self.returns = FRESH

    def run(self):
        self.body(self.f.node.body)
        self.S.ret = self.S.ret.join(self.returns)

    def instance(self, n):
        """class of a parameter: of the method, by its name, its documentation or a type assertion"""
        if n in ('self', 'cls') and self.f.cls is not None:
            return self.f.cls.name
        if n in self.E.classes and not annotation(self.f, n):
            return n
        m = re.search(rf'^\s*{n}\s*:.*\n\s*``(\w+)`` class object', ast.get_docstring(self.f.node) or '', re.M)
        if m and m.group(1) in self.E.classes:
            return m.group(1)
        for st in self.f.node.body:
            if isinstance(st, ast.Assert) and isinstance(st.test, ast.Call) and ast.unparse(st.test.func) == 'isinstance' and ast.unparse(st.test.args[0]) == n:
                k = ast.unparse(st.test.args[1]).split('.')[-1]
                if k in self.E.classes:
                    return k
        return None

    # -- effects -------------------------------------------------------
    def effect(self, v, node, what, field=None):
        for r, how in v.own:
            e = Effect(r, how, f'{self.m.path.name}:{node.lineno}', what, field if how.startswith(SAME) else None)
            self.S.effects.setdefault(e.key(), e)

    # -- statements ----------------------------------------------------
    def body(self, stmts):
        for s in stmts:
            self.stmt(s)

    def merge(self, *envs):
        names = {n for n in set().union(*envs) if '[' not in n or all(n in e for e in envs)}
        return {n: FRESH.join(*[e[n] for e in envs if n in e]) for n in names}

    @staticmethod
    def unmasked(test):
        """(name, branch in which it is not a masked array)"""
        branch = 0
        no = isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not)
        if no:
            test = test.operand
        if isinstance(test, ast.Call) and test.args and isinstance(test.args[0], ast.Name):
            f = ast.unparse(test.func).split('.')[-1]
            if f == 'isinstance' and ast.unparse(test.args[1]).split('.')[-1] == 'MaskedArray' or f in ('isMA', 'isMaskedArray', 'isarray') or \
                    f == 'hasattr' and isinstance(test.args[1], ast.Constant) and test.args[1].value == 'mask':
                return test.args[0].id, 0 if no else 1
        return None

    def branches(self, *blocks, narrow=None):
        start = dict(self.env)
        outs = []
        for i, b in enumerate(blocks):
            self.env = dict(start)
            if narrow and narrow[1] == i and narrow[0] in self.env:
                v = self.env[narrow[0]]
                v = self.env[narrow[0]] = Value(v.own, v.levels, v.cls)
                v.plain = True
            self.body(b)
            if not (b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))) or b and isinstance(b[-1], (ast.Continue, ast.Break)):
                outs.append(self.env)
        self.env = self.merge(*outs) if outs else start

    def loop(self, node, head):
        for _ in range(4):
            before = dict(self.env)
            head()
            self.body(node.body)
            self.env = self.merge(before, self.env)
            if all(n in before and before[n] == v for n, v in self.env.items()):
                break
        self.body(node.orelse)

    def stmt(self, s):
        k = type(s).__name__
        if k == 'Assign':
            v = self.ev(s.value)
            for t in s.targets:
                self.assign(t, v, s.value)
        elif k == 'AnnAssign':
            if s.value is not None:
                self.assign(s.target, self.ev(s.value), s.value)
        elif k == 'AugAssign':
            v = self.ev(s.value)
            t = s.target
            self.E.sites[self.f.qual] += 1
            if isinstance(t, ast.Name):
                x = self.name(t)
                own = {(r, how) for r, how in x.own if how.split('/')[0] in (SAME, ATTR)}
                self.effect(Value(own), s, f'{ast.unparse(t)} {self.op(s.op)}= ...')
            else:
                self.effect(self.ev(t.value), s, f'{ast.unparse(t)} {self.op(s.op)}= ...', t.attr if isinstance(t, ast.Attribute) else None)
                if isinstance(t, ast.Attribute):
                    x = self.ev(t)
                    self.effect(Value({(r, how) for r, how in x.own if how.split('/')[0] in (SAME, ATTR)}), s, f'{ast.unparse(t)} {self.op(s.op)}= ...')
                self.into(t, v)
        elif k == 'Return':
            if s.value is not None:
                self.returns = self.returns.join(self.ev(s.value))
        elif k == 'Expr':
            self.ev(s.value)
        elif k == 'If':
            self.ev(s.test)
            self.branches(s.body, s.orelse, narrow=self.unmasked(s.test))
        elif k in ('For', 'AsyncFor'):
            it = self.ev(s.iter)
            self.loop(s, lambda: self.assign(s.target, self.element(s.iter, it), None))
        elif k == 'While':
            self.loop(s, lambda: self.ev(s.test))
        elif k in ('With', 'AsyncWith'):
            for i in s.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, None)
            self.body(s.body)
        elif k == 'Try' or k == 'TryStar':
            start = dict(self.env)
            self.body(s.body)
            done = self.merge(start, self.env)
            outs = [self.env]
            self.body(s.orelse)
            outs = [self.env]
            for h in s.handlers:
                self.env = dict(done)
                if h.name:
                    self.env[h.name] = FRESH
                self.body(h.body)
                if not (h.body and isinstance(h.body[-1], (ast.Return, ast.Raise))):
                    outs.append(self.env)
            self.env = self.merge(*outs)
            self.body(s.finalbody)
        elif k == 'Delete':
            for t in s.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    self.E.sites[self.f.qual] += 1
                    self.effect(self.ev(t.value), s, f'del {ast.unparse(t)}')
                elif isinstance(t, ast.Name):
                    self.env.pop(t.id, None)
        elif k == 'Global':
            self.globals |= set(s.names)
        elif k in ('Raise', 'Assert'):
            for e in ast.iter_child_nodes(s):
                if isinstance(e, ast.expr):
                    self.ev(e)
        elif k in ('FunctionDef', 'ClassDef', 'AsyncFunctionDef'):
            self.env[s.name] = FRESH
        elif k == 'Match':
            self.ev(s.subject)
            self.branches(*[c.body for c in s.cases], [])

    @staticmethod
    def op(o):
        return {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'BitOr': '|', 'BitAnd': '&', 'Pow': '**'}.get(type(o).__name__, type(o).__name__)

    def element(self, node, v):
        """element of an iterated expression"""
        return v.within(ITEM)

    def assign(self, t, v, node):
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                e = Effect(f'global {self.m.name}.{t.id}', SAME, f'{self.m.path.name}:{t.lineno}', f'{t.id} = ...')
                self.S.effects.setdefault(e.key(), e)
            self.forget(t.id)
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(node, (ast.Tuple, ast.List)) and len(node.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts + node.elts):
                vs = [self.ev(x) for x in node.elts]
                for x, w, n in zip(t.elts, vs, node.elts):
                    self.assign(x, w, n)
            else:
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, v.within(ITEM), None)
        elif isinstance(t, (ast.Subscript, ast.Attribute)):
            self.E.sites[self.f.qual] += 1
            x = self.ev(t.value)
            if isinstance(t, ast.Attribute) and t.attr in ('data', 'mask') and x.cls is None:
                x = Value(part(x.own, t.attr[0]), x.levels)
            self.effect(x, t, f'{ast.unparse(t)} = ...', t.attr if isinstance(t, ast.Attribute) else None)
            if isinstance(t, ast.Subscript):
                self.ev(t.slice)
            if not (isinstance(t, ast.Subscript) and self.sliced(t.slice)):
                self.into(t, v)
                k = self.path(t)
                if k and not x.own:
                    self.env[k[1]] = v
                elif not k and isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                    self.forget(t.value.id)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, None)

    def into(self, node, v):
        """an object is stored at an attribute or element of the container at the root of an expression"""
        depth = 0
        while isinstance(node, (ast.Attribute, ast.Subscript, ast.Call)):
            if isinstance(node, ast.Call):
                node = node.func
                continue
            depth += not (isinstance(node, ast.Subscript) and self.sliced(node.slice) or isinstance(node, ast.Attribute) and node.attr in VIEW_ATTRS)
            node = node.value
        if isinstance(node, ast.Name) and node.id in self.env and depth:
            self.env[node.id] = self.env[node.id].holding(v, min(depth, DEPTH))
            self.forget(node.id)

    @staticmethod
    def path(n):
        """key of an element of a local container"""
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, (str, int)):
            return n.value.id, f'{n.value.id}[{n.slice.value!r}]'
        return None

    def forget(self, name):
        for k in [k for k in self.env if k.startswith(name + '[')]:
            del self.env[k]

    # -- expressions ---------------------------------------------------
    def name(self, n):
        if n.id in self.env:
            return self.env[n.id]
        r = self.E.repo.resolve(f'{self.m.name}.{n.id}')
        if isinstance(r, tuple) and r[0] == 'global':
            for st in r[1].assigns[r[2]]:
                if isinstance(getattr(st, 'value', None), MUTABLE_LITERALS):
                    g = f'global {r[1].name}.{r[2]}'
                    return Value({(g, SAME)}, [{(g, ITEM)}])
        return FRESH

    def dotted(self, n):
        """dotted name of an expression outside of the function, or None"""
        parts = []
        while isinstance(n, ast.Attribute):
            parts.append(n.attr)
            n = n.value
        if not isinstance(n, ast.Name) or n.id in self.env:
            return None
        base = self.m.imports.get(n.id)
        if base is None:
            base = n.id if n.id not in self.m.defs and n.id not in self.m.assigns else f'{self.m.name}.{n.id}'
        return '.'.join([base] + parts[::-1])

    @staticmethod
    def sliced(i):
        """an index which gives a part of an array"""
        if isinstance(i, ast.Slice):
            return True
        if isinstance(i, ast.Constant):
            return i.value is None or i.value is Ellipsis
        if isinstance(i, ast.Tuple):
            return True
        return False

    def ev(self, e):
        k = type(e).__name__
        if k == 'Name':
            return self.name(e)
        if k == 'Attribute':
            d = self.dotted(e)
            if d is not None:
                if d in PROCESS:
                    return Value({(f'global {d}', SAME)})
                r = self.E.repo.resolve(d)
                if isinstance(r, tuple) and r[0] == 'global':
                    g = f'global {r[1].name}.{r[2]}'
                    if any(isinstance(getattr(st, 'value', None), MUTABLE_LITERALS) for st in r[1].assigns[r[2]]):
                        return Value({(g, SAME)}, [{(g, ITEM)}])
                return FRESH
            v = self.ev(e.value)
            if e.attr in FRESH_ATTRS:
                return FRESH
            if e.attr in VIEW_ATTRS and v.cls is None:
                if e.attr in ('data', 'mask', '_data', '_mask'):
                    return Value(part(v.own, e.attr.strip('_')[0]), v.levels)
                return v
            return v.within(ATTR)
        if k == 'Subscript':
            p = self.path(e)
            if p and p[1] in self.env:
                return self.env[p[1]]
            v = self.ev(e.value)
            self.ev(e.slice)
            if isinstance(e.slice, (ast.Compare, ast.UnaryOp)) and not isinstance(getattr(e.slice, 'operand', None), ast.Constant):
                return v.elements()
            if self.sliced(e.slice):
                return v
            return v.within(ITEM)
        if k == 'Call':
            return self.call(e)
        if k in ('IfExp',):
            self.ev(e.test)
            return self.ev(e.body).join(self.ev(e.orelse))
        if k == 'BoolOp':
            return FRESH.join(*[self.ev(x) for x in e.values])
        if k in ('List', 'Tuple', 'Set'):
            return container(*[self.ev(x) for x in e.elts])
        if k == 'Dict':
            out = []
            for a, b in zip(e.keys, e.values):
                v = self.ev(b)
                out.append(v if a is not None else v.within(ITEM))
            return container(*out)
        if k == 'Starred':
            return self.ev(e.value)
        if k == 'NamedExpr':
            v = self.ev(e.value)
            self.assign(e.target, v, e.value)
            return v
        if k in ('ListComp', 'SetComp', 'GeneratorExp', 'DictComp'):
            saved = dict(self.env)
            for g in e.generators:
                self.assign(g.target, self.ev(g.iter).within(ITEM), None)
                for c in g.ifs:
                    self.ev(c)
            vs = [self.ev(e.key), self.ev(e.value)] if k == 'DictComp' else [self.ev(e.elt)]
            self.env = saved
            return container(*vs)
        if k == 'Lambda':
            return FRESH
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x)
        return FRESH

    # -- calls ---------------------------------------------------------
    def call(self, e):
        E = self.E
        E.calls[self.f.qual] += 1
        d = self.dotted(e.func)
        args = [self.ev(a) for a in e.args]
        kws = {}
        star = None
        for kw in e.keywords:
            v = self.ev(kw.value)
            if kw.arg is None:
                star = v.within(ITEM) if star is None else star.join(v.within(ITEM))
            else:
                kws[kw.arg] = v
        stars = [i for i, a in enumerate(e.args) if isinstance(a, ast.Starred)]
        everything = args + list(kws.values()) + ([star] if star else [])
        for out in ('out', 'output'):
            if out in kws and (d or '').startswith(('numpy', 'scipy')):
                self.effect(kws[out], e, f'{ast.unparse(e.func)}(..., {out}=...)')
        if d is not None:
            r = E.repo.resolve(d)
            if isinstance(r, Func):
                if r.qual in E.sum:
                    return self.apply(r, args, kws, star, stars, e, bound=None)
                return FRESH
            if isinstance(r, tuple) and r[0] == 'class':
                init = next((Func(r[1], st, cls=r[2]) for st in r[2].body if isinstance(st, ast.FunctionDef) and st.name == '__init__'), None)
                if init is not None and init.qual in E.sum:
                    self.apply(init, args, kws, star, stars, e, bound=FRESH)
                v = container(*everything)
                return Value(v.own, v.levels, r[2].name if r[2].name in E.classes else None)
            return self.library(d, e, args, kws, star, everything)
        if isinstance(e.func, ast.Attribute):
            v = self.ev(e.func.value)
            m = e.func.attr
            f = self.E.classes.get(v.cls, {}).get(m)
            if f is not None:
                return self.apply(f, args, kws, star, stars, e, bound=v)
            if m in MUTATORS:
                if isinstance(e.func.value, ast.Name):
                    self.forget(e.func.value.id)
                E.sites[self.f.qual] += 1
                self.effect(v, e, f'{ast.unparse(e.func)}(...)')
                if m in STORED:
                    for x in everything:
                        if m in ('extend', 'update'):
                            x = x.within(ITEM)
                        self.into(e.func, x)
            if m in ELEMENT_METHODS:
                return v.within(ITEM).join(*args) if m in ('get', 'setdefault', 'pop') else container(v.within(ITEM)) if m != 'popitem' else v.within(ITEM)
            if m in VIEW_METHODS:
                return v
            if m == 'astype':
                c = next((kw.value for kw in e.keywords if kw.arg == 'copy'), None)
                return v if isinstance(c, ast.Constant) and c.value is False else FRESH
            if m == 'copy':
                return shallow(v)
            return FRESH
        self.ev(e.func)
        return FRESH

    def library(self, d, e, args, kws, star, everything):
        E = self.E
        if d in SETTINGS and (args or kws):
            x = Effect(f'global settings of {d.rsplit(".", 1)[0]}', SAME, f'{self.m.path.name}:{e.lineno}', f'{ast.unparse(e.func)}(...)')
            self.S.effects.setdefault(x.key(), x)
            return FRESH
        if d in INPLACE and args:
            E.sites[self.f.qual] += 1
            self.effect(args[0], e, f'{ast.unparse(e.func)}(...)')
            return FRESH
        if d.endswith('.at') and d.startswith('numpy.') and args:
            E.sites[self.f.qual] += 1
            self.effect(args[0], e, f'{ast.unparse(e.func)}(...)')
            return FRESH
        copies = next((kw.value for kw in e.keywords if kw.arg == 'copy'), None)
        nocopy = isinstance(copies, ast.Constant) and copies.value is False
        copied = isinstance(copies, ast.Constant) and copies.value is True
        if d == 'numpy.nan_to_num' and nocopy and args:
            self.effect(args[0], e, f'{ast.unparse(e)}')
            return args[0]
        if d in VIEWS and not copied or d in ('numpy.array', 'numpy.meshgrid') and nocopy:
            if d in MASKED:
                data = args[0] if args else kws.get('data', FRESH)
                mask = kws.get('mask', args[1] if len(args) > 1 else None)
                out = Value(only(data.own, 'd') if data.plain or mask is not None and not data.own else data.own, data.levels)
                return out if mask is None else out.join(Value({(r, how.split('/')[0] + '/m') for r, how in mask.own}, mask.levels))
            return FRESH.join(*args, *[kws[k] for k in ('a', 'object', 'm', 'x', 'arr') if k in kws])
        if d in ('getattr', 'vars') and args:
            return args[0].within(ATTR) if d == 'getattr' else args[0]
        if d in ('setattr', 'delattr') and args:
            E.sites[self.f.qual] += 1
            self.effect(args[0], e, f'{d}({ast.unparse(e.args[0])}, ...)')
            if len(args) > 2:
                self.into(e.args[0], args[2])
            return FRESH
        if d in SHALLOW:
            if d in ('min', 'max', 'next'):
                return FRESH.join(*[a.within(ITEM) for a in args])
            if d == 'copy.copy':
                return shallow(args[0]) if args else FRESH
            if d in ('zip', 'enumerate', 'map', 'itertools.product', 'itertools.zip_longest'):
                return container(container(*[a.within(ITEM) for a in args]))
            return FRESH.join(*[a.elements() for a in args + list(kws.values())])
        return FRESH

    def apply(self, f, args, kws, star, stars, e, bound):
        """effects and value of a call of a function of the repository"""
        S = self.E.sum[f.qual]
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        deco = f.decorators()
        if f.cls is not None and 'staticmethod' not in deco:
            if bound is None and 'classmethod' not in deco:
                pass                    # Class.method(self, ...)
            else:
                args = [bound if bound is not None else FRESH] + list(args)
                stars = [i + 1 for i in stars]
        bind = {}
        rest = []
        spread = [args[i].within(ITEM) for i in stars]
        fixed = args[:stars[0]] if stars else args
        for i, v in enumerate(fixed):
            if i < len(pos):
                bind[pos[i]] = v
            else:
                rest.append(v)
        names = pos + [x.arg for x in a.kwonlyargs]
        extra = []
        for k, v in kws.items():
            if k in names:
                bind[k] = v
            else:
                extra.append(v)
        loose = FRESH.join(*spread, *([star] if star else []))
        for n in names:
            if n not in bind:
                bind[n] = loose
        if a.vararg:
            bind[a.vararg.arg] = container(*rest, *spread)
        if a.kwarg:
            bind[a.kwarg.arg] = container(*extra, *([star] if star else []))
        call = ast.unparse(e.func)
        for (r, how, field), eff in list(S.effects.items()):
            if r.startswith('global '):
                self.S.effects.setdefault(eff.key(), eff)
                continue
            v = bind.get(r)
            if v is None:
                continue
            p = how[-1] if '/' in how else ''
            how = how.split('/')[0]
            target = (part(v.own, p) if p else v.own) if how == SAME else v.within(how).own.union(*v.within(how).levels)
            for x, h in target:
                n = Effect(x, h, f'{self.m.path.name}:{e.lineno}', f'{call}(...) which does {eff.what} at {eff.where}' if ' which does ' not in eff.what else f'{call}(...), ' + eff.what,
                           field if h.startswith(SAME) else None)
                self.S.effects.setdefault(n.key(), n)
        out = FRESH
        for i, level in enumerate((S.ret.own,) + S.ret.levels):
            for r, how in level:
                if r.startswith('global '):
                    v = Value({(r, how)}, [{(r, ITEM)}])
                elif r in bind:
                    h = how.split('/')[0]
                    v = bind[r] if h == SAME else bind[r].within(h)
                    if '/' in how:
                        v = Value(only(v.own, how[-1]), v.levels)
                else:
                    continue
                out = out.join(Value(v.own, v.levels)) if i == 0 else FRESH.join(out, out.holding(v, i))
        if CACHES & {d.rsplit('.', 1)[-1] for d in deco} and not (f.node.returns is not None and set(re.split(r'\W*\|\W*', ast.unparse(f.node.returns))) <= IMMUTABLE):
            g = f'global result of {f.qual}'        # kept for the next call
            out = out.join(Value({(g, SAME)}, [{(g, ITEM)}]))
        cls = S.ret.cls
        if cls is None and f.cls is not None and ('self', SAME) in S.ret.own:
            cls = f.cls.name
        return Value(out.own, out.levels, cls)
