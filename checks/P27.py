"""P27: options which are left out"""
import ast
import re
from checks.common import *
from sa.repo import Func
from sa.interp import UNDEF

EXPLANATION = ('Static constant propagation over the option dictionaries: the value every documented option has when it is left out (of the signature, of the dictionary of keywords after the '
               'statements that complete it, or of the functions the dictionary is handed to) is compared with the value its documentation gives; every option that is read from '
               'a dictionary of keywords has a value there when it is left out; an option that is given is kept.')
ENTRY = re.compile(r'^([\w, *]+?)\s*:\s*(.*?),?\s+default:?\s+(.+)$')


def documented(text):
    """name -> text of the default, of the parameters of a docstring"""
    out, on = {}, False
    lines = text.split('\n')
    for k, l in enumerate(lines):
        if k + 1 < len(lines) and re.fullmatch(r'-{3,}', lines[k + 1].strip()):
            on = l.strip().lower() in ('parameters', 'arguments', 'keyword arguments', 'other parameters', 'options')
        m = ENTRY.match(l) if on else None
        if m:
            for n in m.group(1).split(','):
                out[n.strip(' *')] = m.group(3).strip()
    return out


def expression(text):
    """expression of a documented default, None for prose"""
    for t in (text, re.sub(r'\s+\(.*\)$', '', text)):
        t = t.strip().strip('`').rstrip('.,').strip()
        try:
            e = ast.parse(t, mode='eval').body
        except SyntaxError:
            continue
        if isinstance(e, ast.Name) or any(isinstance(x, (ast.Compare, ast.Lambda)) for x in ast.walk(e)):
            return None
        return e
    return None


class Options:
    """values of the options of functions when they are left out"""
    def __init__(self, repo):
        self.repo = repo
        self.memo = {}
        self.I = Interp(repo)

    def value(self, fn, e):
        st = State({}, {}, ())
        r = self.repo.resolve(ast.unparse(e)) if isinstance(e, ast.Attribute) else None
        if isinstance(r, tuple) and r[0] == 'global':
            fn, e = Func(r[1], fn.node), ast.Name(r[2], ast.Load())
        self.I.stack.append(fn)
        try:
            return self.I.deep(self.I.ev(e, st), st)
        finally:
            self.I.stack.pop()

    def signature(self, fn):
        a = fn.node.args
        pos = a.posonlyargs + a.args
        return {x.arg: self.value(fn, d) for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)) if d is not None}

    def callee(self, fn, f):
        m = fn.module
        if isinstance(f, ast.Name):
            return self.function(self.repo.resolve(f'{m.name}.{f.id}'))
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id in ('self', 'cls') and fn.cls is not None:
                return self.function(self.repo.resolve(f'{m.name}.{fn.cls.name}.{f.attr}'))
            d = ast.unparse(f)
            if re.fullmatch(r'[\w.]+', d):
                head, _, rest = d.partition('.')
                return self.function(self.repo.resolve(f'{m.imports.get(head, m.name + "." + head)}.{rest}'))
        return None

    def function(self, r):
        if isinstance(r, tuple) and r[0] == 'class':
            return next((Func(r[1], x, cls=r[2]) for x in r[2].body if isinstance(x, ast.FunctionDef) and x.name == '__init__'), None)
        return r if isinstance(r, Func) else None

    def of(self, fn):
        """(options of the signature, of the dictionary, functions it is handed to with the options set there)"""
        if fn.qual not in self.memo:
            self.memo[fn.qual] = None
            self.memo[fn.qual] = self.signature(fn), self.dictionary(fn), self.handed(fn)
        return self.memo[fn.qual] or ({}, {}, [])

    def dictionary(self, fn, given=()):
        """value of each option of the dictionary of keywords after the statements which complete it"""
        a = fn.node.args
        if a.kwarg is None:
            return {}
        kw = a.kwarg.arg
        named = lambda x: isinstance(x, ast.Name) and x.id == kw

        def completes(s):
            if isinstance(s, (ast.FunctionDef, ast.Return, ast.Raise)):
                return False
            for x in ast.walk(s):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and named(x.func.value) and x.func.attr in ('setdefault', 'update'):
                    return True
                if isinstance(x, ast.Name) and x.id == kw and isinstance(x.ctx, ast.Store):
                    return True
                if isinstance(x, ast.Subscript) and named(x.value) and isinstance(x.ctx, ast.Store):
                    return True
                if isinstance(x, ast.Call) and any(named(y) for y in x.args) and self.callee(fn, x.func) is not None:
                    return True
            return False
        keep = [s for s in fn.node.body if completes(s)]
        m = fn.module.imports
        need = {x.id for s in keep for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)} - {kw}
        slice_ = []
        for s in reversed(fn.node.body):
            names = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            if s in keep:
                slice_.append(s)
            elif names & need and isinstance(s, (ast.Assign, ast.AnnAssign)) and not any(named(x) for x in ast.walk(s)):
                slice_.append(s)
                need |= {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id in need - set(m):
                slice_.append(s)
        out = {}
        I = Interp(self.repo)
        st = State({}, {}, ())
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            st.env[x.arg] = S(x.arg)
        st.env[kw] = I.alloc(st, T('dict', NONE, *[T('kv', C(k), S('%' + k)) for k in given]))
        I.stack.append(fn)
        try:
            flow = I.block(slice_[::-1], st)
            st = flow.fall or st
            d = I.rd(st.env[kw], st)
            for kv in (d.args[1:] if d.op == 'dict' else ()):
                if sval(kv.args[0]) is not None:
                    out[sval(kv.args[0])] = I.deep(kv.args[1], st)
            for x in ast.walk(fn.node):      # options read with the value they have when left out
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and named(x.func.value) and x.func.attr in ('get', 'pop') and x.args:
                    k = sval(I.rd(I.ev(x.args[0], st), st)) if isinstance(x.args[0], ast.Constant) else None
                    if k is not None and k not in out and (len(x.args) > 1 or x.func.attr == 'get'):
                        try:
                            out[k] = I.deep(I.ev(x.args[1], st), st) if len(x.args) > 1 else NONE
                        except (AnalysisBroken, KeyError):
                            pass
        finally:
            I.stack.pop()
        return out

    def handed(self, fn):
        a = fn.node.args
        if a.kwarg is None:
            return []
        out = []
        for x in ast.walk(fn.node):
            if isinstance(x, ast.Call) and any(k.arg is None and isinstance(k.value, ast.Name) and k.value.id == a.kwarg.arg for k in x.keywords):
                g = self.callee(fn, x.func)
                out.append((g, {k.arg for k in x.keywords}))
        return out

    def values(self, fn, name, seen=()):
        """values of an option when it is left out (None: not known)"""
        if fn is None or fn.qual in seen:
            return []
        sig, dic, handed = self.of(fn)
        if name in sig:
            return [sig[name]]
        if name in fn.params():
            return []
        if name in dic:
            return [dic[name]]
        return [v for g, given in handed if name not in given for v in self.values(g, name, seen + (fn.qual,))]

    def outside(self, fn, seen=()):
        """the dictionary reaches functions out of the tree"""
        if fn is None or fn.qual in seen:
            return fn is None
        return any(self.outside(g, seen + (fn.qual,)) for g, _ in self.of(fn)[2])


def reads(fn):
    """options read from the dictionary of keywords where they may be missing: (name, line)"""
    kw = fn.node.args.kwarg.arg
    out = []

    def mentions(test, yes):
        """names known to be given when a test is true (false)"""
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == yes:
                return {n for v in test.values for n in mentions(v, yes)}
            return set()
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return mentions(test.operand, not yes)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Constant) and isinstance(test.ops[0], ast.In if yes else ast.NotIn):
            c = test.comparators[0]
            c = c.func.value if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'keys' else c
            if isinstance(c, ast.Name) and c.id == kw:
                return {test.left.value}
        return set()

    def expr(x, known):
        if isinstance(x, ast.BoolOp):
            for v in x.values:
                expr(v, known)
                known = known | mentions(v, isinstance(x.op, ast.And))
            return
        if isinstance(x, ast.IfExp):
            expr(x.test, known)
            expr(x.body, known | mentions(x.test, True))
            expr(x.orelse, known | mentions(x.test, False))
            return
        if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == kw and isinstance(x.slice, ast.Constant) and isinstance(x.ctx, ast.Load):
            if x.slice.value not in known:
                out.append((x.slice.value, x.lineno))
        for c in ast.iter_child_nodes(x):
            expr(c, known)

    def stored(s):
        return {x.slice.value for x in ast.walk(s) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == kw and isinstance(x.slice, ast.Constant)}

    def block(body, known):
        for s in body:
            if isinstance(s, (ast.If, ast.While)):
                expr(s.test, known)
                block(s.body, known | mentions(s.test, True))
                block(s.orelse, known | mentions(s.test, False))
                ends = lambda b: bool(b) and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
                if ends(s.body):
                    known = known | mentions(s.test, False)
                both = {n for x in s.body for n in stored(x)} & ({n for x in s.orelse for n in stored(x)} | mentions(s.test, False))
                known = known | both
            elif isinstance(s, ast.Try):
                catches = any(h.type is None or any(isinstance(n, ast.Name) and n.id in ('KeyError', 'LookupError', 'Exception') for n in ast.walk(h.type)) for h in s.handlers)
                if not catches:
                    block(s.body, known)
                for h in s.handlers:
                    block(h.body, known)
                block(s.orelse, known)
                block(s.finalbody, known)
            elif isinstance(s, (ast.For, ast.With)):
                for c in ([s.iter] if isinstance(s, ast.For) else [i.context_expr for i in s.items]):
                    expr(c, known)
                block(s.body, known)
                block(getattr(s, 'orelse', []), known)
            else:
                expr(s, known)
                known = known | stored(s)
    block(fn.node.body, set())
    return out


def run(ctx):
    ctx.rule('default', 'an option which is left out has the value its documentation gives', 400)
    ctx.rule('read', 'an option which is read from a dictionary of keywords has a value there when it is left out', 150)
    ctx.rule('kept', 'an option which is given is not replaced by its default', 150)
    O = Options(ctx.repo)
    fns = [f for f in ctx.repo.functions('pyTMD')]
    for fn in fns:
        name = fn.qual[len('pyTMD.'):]
        doc = documented(ast.get_docstring(fn.node) or '')
        if fn.node.name == '__init__' and fn.cls is not None:
            doc = {**documented(ast.get_docstring(fn.cls) or ''), **doc}
        if doc:
            ctx.analysed(fn.qual)
        for n, text in sorted(doc.items()):
            e = expression(text)
            if e is None or any(isinstance(x, ast.Name) and x.id not in fn.module.imports and x.id not in fn.module.assigns and ctx.repo.resolve(x.id) is None and x.id not in ('None', 'True', 'False') for x in ast.walk(e)):
                continue
            with ctx.case(f'{name}:{n}'):
                found = O.values(fn, n)
                if not found and O.outside(fn):
                    continue
                want = O.value(fn, e)
                if not found:
                    ctx.ob('default', f'{name}:{n}', False, f'documented as {text}, has no value when it is left out', fn.where)
                for v in found[:1] if len(set(found)) == 1 else found:
                    if v is want:
                        ctx.ob('default', f'{name}:{n}', True, '', fn.where)
                    else:
                        compare(ctx, 'default', f'{name}:{n}', v, want, NF(), fn.where, f'{n}, documented as {text},')
        if fn.node.args.kwarg is not None:
            dic = O.of(fn)[1]
            with ctx.case(f'{name}:given'):
                kept = O.dictionary(fn, sorted(dic))
                for n in sorted(dic):
                    ctx.ob('kept', f'{name}:{n}', n in kept and any(x is S('%' + n) for x in walk(kept[n])), f'option {n} is given and is replaced by {show(kept[n], 3) if n in kept else "nothing"}', fn.where)
            for n, line in sorted(set(reads(fn))):
                ctx.ob('read', f'{name}:{n}', n in dic and not any(x is UNDEF for x in leaves(dic[n])), f'option {n} is read, and is missing when it is left out', f'{fn.where.rsplit(":", 1)[0]}:{line}')
