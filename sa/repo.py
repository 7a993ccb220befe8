"""Loading and name resolution of the analysed tree (/repo).

Only source text is read.  A `Module` owns the syntax tree, its import table and
its top-level definitions; `Repo.resolve` follows import aliases, ``from x import y``
re-exports and package ``__init__`` modules to the defining function/class.
"""
import ast
import hashlib
import json
import os
import pathlib

REPO = pathlib.Path(os.environ.get('PYTMD_TREE', '/repo'))


class AnalysisBroken(Exception):
    """an anchor the analysis relies on is not there: the check gives no verdict"""


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.src = path.read_text(encoding='utf8')
        self.tree = ast.parse(self.src, filename=str(path))
        self.is_pkg = path.name == '__init__.py'
        self.imports = {}      # local alias -> dotted target
        self.stars = []        # from X import *
        self.defs = {}         # name -> FunctionDef/ClassDef (last definition wins)
        self.assigns = {}      # name -> list of value-bearing statements at module level
        self._scan(self.tree.body)

    def _absolute(self, node):
        base = node.module or ''
        if node.level:
            pkg = self.name.split('.')
            if not self.is_pkg:
                pkg = pkg[:-1]
            pkg = pkg[:len(pkg) - (node.level - 1)]
            base = '.'.join(pkg + ([base] if base else []))
        return base

    def _scan(self, body):
        for st in body:
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(st, ast.ImportFrom):
                base = self._absolute(st)
                for a in st.names:
                    if a.name == '*':
                        self.stars.append(base)
                    else:
                        self.imports[a.asname or a.name] = f'{base}.{a.name}'
            elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.defs[st.name] = st
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.assigns.setdefault(n.id, []).append(st)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.assigns.setdefault(st.target.id, []).append(st)
            elif isinstance(st, ast.If):
                self._scan(st.body)
                self._scan(st.orelse)
            elif isinstance(st, ast.Try):
                self._scan(st.body)
                for h in st.handlers:
                    self._scan(h.body)
                self._scan(st.orelse)
                self._scan(st.finalbody)
            elif isinstance(st, ast.With):
                self._scan(st.body)


class Func:
    """a function definition with its owner"""
    def __init__(self, module, node, cls=None, outer=None):
        self.module, self.node, self.cls, self.outer = module, node, cls, outer
        self.qual = f'{module.name}.' + (f'{cls.name}.' if cls is not None else '') + node.name

    @property
    def where(self):
        try:
            return f'{self.module.path.relative_to(REPO)}:{self.node.lineno}'
        except ValueError:
            return f'{self.module.path}:{self.node.lineno}'

    def decorators(self):
        out = []
        for d in self.node.decorator_list:
            if isinstance(d, ast.Call):
                d = d.func
            out.append(ast.unparse(d))
        return out

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


class Repo:
    def __init__(self, root=None):
        self.root = pathlib.Path(root) if root else REPO
        self.modules = {}
        self.extra = set()
        pk = self.root / 'pyTMD'
        if not pk.is_dir():
            raise AnalysisBroken(f'package directory {pk} not found')
        for p in sorted(pk.rglob('*.py')):
            rel = p.relative_to(self.root).with_suffix('')
            parts = list(rel.parts)
            if parts[-1] == '__init__':
                parts = parts[:-1]
            self.modules['.'.join(parts)] = Module('.'.join(parts), p)
        for d in ('scripts', 'providers'):
            for p in sorted((self.root / d).glob('*.py')):
                self.modules[f'{d}.{p.stem}'] = Module(f'{d}.{p.stem}', p)

    def load_extra(self, name, path):
        """a reference module of /verif/spec, resolved like the analysed tree"""
        self.modules[name] = Module(name, path)
        self.extra.add(name)

    # -- lookup -------------------------------------------------------
    def module(self, name):
        if name not in self.modules:
            raise AnalysisBroken(f'module {name} not found')
        return self.modules[name]

    def func(self, qual, optional=False):
        r = self.resolve(qual)
        if isinstance(r, Func):
            return r
        if optional:
            return None
        raise AnalysisBroken(f'function {qual} not found')

    def cls(self, qual):
        r = self.resolve(qual)
        if isinstance(r, tuple) and r[0] == 'class':
            return r
        raise AnalysisBroken(f'class {qual} not found')

    def resolve(self, dotted, seen=()):
        """dotted name -> Func | ('class', Module, node) | ('module', Module) |
        ('global', Module, name) | None when outside the tree"""
        if dotted in seen:
            return None
        seen = seen + (dotted,)
        # longest module prefix
        parts = dotted.split('.')
        if dotted in self.modules:
            # a package attribute may shadow the submodule (from .model import model)
            if len(parts) > 1:
                par = self.modules.get('.'.join(parts[:-1]))
                if par is not None and par.imports.get(parts[-1]) == f'{dotted}.{parts[-1]}':
                    r = self.resolve(f'{dotted}.{parts[-1]}', seen)
                    if r is not None:
                        return r
            return ('module', self.modules[dotted])
        for k in range(len(parts) - 1, 0, -1):
            m = self.modules.get('.'.join(parts[:k]))
            if m is None:
                continue
            return self._in_module(m, parts[k:], seen)
        return None

    def _in_module(self, m, rest, seen):
        name = rest[0]
        if name in m.defs:
            node = m.defs[name]
            if isinstance(node, ast.ClassDef):
                if len(rest) == 1:
                    return ('class', m, node)
                for st in node.body:
                    if isinstance(st, ast.FunctionDef) and st.name == rest[1]:
                        return Func(m, st, cls=node)
                return None
            return Func(m, node) if len(rest) == 1 else None
        if name in m.imports:
            r = self.resolve('.'.join([m.imports[name]] + rest[1:]), seen)
            if r is not None:
                return r
            return None
        if name in m.assigns:
            return ('global', m, name)
        for s in m.stars:
            r = self.resolve('.'.join([s] + rest), seen)
            if r is not None:
                return r
        return None

    def functions(self, prefix='pyTMD'):
        """every function and method (also nested ones) under a module prefix"""
        for name, m in self.modules.items():
            if not (name == prefix or name.startswith(prefix + '.')):
                continue
            yield from self._walk(m, m.tree.body, None)

    def _walk(self, m, body, cls):
        for st in body:
            if isinstance(st, ast.FunctionDef):
                yield Func(m, st, cls=cls)
            elif isinstance(st, ast.ClassDef):
                yield from self._walk(m, st.body, st)

    # -- data ---------------------------------------------------------
    def json(self, rel):
        p = self.root / rel
        if not p.exists():
            raise AnalysisBroken(f'data file {rel} not found')
        return json.loads(p.read_text(encoding='utf8'))

    def digest(self, names=None):
        h = hashlib.sha256()
        for n in sorted(names or (m for m in self.modules if m not in self.extra)):
            h.update(n.encode())
            h.update(self.modules[n].src.encode())
        return h.hexdigest()[:16]
