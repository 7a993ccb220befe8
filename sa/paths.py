"""Model of the file system for the analysis: paths are strings, files have given contents, directories given names.

An instance is used as the hook of the interpreter: operations of pathlib, os.path, json and re on values which are known are folded.
"""
import json
import posixpath
import re
from .repo import AnalysisBroken
from .term import T, C, NONE, TRUE, FALSE, sval

HOME = '/home/user'
HERE = '/work'
PATHS = {'pathlib.Path', 'pathlib.PurePath', 'pathlib.PosixPath', 'pathlib.PurePosixPath'}
FLAGS = {'re.' + n: getattr(re, n) for n in ('IGNORECASE', 'I', 'VERBOSE', 'X', 'MULTILINE', 'M', 'DOTALL', 'S')}


def text(t):
    """the path that a value stands for, or None"""
    if t.op == 'div':
        a, b = map(text, t.args)
        return None if a is None or b is None else posixpath.join(a, b)
    return sval(t)


class Files:
    def __init__(self, contents=None, found=None, exists=lambda p: True, extra=None):
        self.contents = contents or {}       # path -> parsed contents
        self.found = found or (lambda directory, pattern: None)
        self.exists = exists
        self.extra = extra                   # further hook
        self.asked = []                      # paths whose existence is tested

    def make(self, I, x, st):
        """a parsed value as a term; containers are objects of the heap"""
        if isinstance(x, dict):
            return I.alloc(st, T('dict', NONE, *[T('kv', C(k), self.make(I, v, st)) for k, v in x.items()]))
        if isinstance(x, (list, tuple)):
            return I.alloc(st, T('list', *[self.make(I, v, st) for v in x]))
        return C(x)

    def __call__(self, I, f, args, kws, st, node):
        if self.extra is not None:
            r = self.extra(I, f, args, kws, st, node)
            if r is not None:
                return r
        if f.op == 'ext':
            return self.function(I, f.args[0], [I.rd(a, st) for a in args], kws, st)
        if f.op == 'fn' and f.args[0] == 'pyTMD.utilities.get_data_path':
            p = I.deep(args[0] if args else kws['relpath'], st)
            return self.joined(['<data>'] + list(p.args if p.op in ('list', 'tuple') else [p]))
        if f.op == 'method':
            return self.method(I, f.args[0], I.rd(f.args[1], st), [I.rd(a, st) for a in args], kws, st)
        return None

    def joined(self, parts):
        parts = [p if isinstance(p, str) else text(p) for p in parts]
        return None if any(p is None for p in parts) else C(posixpath.join(*parts) if parts else '.')

    def function(self, I, name, a, kws, st):
        if name in PATHS or name == 'os.path.join':
            return self.joined(a)
        if name in ('pathlib.Path.cwd', 'os.getcwd'):
            return C(HERE)
        if name == 'os.fspath' and a and text(a[0]) is not None:
            return C(text(a[0]))
        if name.startswith('os.path.') and a and text(a[0]) is not None:
            return self.method(I, {'abspath': 'absolute', 'exists': 'exists', 'isfile': 'is_file', 'expanduser': 'expanduser', 'realpath': 'resolve'}.get(name[8:], name), a[0], a[1:], kws, st)
        if name == 'open' and a and text(a[0]) is not None:
            return T('file', C(text(a[0])))
        if name == 'json.load' and a and a[0].op == 'file':
            p = sval(a[0].args[0])
            if p not in self.contents:
                raise AnalysisBroken('contents of ' + p)
            return self.make(I, self.contents[p], st)
        if name == 'glob.glob' and a and text(a[0]) is not None:
            d, p = posixpath.split(text(a[0]))
            return self.glob(I, d, p, st)
        if name == 're.escape' and a and sval(a[0]) is not None:
            return C(re.escape(sval(a[0])))
        if name in ('re.compile', 're.search', 're.match', 're.fullmatch', 're.findall') and a and sval(a[0]) is not None:
            n = {'re.compile': 1}.get(name, 2)
            flags = self.flags(a[n:] + [I.rd(v, st) for k, v in kws.items() if k == 'flags'])
            if flags is None:
                return None
            rx = T('regex', a[0], C(int(flags)))
            return rx if n == 1 else self.regex(name[3:], rx, a[1], I, st)
        return None

    def flags(self, ts):
        out = 0
        for t in ts:
            if t.op == 'or' or t.op == 'call' and t.args[0] in ('|', 'bitor'):
                x = self.flags([x for x in t.args if isinstance(x, T)])
            else:
                x = FLAGS.get(t.args[0]) if t.op == 'ext' else int(t.args[0]) if t.op == 'c' and not isinstance(t.args[0], str) else None
            if x is None:
                return None
            out |= x
        return out

    def regex(self, name, rx, t, I, st):
        s = text(t)
        if s is None:
            return None
        r = getattr(re.compile(sval(rx.args[0]), int(rx.args[1].args[0])), name)(s)
        if name == 'findall':
            return I.alloc(st, T('list', *[T('tuple', *map(C, x)) if isinstance(x, tuple) else C(x) for x in r]))
        return NONE if r is None else T('match', *[C(x) for x in (r.group(0),) + r.groups()])

    def glob(self, I, directory, pattern, st):
        names = self.found(directory, pattern)
        if names is None:
            raise AnalysisBroken(f'files {pattern} in {directory}')
        return I.alloc(st, T('list', *map(C, names)))

    def method(self, I, name, recv, a, kws, st):
        if recv.op == 'regex' and name in ('search', 'match', 'fullmatch', 'findall') and a:
            return self.regex(name, recv, a[0], I, st)
        if recv.op == 'match' and name in ('group', 'groups'):
            return T('tuple', *recv.args[1:]) if name == 'groups' else recv.args[int(a[0].args[0]) if a else 0]
        if recv.op == 'file':
            return {'close': NONE, '__enter__': recv}.get(name)
        p = text(recv)
        if p is None:
            return None
        if name == 'expanduser':
            return C(re.sub('^~', HOME, p))
        if name in ('absolute', 'resolve'):
            return C(posixpath.normpath(posixpath.join(HERE, p)))
        if name == 'as_posix':
            return C(p)
        if name == 'joinpath':
            return self.joined([p] + a)
        if name in ('exists', 'is_file'):
            self.asked.append(p)
            return TRUE if self.exists(p) else FALSE
        if name == 'open':
            return T('file', C(p))
        if name in ('glob', 'rglob', 'iterdir'):
            return self.glob(I, p, sval(a[0]) if a else '*', st)
        if name == 'with_name' and a and text(a[0]) is not None:
            return C(posixpath.join(posixpath.dirname(p), text(a[0])))
        return None

    def attribute(self, c, name):
        p = text(c)
        if p is None:
            return None
        base = posixpath.basename(p)
        stem, dot, suffix = base.rpartition('.')
        return {'name': C(base), 'parent': C(posixpath.dirname(p)), 'stem': C(stem or base), 'suffix': C(dot + suffix if stem else '')}.get(name)
