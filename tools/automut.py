#!/usr/bin/env python3
"""automut.py PROPERTY [N] [SEED]: N random changes of the functions a check analyses; prints those it (and ALSO) does not report (V, R: trees of /verif and /repo; F: functions)"""
import ast, json, os, pathlib, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
prop, n, seed = sys.argv[1], int((sys.argv[2:] + ['60'])[0]), int((sys.argv[3:] + ['1'])[0])
V, R, W = os.environ.get('V', '/verif'), os.environ.get('R', '/repo'), int(os.environ.get('W', '8'))
files = os.environ.get('F')
rng = random.Random(seed)
quals = [q for q in (files.split(',') if files else json.load(open(f'{V}/evidence/{prop}.json'))['coverage']['functions_analysed'])]
AR = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: '//', ast.Pow: '*', ast.BitAnd: '|', ast.BitOr: '&'}
OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.BitAnd: '&', ast.BitOr: '|'}
CM = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
muts = []
def locate(q):
    parts = q.split('.')
    for k in range(len(parts) - 1, 0, -1):
        for f in ('/'.join(parts[:k]) + '.py', '/'.join(parts[:k]) + '/__init__.py'):
            p = pathlib.Path(R, f)
            if p.exists():
                return f, parts[k:]
    return None, None
def find(tree, names):
    for nm in names:
        tree = next((x for x in ast.walk(tree) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == nm), None)
        if tree is None: return None
    return tree
for q in quals:
    f, names = locate(q)
    if not f: continue
    src = pathlib.Path(R, f).read_text()
    fn = find(ast.parse(src), names)
    if not isinstance(fn, ast.FunctionDef): continue
    lines = src.split('\n')
    starts = [0]
    for l in src.encode().split(b'\n'): starts.append(starts[-1] + len(l) + 1)
    at = lambda l, c: starts[l - 1] + c
    b = src.encode()
    seg = lambda x: b[at(x.lineno, x.col_offset):at(x.end_lineno, x.end_col_offset)].decode()
    body = fn.body[1:] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else fn.body
    skip = set()
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in ('logging', 'warnings') or isinstance(x, (ast.Raise, ast.JoinedStr)):
                skip |= {id(y) for y in ast.walk(x)}
    names_ = sorted({x.id for s in body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in fn.args.args})
    for s in body:
        for x in ast.walk(s):
            if id(x) in skip: continue
            r = []
            if isinstance(x, ast.BinOp) and type(x.op) in AR:
                lo, hi = at(x.left.end_lineno, x.left.end_col_offset), at(x.right.lineno, x.right.col_offset)
                mid = b[lo:hi].decode()
                if OPS[type(x.op)] in mid: r.append((lo, hi, mid.replace(OPS[type(x.op)], AR[type(x.op)], 1)))
            elif isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in CM:
                c = x.comparators[0]
                lo, hi = at(x.left.end_lineno, x.left.end_col_offset), at(c.lineno, c.col_offset)
                lead = b[lo:hi].decode()
                r.append((lo, hi, lead[:lead.rfind(')') + 1] + ' ' + CM[type(x.ops[0])] + ' ' + ('(' if '(' in lead else '')))
            elif isinstance(x, ast.Constant) and isinstance(x.value, bool):
                r.append((at(x.lineno, x.col_offset), at(x.end_lineno, x.end_col_offset), str(not x.value)))
            elif isinstance(x, ast.Constant) and isinstance(x.value, (int, float)):
                r.append((at(x.lineno, x.col_offset), at(x.end_lineno, x.end_col_offset), repr(x.value + 1 if isinstance(x.value, int) else x.value*1.001 + (x.value == 0))))
            elif isinstance(x, ast.UnaryOp) and isinstance(x.op, (ast.USub, ast.Not)):
                r.append((at(x.lineno, x.col_offset), at(x.operand.lineno, x.operand.col_offset), ''))
            elif isinstance(x, ast.BoolOp):
                a, c = x.values[0], x.values[1]
                lo, hi = at(a.end_lineno, a.end_col_offset), at(c.lineno, c.col_offset)
                w = b[lo:hi].decode()
                r.append((lo, hi, w.replace('and', 'or') if 'and' in w else w.replace('or', 'and')))
            elif isinstance(x, (ast.Assign, ast.AugAssign, ast.Expr)) and x.lineno == x.end_lineno and not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)):
                if isinstance(x, ast.AugAssign) or isinstance(x, ast.Assign) and not isinstance(x.targets[0], ast.Name) or isinstance(x, ast.Expr):
                    r.append((at(x.lineno, x.col_offset), at(x.end_lineno, x.end_col_offset), 'pass'))
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in names_ and rng.random() < 0.5:
                near = [m for m in names_ if m != x.id and (m[:1] == x.id[:1] or len(m) == len(x.id) < 4)]
                if near: r.append((at(x.lineno, x.col_offset), at(x.end_lineno, x.end_col_offset), rng.choice(near)))
            elif isinstance(x, ast.Call) and len(x.args) == 2 and not x.keywords and rng.random() < 0.6:
                a, c = x.args
                r.append((at(a.lineno, a.col_offset), at(c.end_lineno, c.end_col_offset), f'{seg(c)}, {seg(a)}'))
            for lo, hi, new in r:
                out = b[:lo] + new.encode() + b[hi:]
                try: compile(out.decode(), f, 'exec')
                except SyntaxError: continue
                muts.append((f, x.lineno, src, out.decode()))
rng.shuffle(muts)
total = len(muts)
def one(m):
    f, l, src, new = m
    d = tempfile.mkdtemp(dir='/tmp/scr')
    try:
        for k in ('pyTMD', 'scripts', 'providers'):
            if os.path.isdir(R + '/' + k): shutil.copytree(R + '/' + k, d + '/' + k, symlinks=True)
        for k in os.listdir(R):
            if os.path.isfile(R + '/' + k): shutil.copy(R + '/' + k, d)
        (pathlib.Path(d)/f).write_text(new)
        for p in [prop] + [x for x in os.environ.get('ALSO', '').split(',') if x]:
            try:
                r = subprocess.run([sys.executable, V + '/check.py', p], capture_output=True, text=True, env={**os.environ, 'PYTMD_TREE': d, 'EVIDENCE_DIR': d + '/ev'}, timeout=900)
            except subprocess.TimeoutExpired:
                return f'TIMEOUT {f}:{l}'
            if r.returncode == 1: return 'caught'
        a, c = src.split('\n'), new.split('\n')
        k = next(i for i in range(max(len(a), len(c))) if a[i] != c[i])
        return f'rc={r.returncode} {f}:{k + 1}: {a[k].strip()[:110]}  =>  {c[k].strip()[:110]}' + ('' if r.returncode == 0 else '   ## ' + (r.stdout + r.stderr).strip().split('\n')[-1][:120])
    finally:
        shutil.rmtree(d)
with ThreadPoolExecutor(W) as ex:
    out = list(ex.map(one, muts[:n]))
print(f'{prop}: {total} changes, {len(out)} tried, {out.count("caught")} reported')
for o in sorted(o for o in out if o != 'caught'): print(o)
