"""P21 calls leave the caller's objects and the package as they are"""
import ast
from .common import *
from sa.effects import Effects, MUTABLE_LITERALS

EXPLANATION = ('Static effect analysis: a flow-sensitive may-alias analysis of every function (views, masked arrays, containers, dictionaries of options, attributes) with '
               'interprocedural summaries decides which objects of the caller and of the package an in-place operation can reach.')
# functions documented to change an argument: parameter -> attributes (None: any)
DOCUMENTED = {'pyTMD.spatial.expand_dims': {'obj': None},
              'pyTMD.io.model.read_constants': {'m': {'_constituents', '_type'}},
              'pyTMD.io.model.interpolate_constants': {'m': {'_constituents', '_type'}}}
# methods which answer a question: attributes they may set
QUERIES = {
    'pyTMD.io.constituents.constituents': {k: () for k in ('get', 'amplitude', 'phase', '__getitem__', '__len__', '__str__', 'doodson_number', 'cartwright_number', 'extended_doodson', 'shape', 'parse')},
    'pyTMD.io.model.model': dict({k: () for k in (
        'gzip', 'corrections', 'file_format', 'atl03', 'atl06', 'atl07', 'atl10', 'atl11', 'atl12', 'gla12', 'long_name', 'description', 'engine', 'multifile', 'global_ocean',
        'to_dict', 'serialize', 'parse_file', 'extract_constants', 'node_equilibrium', '__getitem__', '__str__', 'formats', 'ocean_elevation', 'load_elevation', 'ocean_current',
        'minor_constituents')},
        read_constants=('_constituents', '_type'), interpolate_constants=('_constituents', '_type')),
    'pyTMD.crs.crs': {k: () for k in ('from_input', 'direction', 'is_geographic', '__getitem__', '__str__')},
    'pyTMD.crs.datum': None,
    'pyTMD.io.model.DataBase': {k: () for k in ('keys', 'values', 'items', '__getitem__')},
}
SKIPPED = ('pyTMD.tools', )       # graphical widgets


def written(e):
    return f'{e.what} at {e.where}'


def run(ctx):
    ctx.rule('arguments', 'arrays, lists, dictionaries and objects given to a public function are not modified', 700)
    ctx.rule('objects', 'methods which answer a question leave their object as it is', 35)
    ctx.rule('state', 'no function changes module tables, class attributes, default arguments or settings of the process', 330)
    E = Effects(ctx.repo)
    for q, f in sorted(E.funcs.items()):
        if q.startswith(SKIPPED):
            continue
        ctx.analysed(q)
        name = f.node.name
        own = f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs
        params = [x.arg for x in own] + [x.arg for x in (f.node.args.vararg, f.node.args.kwarg) if x]
        private = name.startswith('_') and not (name.startswith('__') and name.endswith('__')) or q.startswith('pyTMD.utilities.reify')
        cls = q.rsplit('.', 1)[0]
        if not private:
            for p in params:
                if p in ('self', 'cls') and f.cls is not None:
                    continue
                allowed = DOCUMENTED.get(q, {}).get(p, ())
                bad = [e for e in E.modified(q, p) if allowed is not None and e.field not in allowed]
                ctx.ob('arguments', f'{q}({p})', not bad, f'{p} is modified by ' + '; '.join(map(written, bad))[:400], f.where)
        queries = QUERIES.get(cls, {})
        if f.cls is not None and (queries is None and name not in ('__init__', '__setitem__') or queries and name in queries):
            bad = [e for e in E.modified(q, 'self') if e.field not in (queries or {}).get(name, ())]
            ctx.ob('objects', q, not bad, 'self is modified by ' + '; '.join(map(written, bad))[:400], f.where)
        defaults = dict(zip([x.arg for x in (f.node.args.posonlyargs + f.node.args.args)][::-1], f.node.args.defaults[::-1]))
        defaults.update({x.arg: d for x, d in zip(f.node.args.kwonlyargs, f.node.args.kw_defaults) if d is not None})
        bad = [e for (r, *_), e in E.sum[q].effects.items() if r.startswith('global ') or isinstance(defaults.get(r), MUTABLE_LITERALS)]
        ctx.ob('state', q, not bad, 'changes ' + '; '.join(f'{e.root}: {written(e)}' for e in bad)[:400], f.where)
    ctx.info.update(statements_with_effects=sum(E.sites.values()), calls=sum(E.calls.values()), rounds=E.rounds + 1)
    ctx.assumptions += ['libraries modify only the arguments of their documented in-place functions (numpy.copyto, put, out=, ufunc.at, ...)',
                        'elements picked out of documented lists of numbers or strings are values']
