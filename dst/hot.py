"""Where the library touches state which outlives a call.

A heuristic for the search only: the seeded generators prefer operations and
suspension points near such places.  Nothing is judged by it; a miss costs
probability, not soundness.
"""
import ast
import os

from . import boot, monitor, proc

MUTATE = {'append', 'add', 'setdefault', 'pop', 'update', 'clear', 'insert',
          'popitem', 'move_to_end', 'remove', 'extend', 'discard', 'sort', 'fill',
          'resize', 'put', 'partition', 'appendleft', 'popleft', 'setflags',
          'itemset', 'acquire', 'release'}
TRIVIAL = {'real', 'imag', 'flat', 'shape', 'T', 'flags', 'dtype', 'filters'}
PROTOCOL = {'__reduce__', '__reduce_ex__', '__getstate__', '__setstate__', '__copy__',
            '__deepcopy__', '__getnewargs__', '__getnewargs_ex__', '__del__'}
LINES = {}
NAMES = set()


def _root(n):
    """(name at the root, attributes on the way)"""
    attrs = []
    while True:
        if isinstance(n, ast.Attribute):
            attrs.append(n.attr)
            n = n.value
        elif isinstance(n, (ast.Subscript, ast.Starred)):
            n = n.value
        elif isinstance(n, ast.Call):
            n = n.func
        else:
            break
    return (n.id if isinstance(n, ast.Name) else None), attrs


class _Fn(ast.NodeVisitor):
    """Stores outside constructors to things from outside the function"""
    def __init__(self, out, tree):
        self.out = out
        self.modules = {(a.asname or a.name).split('.')[0]
                        for x in ast.walk(tree)
                        if isinstance(x, (ast.Import, ast.ImportFrom))
                        for a in x.names}
        self.stack = []

    def visit_FunctionDef(self, node):
        a = node.args
        args = a.posonlyargs + a.args + a.kwonlyargs + \
            [x for x in (a.vararg, a.kwarg) if x]
        params = {x.arg for x in args}
        kept = set()
        pos = a.posonlyargs + a.args
        for x, d in list(zip(pos[::-1], a.defaults[::-1])) + \
                list(zip(a.kwonlyargs, a.kw_defaults)):
            if isinstance(d, (ast.Dict, ast.List, ast.Set, ast.Call)):
                kept.add(x.arg)
        bound, outer = set(), set()
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                bound.add(x.id)
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                outer |= set(x.names)
        self.stack.append((node, params, kept, bound - outer, outer))
        for d in node.decorator_list:
            if any(isinstance(x, (ast.Name, ast.Attribute)) and
                   'cache' in (x.id if isinstance(x, ast.Name) else x.attr)
                   for x in ast.walk(d)):
                self.out['lines'] |= set(range(node.lineno, node.end_lineno + 1))
                self.out['names'].add(node.name)
        if node.name in PROTOCOL:
            self.out['lines'] |= set(range(node.lineno, node.end_lineno + 1))
        self.generic_visit(node)
        self.stack.pop()

    visit_AsyncFunctionDef = visit_FunctionDef

    def ctor(self):
        return any(f[0].name in ('__init__', '__new__') for f in self.stack)

    def mark(self, n, node, plain=False):
        """``n``: expression written to; ``plain``: the name itself is"""
        name, attrs = _root(n)
        if name is None or not self.stack or name in self.modules:
            return
        fn, params, kept, bound, outer = self.stack[-1]
        own = name in bound or name in params
        if attrs:
            if attrs[0] in TRIVIAL or (name in bound and name not in params):
                return
            if self.ctor() and name == 'self':
                return
            if name in params and name not in ('self', 'cls'):
                return
            self.out['names'] |= {x for x in attrs if x not in TRIVIAL}
        elif own and name not in kept:
            return
        elif plain and name not in outer:
            return
        else:
            self.out['names'].add(name)
        self.out['lines'] |= set(range(node.lineno, node.end_lineno + 1))

    def target(self, t, node):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x, node)
        elif isinstance(t, ast.Name):
            self.mark(t, node, plain=True)
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            self.mark(t, node)

    def visit_Assign(self, node):
        for t in node.targets:
            self.target(t, node)
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.target(node.target, node)
        self.generic_visit(node)

    visit_AnnAssign = visit_AugAssign

    def visit_Delete(self, node):
        for t in node.targets:
            self.target(t, node)

    def visit_NamedExpr(self, node):
        self.target(node.target, node)
        self.generic_visit(node)

    def visit_With(self, node):
        for x in node.items:
            if x.optional_vars is not None:
                self.target(x.optional_vars, node.items[0].context_expr)
        self.generic_visit(node)

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in MUTATE:
            self.mark(f.value, node)
        name = f.id if isinstance(f, ast.Name) else getattr(f, 'attr', '')
        if name in ('setattr', '__setattr__', 'delattr', 'copyto') and node.args \
                and not self.ctor():
            self.mark(node.args[0], node)
            for x in node.args:
                if isinstance(x, ast.Constant) and isinstance(x.value, str):
                    self.out['names'].add(x.value)
                    self.out['lines'].add(node.lineno)
        for k in node.keywords:
            if k.arg == 'out':
                self.mark(k.value, node)
        self.generic_visit(node)


def scan():
    trees = {}
    for d, _, files in os.walk(os.path.join(boot.SRC, 'sparse_ir')):
        for f in sorted(files):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                try:
                    trees[p] = ast.parse(open(p).read())
                except (SyntaxError, ValueError):
                    continue
    names = set()
    for p, t in sorted(trees.items()):
        out = {'names': set(), 'lines': set()}
        _Fn(out, t).visit(t)
        LINES[p] = out['lines']
        names |= out['names']
    names -= TRIVIAL | {'self', 'np', 'cls'}
    NAMES.update(names)
    for p, t in trees.items():
        for fn in ast.walk(t):
            if not isinstance(fn, ast.FunctionDef) or \
                    fn.name in ('__init__', '__new__'):
                continue
            for x in ast.walk(fn):
                n = x.attr if isinstance(x, ast.Attribute) else \
                    x.id if isinstance(x, ast.Name) else None
                if n in names:
                    LINES[p].add(x.lineno)
    return any(LINES.values())


_map = {}


def is_hot(cid, off):
    m = _map.get(cid)
    if m is None:
        m = _map[cid] = set()
        if 0 <= cid < len(monitor.CODES):
            c = monitor.CODES[cid]
            lines = LINES.get(os.path.realpath(c.co_filename))
            if lines:
                m.update(-x for x in lines)
                for start, end, ln in c.co_lines():
                    if ln in lines and ln != c.co_firstlineno:
                        m.update(range(start, end))
    return off in m


def spots(locs, after=3):
    """Indices of suspension points at or shortly after such places"""
    out = []
    last = -after - 1
    for i, (cid, off) in enumerate(locs):
        if is_hot(cid, off):
            last = i
        if i - last <= after:
            out.append(i)
    return out


def prepare(seed=0):
    """Find the operations and recipes passing such places"""
    import random
    from . import execute as E, world as W
    if not scan():
        return 0

    def probe():
        ops, recs = set(), set()
        seen = {}
        for j in range(10):
            w = W.gen_world(random.Random(seed * 100 + j), 14)
            by = {x['name']: x for x in w}
            objs = {}
            monitor.set_mode('line')
            hits = [0]

            def hook(kind, code, off):
                if is_hot(monitor.CODE_ID.get(code, -1), off):
                    hits[0] += 1
            monitor.HOOK = hook
            r = E.Runner(objs, {})
            for x in w:
                hits[0] = 0
                r.run([{'a': 'make', 'rec': x}])
                if hits[0]:
                    recs.add(x['t'])
            g = random.Random(j)
            for x in w:
                k = W.kind_of(x, by)
                for y in W.BY_KIND.get(k, ()):
                    if not y.weight or seen.get((y.name, k), 0) >= 6:
                        continue
                    seen[(y.name, k)] = seen.get((y.name, k), 0) + 1
                    hits[0] = 0
                    p = y.gen(g, w)
                    r.run([{'op': y.name, 'on': x['name'], 'p': p}])
                    if hits[0]:
                        ops.add((y.name, k))
            monitor.HOOK = None
        return ops, recs
    st, v = proc.run(probe, 120)
    if st == 'ok':
        W.HOT.update(v[0])
        W.HOT_REC.update(v[1])
    return len(W.HOT) + len(W.HOT_REC)
