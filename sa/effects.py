"""Side effects: a flow-sensitive may-alias analysis with summaries.

Every function is analysed once per round: a value is the set of objects it
may be (an argument, something reachable from it, an object of the module, a
new object), and every statement that changes an object is an effect on
these.  Calls are replaced by the summary of all functions they may reach;
the rounds are repeated until no summary grows.
"""

from __future__ import annotations

import ast

from .repo import AnalysisBroken, loc

MUTATORS = {
    'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse',
    'clear', 'update', 'setdefault', 'popitem', 'add', 'discard', 'fill',
    'resize', 'put', 'partition', 'setflags', 'itemset', 'appendleft',
    'popleft', 'extendleft', 'difference_update', 'intersection_update',
    'symmetric_difference_update', '__setitem__', '__delitem__', 'byteswap',
}
KEEPS = {'append', 'insert', 'add', 'appendleft', 'setdefault', 'extend',
         'update', 'extendleft', '__setitem__'}
NP_MUT = {'copyto', 'put', 'place', 'putmask', 'fill_diagonal',
          'put_along_axis', 'shuffle'}
# calls that may return (a view of) their argument
SAME = {'asarray', 'asanyarray', 'atleast_1d', 'atleast_2d', 'atleast_3d',
        'ravel', 'reshape', 'squeeze', 'transpose', 'broadcast_to',
        'ascontiguousarray', 'asfarray', 'expand_dims', 'swapaxes',
        'moveaxis', 'real', 'imag', 'flip', 'fliplr', 'flipud', 'rot90',
        'array_split', 'split', 'hsplit', 'vsplit', 'diagonal',
        'broadcast_arrays', 'nan_to_num', 'require', 'cast'}
SAME_METHODS = {'reshape', 'ravel', 'view', 'squeeze', 'transpose',
                'swapaxes', 'diagonal', 'flatten_view', 'T', 'flat', 'real',
                'imag', '__iter__', '__enter__', 'base'}
# calls whose result contains the elements of their arguments
SHALLOW = {'list', 'tuple', 'set', 'frozenset', 'dict', 'sorted', 'reversed',
           'zip', 'enumerate', 'iter', 'filter', 'map', 'chain', 'copy',
           'islice', 'deque', 'next', 'min', 'max', 'MappingProxyType',
           'from_iterable', 'product', 'pairwise', 'OrderedDict',
           'namedtuple', 'partial', 'replace'}
SHALLOW_METHODS = {'copy', 'items', 'values', 'keys', '__copy__', 'union'}
PURE_BUILTIN = {'len', 'abs', 'sum', 'float', 'int', 'str', 'bool', 'round',
                'isinstance', 'issubclass', 'hasattr', 'callable', 'type',
                'repr', 'range', 'any', 'all', 'pow', 'print', 'id', 'hash',
                'ord', 'chr', 'divmod', 'format', 'complex', 'bytes',
                'super', 'slice', 'vars', 'dir', 'object', 'property'}
IMMUTABLE = {'float', 'int', 'str', 'bool', 'complex', 'bytes', 'None',
             'NoneType', 'Literal', 'Optional', 'Union', 't', 'typing',
             'Final', 'ModuleType', 'types', 'Polygon', 'MultiPolygon',
             'LineString', 'Point', 'MultiLineString', 'LinearRing',
             'Number', 'Callable', 'Type', 'type'}
AMBIENT = ('random', 'numpy.random', 'time', 'datetime', 'os.environ',
           'os.getenv', 'os.urandom', 'uuid', 'secrets', 'locale',
           'socket', 'subprocess', 'threading', 'os.getpid', 'os.getcwd',
           'platform', 'getpass', 'tempfile')
AMBIENT_WRITE = ('numpy.seterr', 'numpy.seterrcall', 'numpy.setbufsize',
                 'numpy.set_printoptions', 'numpy.random.seed',
                 'random.seed', 'warnings.filterwarnings',
                 'warnings.simplefilter', 'warnings.resetwarnings',
                 'sys.setrecursionlimit', 'os.chdir', 'os.putenv',
                 'os.remove', 'os.mkdir', 'os.makedirs', 'locale.setlocale',
                 'builtins.open', 'builtins.exec', 'builtins.eval',
                 'decimal.getcontext', 'decimal.setcontext',
                 'gc.disable', 'atexit.register', 'shapely.set_precision_')


class Fn:
    def __init__(self, module, node, qual, cls):
        self.module, self.node, self.qual, self.cls = module, node, qual, cls
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.ann = {x.arg: x.annotation
                    for x in a.posonlyargs + a.args + a.kwonlyargs}
        self.defaults = {}
        for p, v in zip(self.pos[len(self.pos) - len(a.defaults):],
                        a.defaults):
            self.defaults[p] = v
        for p, v in zip(self.kwonly, a.kw_defaults):
            if v is not None:
                self.defaults[p] = v
        self.kind = 'function'
        for d in getattr(node, 'decorator_list', []):
            n = d.attr if isinstance(d, ast.Attribute) else getattr(
                d, 'id', '')
            if n in ('property', 'cached_property'):
                self.kind = 'property'
            elif n == 'setter':
                self.kind = 'setter'
            elif n in ('staticmethod', 'classmethod'):
                self.kind = n
        self.muts = {}       # (origin, field) -> (where, text)
        self.stores = set()  # (origin, field, origin)
        self.rets = set()
        self.heap = {}       # (site, field) -> set, of returned objects
        self.ambient = {}    # what -> where
        self.calls = 0

    @property
    def name(self):
        return self.node.name

    @property
    def key(self):
        return (self.module.name, self.qual)

    def version(self):
        return (len(self.muts), len(self.stores), len(self.rets),
                sum(len(v) for v in self.heap.values()), len(self.ambient))


class Klass:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.methods, self.setters, self.attrs = {}, {}, {}
        self.bases, self.subs, self.ann = [], [], {}

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def allsubs(self):
        out = [self]
        for s in self.subs:
            for c in s.allsubs():
                if c not in out:
                    out.append(c)
        return out


def immutable_ann(a):
    """Does an annotation name only immutable types?"""
    if a is None:
        return False
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        try:
            a = ast.parse(a.value, mode='eval').body
        except SyntaxError:
            return False
    if isinstance(a, ast.Constant):
        return a.value is None
    if isinstance(a, ast.Name):
        return a.id in IMMUTABLE
    if isinstance(a, ast.Attribute):
        return a.attr in IMMUTABLE
    if isinstance(a, ast.Subscript):
        n = a.value.attr if isinstance(a.value, ast.Attribute) else getattr(
            a.value, 'id', '')
        if n in ('Literal', 'Callable', 'Type', 'type'):
            return True
        if n in ('Optional', 'Union', 'Final', 'Tuple', 'tuple'):
            s = a.slice
            es = s.elts if isinstance(s, ast.Tuple) else [s]
            return all(immutable_ann(e) or isinstance(e, ast.Constant)
                       for e in es)
        return False
    if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
        return immutable_ann(a.left) and immutable_ann(a.right)
    return False


def scalar_ann(a):
    """Immutable, and not a tuple (a list may be given for one)."""
    return immutable_ann(a) and not any(
        isinstance(x, (ast.Name, ast.Attribute)) and (
            x.id if isinstance(x, ast.Name) else x.attr) in (
            'Tuple', 'tuple') for x in ast.walk(a))


def mutable_expr(e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp,
                      ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        n = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(
            e.func, 'id', '')
        return n in ('list', 'dict', 'set', 'defaultdict', 'OrderedDict',
                     'deque', 'array', 'zeros', 'ones', 'empty', 'linspace',
                     'arange', 'bytearray', 'Counter', 'asarray', 'full')
    return False


class World:
    def __init__(self, repo):
        self.repo = repo
        self.ns = {}
        self.fns, self.classes = {}, {}
        self.by_method = {}
        for m in repo.modules.values():
            if not m.name.startswith('sa_'):
                self.ns[m.name] = {}
        for m in repo.modules.values():
            if m.name in self.ns:
                self.load(m)
        for k in self.classes.values():
            for b in k.node.bases:
                r = self.resolve(b, k.module)
                if r and r[0] == 'class' and r[1] is not k:
                    k.bases.append(r[1])
                    r[1].subs.append(k)
        for f in self.fns.values():
            if f.cls is not None:
                self.by_method.setdefault(f.name, []).append(f)
        self.guess()
        self.infer()

    # ------------------------------------------------- parameters of helpers
    def guess(self):
        """Parameters without annotation of private functions take the one
        that all arguments given to them in the module have."""
        refs, calls, where, taken = {}, {}, {}, set()
        for f in self.fns.values():
            where.setdefault((f.module.name, f.name), []).append(f)
            for x in ast.walk(f.node):
                if isinstance(x, ast.Call) and isinstance(
                        x.func, (ast.Name, ast.Attribute)):
                    n = x.func.id if isinstance(
                        x.func, ast.Name) else x.func.attr
                    calls.setdefault((f.module.name, n), []).append((f, x))
        for m in self.repo.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, (ast.Name, ast.Attribute)):
                    n = x.id if isinstance(x, ast.Name) else x.attr
                    refs.setdefault(n, {}).setdefault(m.name, 0)
                    refs[n][m.name] += 1
                elif isinstance(x, (ast.Import, ast.ImportFrom)):
                    taken |= {a.name for a in x.names}
        for _ in range(3):
            more = False
            for f in self.fns.values():
                n, k = f.name, (f.module.name, f.name)
                if (not n.startswith('_') or n.startswith('__')
                        or len(where[k]) > 1 or f.vararg or f.kwarg
                        or n in taken or refs.get(n, {}).get(k[0], 0) != len(
                            calls.get(k, ()))
                        or f.cls is not None and len(refs[n]) > 1):
                    continue
                skip = f.cls is not None and f.kind != 'staticmethod'
                pos = f.pos[1:] if skip else f.pos
                for p in pos + f.kwonly:
                    if f.ann.get(p) is not None:
                        continue
                    t = {self.given(f, p, pos, g, c)
                         for g, c in calls.get(k, ())}
                    if t and None not in t:
                        f.ann[p] = ast.parse(
                            t.pop() if len(t) == 1 else 'ArrayLike' if all(
                                x in ('float', 'ArrayLike', 'ndarray')
                                for x in t) else 'object', mode='eval').body
                        if isinstance(f.ann[p], ast.Name) and (
                                f.ann[p].id == 'object'):
                            f.ann[p] = None
                        else:
                            more = True
            if not more:
                break

    def given(self, f, p, pos, g, call):
        """The annotation of the argument p of a call in g (text or None)."""
        e = next((k.value for k in call.keywords if k.arg == p), None)
        if e is None:
            i = pos.index(p) if p in pos else len(call.args)
            if any(isinstance(a, ast.Starred) for a in call.args) or any(
                    k.arg is None for k in call.keywords):
                return None
            e = call.args[i] if i < len(call.args) else f.defaults.get(p)
        if e is None:
            return None
        if isinstance(e, ast.Name) and g.module is f.module:
            if g.cls is not None and g.pos[:1] == [e.id] and (
                    g.kind not in ('staticmethod', 'classmethod')):
                return g.cls.node.name
            if e.id in g.ann:
                a = g.ann[e.id]
                if a is None:
                    return None
                if not any(isinstance(x, ast.Name) and x.id == e.id
                           and isinstance(x.ctx, ast.Store)
                           for x in ast.walk(g.node)):
                    return ast.unparse(a)
                return 'ArrayLike' if any(
                    w in ast.unparse(a) for w in ('ArrayLike', 'ndarray')
                ) else None
        return {'s': 'float', 'a': 'ndarray'}.get(
            self.etype(g, e, self.locals(g)))

    def locals(self, f):
        loc_ = {}
        for s in ast.walk(f.node):
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        loc_.setdefault(t.id, []).append(s.value)
        return loc_

    # ---------------------------------------------------- attribute types
    def infer(self):
        """What attributes hold: 's' numbers and the like, 'a' numeric
        arrays, 'o' other objects (by name, over all classes)."""
        found = {}
        for f in self.fns.values():
            loc_ = {}
            for s in ast.walk(f.node):
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            loc_.setdefault(t.id, []).append(s.value)
            for s in ast.walk(f.node):
                if isinstance(s, (ast.Assign, ast.AugAssign)):
                    ts = s.targets if isinstance(s, ast.Assign) else [
                        s.target]
                    for t in ts:
                        if isinstance(t, ast.Attribute):
                            found.setdefault(t.attr, []).append(
                                (f, s.value, loc_))
                        elif isinstance(t, (ast.Tuple, ast.List)):
                            for x in ast.walk(t):
                                if isinstance(x, ast.Attribute):
                                    found.setdefault(x.attr, []).append(
                                        (f, None, loc_))
                elif isinstance(s, ast.AnnAssign) and isinstance(
                        s.target, ast.Attribute):
                    found.setdefault(s.target.attr, []).append(
                        (f, s.annotation if immutable_ann(s.annotation)
                         else s.value, loc_))
        for k in self.classes.values():
            for n, a in k.ann.items():
                found.setdefault(n, []).append((None, a, 'ann'))
            for n, v in k.attrs.items():
                found.setdefault(n, []).append((None, v, {}))
        self.lists = {n for n, vs in found.items() if any(
            isinstance(e, (ast.List, ast.ListComp)) or lo == 'ann'
            and isinstance(e, ast.Subscript)
            and ast.unparse(e.value).split('.')[-1] in ('List', 'list')
            for _f, e, lo in vs)}
        self.atype = {}
        for n, vs in found.items():
            t = {self.etype(f, e, lo) for f, e, lo in vs}
            self.atype[n] = 'o' if 'o' in t else 'a' if 'a' in t else 's'
        for n in self.by_method:
            fs = self.by_method[n]
            if any(f.kind == 'property' for f in fs):
                t = {'s' if immutable_ann(f.node.returns) else 'o'
                     for f in fs}
                if n not in self.atype:
                    self.atype[n] = 'o' if 'o' in t else 's'

    def etype(self, f, e, loc_, depth=0):
        if loc_ == 'ann':
            return 's' if immutable_ann(e) else 'o'
        if e is None or depth > 4:
            return 'o'
        if isinstance(e, (ast.Constant, ast.JoinedStr, ast.Compare,
                          ast.FormattedValue)):
            return 's'
        sub = lambda x: self.etype(f, x, loc_, depth + 1)
        if isinstance(e, ast.UnaryOp):
            return sub(e.operand) if not isinstance(e.op, ast.Not) else 's'
        if isinstance(e, ast.BinOp):
            t = sub(e.left) + sub(e.right)
            if 'a' in t or isinstance(e.op, (ast.Div, ast.Pow)):
                return 's' if t == 'ss' else 'a'
            return 's' if t == 'ss' else 'o'
        if isinstance(e, ast.IfExp):
            t = sub(e.body) + sub(e.orelse)
            return 'o' if 'o' in t else 'a' if 'a' in t else 's'
        if isinstance(e, ast.BoolOp):
            t = ''.join(sub(x) for x in e.values)
            return 'o' if 'o' in t else 'a' if 'a' in t else 's'
        if isinstance(e, ast.Name):
            if f is not None and e.id in loc_ and e.id not in f.ann:
                t = ''.join(sub(x) for x in loc_[e.id])
                return 'o' if 'o' in t else 'a' if 'a' in t else 's'
            if f is not None and e.id in f.ann and e.id not in loc_:
                return 's' if immutable_ann(f.ann[e.id]) else 'o'
            if f is not None and e.id in f.ann and e.id in loc_:
                t = ''.join(sub(x) for x in loc_[e.id] if not any(
                    isinstance(y, ast.Name) and y.id == e.id
                    for y in ast.walk(x)))
                return 's' if immutable_ann(f.ann[e.id]) and set(t) <= {
                    's'} else 'o'
            return 'o'
        if isinstance(e, ast.Call):
            r = self.resolve(e.func, f.module) if f is not None else None
            if r and r[0] == 'ext':
                p = r[1].split('.')
                if p[0] == 'math' or p[0] == 'builtins' and p[-1] in (
                        'abs', 'float', 'int', 'str', 'bool', 'len',
                        'round', 'sum', 'repr'):
                    return 's'
                if p[-1] in ('min', 'max') and p[0] == 'builtins':
                    t = ''.join(sub(x) for x in e.args)
                    return 's' if set(t) <= {'s'} else 'o'
                if p[0] == 'numpy' and p[-1] not in SAME:
                    return 'a'
            if r and r[0] == 'func':
                g = r[1]
                if g.node.returns is not None:
                    return 's' if immutable_ann(g.node.returns) else 'o'
                rs = [x.value for x in ast.walk(g.node)
                      if isinstance(x, ast.Return)]
                if not rs or any(isinstance(x, (ast.Yield, ast.YieldFrom,
                                                ast.Lambda, ast.FunctionDef))
                                 and x is not g.node
                                 for x in ast.walk(g.node)):
                    return 'o'
                lo = self.locals(g)
                t = ''.join(self.etype(g, x, lo, depth + 1) for x in rs)
                return 'o' if 'o' in t else 'a' if 'a' in t else 's'
            return 'o'
        if isinstance(e, ast.Attribute):
            r = self.resolve(e, f.module) if f is not None else None
            if r and r[0] == 'ext':
                return 's'
        return 'o'

    # ------------------------------------------------------------ names
    def load(self, m):
        ns = self.ns[m.name]
        for s in _flat(m.tree.body):
            if isinstance(s, ast.FunctionDef):
                f = Fn(m, s, s.name, None)
                self.fns[f.key] = f
                ns[s.name] = ('func', f)
            elif isinstance(s, ast.ClassDef):
                k = Klass(m, s)
                self.classes[(m.name, s.name)] = k
                ns[s.name] = ('class', k)
                for b in _flat(s.body):
                    if isinstance(b, ast.FunctionDef):
                        f = Fn(m, b, f'{s.name}.{b.name}', k)
                        if f.kind == 'setter':
                            f.qual += '.setter'
                            k.setters[b.name] = f
                        else:
                            k.methods[b.name] = f
                        self.fns[f.key] = f
                    elif isinstance(b, ast.Assign):
                        for t in b.targets:
                            if isinstance(t, ast.Name):
                                k.attrs[t.id] = b.value
                    elif isinstance(b, ast.AnnAssign) and isinstance(
                            b.target, ast.Name):
                        k.ann[b.target.id] = b.annotation
                        if b.value is not None:
                            k.attrs[b.target.id] = b.value
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        ns[a.asname] = ('mod', a.name)
                    else:
                        top = a.name.split('.')[0]
                        ns[top] = ('mod', top)
            elif isinstance(s, ast.ImportFrom):
                base = self.repo.resolve_relative(m, s.level, s.module)
                for a in s.names:
                    if a.name == '*':
                        ns.setdefault('*', []).append(base)
                    else:
                        ns[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in ts:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(
                                x.ctx, ast.Store):
                            ns[x.id] = ('var', m.name, x.id,
                                        s.value if t is x else None)

    def lookup(self, mod, name, depth=0):
        if depth > 12:
            return None
        ns = self.ns.get(mod)
        if ns is None:
            return ('ext', f'{mod}.{name}')
        r = ns.get(name)
        if r is None:
            if f'{mod}.{name}' in self.ns:
                return ('mod', f'{mod}.{name}')
            for b in ns.get('*', []):
                q = self.lookup(b, name, depth + 1)
                if q is not None:
                    return q
            return None
        if r[0] == 'from':
            if r[1] in self.ns:
                q = self.lookup(r[1], r[2], depth + 1)
                return q
            return ('ext', f'{r[1]}.{r[2]}')
        if r[0] == 'mod' and r[1] not in self.ns:
            return ('ext', r[1])
        return r

    def resolve(self, e, module):
        if isinstance(e, ast.Name):
            r = self.lookup(module.name, e.id)
            if r is None and hasattr(__builtins__, e.id) if not isinstance(
                    __builtins__, dict) else r is None and (
                    e.id in __builtins__):
                return ('ext', 'builtins.' + e.id)
            return r
        if isinstance(e, ast.Attribute):
            b = self.resolve(e.value, module)
            if b is None:
                return None
            if b[0] == 'mod':
                return self.lookup(b[1], e.attr)
            if b[0] == 'ext':
                return ('ext', f'{b[1]}.{e.attr}')
            if b[0] == 'class':
                for k in b[1].mro():
                    if e.attr in k.methods:
                        return ('func', k.methods[e.attr])
                    if e.attr in k.attrs:
                        return ('cvar', k, e.attr, k.attrs[e.attr])
        return None

    # --------------------------------------------------------- analysis
    def run(self):
        self.stable = True
        for rnd in range(14):
            before = [f.version() for f in self.fns.values()]
            for f in self.fns.values():
                Body(self, f).analyse()
            if before == [f.version() for f in self.fns.values()]:
                self.rounds = rnd + 1
                return
        self.rounds = 14
        self.stable = False


def _flat(body):
    for s in body:
        yield s
        if isinstance(s, (ast.If, ast.Try, ast.With)):
            for f in ('body', 'orelse', 'finalbody'):
                yield from _flat(getattr(s, f, []) or [])
            for h in getattr(s, 'handlers', []) or []:
                yield from _flat(h.body)


K = 3
EMPTY = frozenset()


def is_in(o):
    """Is the object one that exists outside of the call?"""
    return o[0] in 'pgd'


class Body:
    """The analysis of one function."""

    def __init__(self, W, fn):
        self.W, self.fn, self.m = W, fn, fn.module
        self.heap = {k: set(v) for k, v in fn.heap.items()}
        self.fields = {}
        for o, fld in self.heap:
            self.fields.setdefault(o, set()).add(fld)
        self.roots = set()
        self.globals = set()
        self.nested = {}

    def analyse(self):
        f = self.fn
        env = {}
        for p in f.pos + f.kwonly:
            env[p] = (EMPTY if scalar_ann(f.ann.get(p))
                      else frozenset([('p', p, ())]))
        if f.vararg:
            env[f.vararg] = frozenset([('a', ('var', f.key))])
            self.put(('a', ('var', f.key)), '[]', [('p', '*', ())])
        if f.kwarg:
            env[f.kwarg] = frozenset([('a', ('kw', f.key))])
            self.put(('a', ('kw', f.key)), '[]', [('p', '**', ())])
        for _ in range(6):
            n = self.size()
            self.block(f.node.body, dict(env))
            self.publish()
            if n == self.size():
                break

    def size(self):
        return sum(len(v) for v in self.heap.values()), self.fn.version()

    # ------------------------------------------------------------- heap
    def flat(self, o):
        """Is the object a tuple (or list) of numbers given as argument?"""
        return o[0] == 'p' and o[1] in self.fn.ann and immutable_ann(
            self.fn.ann[o[1]])

    def put(self, o, field, vals):
        # (writes to global objects are effects themselves)
        if o[0] == 'a' or o[0] == 'p' and not self.flat(o):
            s = self.heap.setdefault((o, field), set())
            self.fields.setdefault(o, set()).add(field)
            new = [v for v in vals if v[0] != 'k' and v not in s]
            s.update(new)
            if is_in(o) and len(o[2]) <= 1:
                # (deeper stores are effects all the same, but what was
                # stored there is not followed)
                for v in new:
                    if v[0] != 'p' or len(v[2]) <= 2:
                        self.fn.stores.add((o, field, v))
                self.keep(new)

    def get(self, vals, field):
        out = set()
        for o in vals:
            if o[0] == 'a':
                out |= self.heap.get((o, field), set())
                out |= self.heap.get((o, '*'), set())
            elif is_in(o) and not self.flat(o):
                out |= self.heap.get((o, field), set())
                if self.W.atype.get(field) == 's':
                    continue
                if field == '[]' and o[-1] and (
                        self.W.atype.get(o[-1][-1]) == 'a'):
                    continue
                if len(o[-1]) < K:
                    out.add(o[:-1] + (o[-1] + (field,),))
                else:
                    out.add(o)
        return frozenset(out)

    def at(self, vals, i):
        """Element i."""
        out = set(self.get(vals, '[]'))
        for o in vals:
            if o[0] == 'a':
                out |= self.heap.get((o, f'[{i}]'), set())
        return frozenset(out)

    def all_in(self, vals):
        """What is reachable in one step, whatever the field."""
        out = set(self.get(vals, '[]'))
        for o in vals:
            if o[0] == 'a':
                for f in self.fields.get(o, ()):
                    out |= self.heap[(o, f)]
        return frozenset(out)

    def site(self, node, *contents):
        s = ('a', (self.fn.key, node.lineno, node.col_offset,
                   type(node).__name__))
        for c in contents:
            self.put(s, '[]', c)
        return s

    def keep(self, vals):
        """Objects that are returned or stored: their heap is published."""
        self.roots |= {v for v in vals if v[0] == 'a'}

    def publish(self):
        todo, seen = list(self.roots), set(self.roots)
        while todo:
            s = todo.pop()
            for f in self.fields.get(s, ()):
                vs = self.heap[(s, f)]
                self.fn.heap.setdefault((s, f), set()).update(vs)
                for v in vs:
                    if v[0] == 'a' and v not in seen:
                        seen.add(v)
                        todo.append(v)

    # ---------------------------------------------------------- effects
    def mutate(self, vals, field, node, text):
        for o in vals:
            if is_in(o):
                self.fn.muts.setdefault(
                    (o, field), (loc(self.m, node), text))

    # ------------------------------------------------------- statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def merge(self, env, *others):
        for o in others:
            for k, v in o.items():
                env[k] = env.get(k, EMPTY) | v

    def stmt(self, s, env):
        ev = lambda e: self.ev(e, env)
        if isinstance(s, ast.Assign):
            v = ev(s.value)
            for t in s.targets:
                self.assign(t, v, env, s.value)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                v = ev(s.value)
                if isinstance(s.target, ast.Name) and immutable_ann(
                        s.annotation):
                    v = EMPTY
                self.assign(s.target, v, env, s.value)
        elif isinstance(s, ast.AugAssign):
            v = ev(s.value)
            t = s.target
            if isinstance(t, ast.Name):
                if t.id in self.globals:
                    self.global_write(t.id, s)
                old = env.get(t.id, EMPTY)
                if not immutable_value(s.value):
                    self.mutate(self.inplace(old, s.value, t), '[]', s,
                                f'{t.id} is changed in place')
                for o in old:
                    self.put(o, '[]', self.all_in(v) if o[0] == 'a' else [])
            else:
                self.store(t, v, env, s, aug=True)
        elif isinstance(s, ast.Expr):
            ev(s.value)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                v = ev(s.value)
                self.fn.rets |= {x for x in v if x[0] != 'k'}
                self.keep(v)
        elif isinstance(s, ast.If):
            ev(s.test)
            a, b = dict(env), dict(env)
            self.narrow(s.test, a, True)
            self.narrow(s.test, b, False)
            self.block(s.body, a)
            self.block(s.orelse, b)
            ends_a, ends_b = _ends(s.body), _ends(s.orelse)
            env.clear()
            if ends_a and not ends_b:
                env.update(b)
            elif ends_b and not ends_a:
                env.update(a)
            else:
                self.merge(env, a, b)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = ev(s.iter)
            base = dict(env)
            for _ in range(3):
                e = dict(env)
                self.assign(s.target, self.elements(it), e, None)
                self.block(s.body, e)
                self.merge(env, e)
            self.block(s.orelse, env)
            self.merge(env, base)
        elif isinstance(s, ast.While):
            for _ in range(3):
                ev(s.test)
                e = dict(env)
                self.block(s.body, e)
                self.merge(env, e)
            self.block(s.orelse, env)
        elif isinstance(s, ast.Try) or type(s).__name__ == 'TryStar':
            start = dict(env)
            self.block(s.body, env)
            mid = dict(start)
            self.merge(mid, env)
            self.block(s.orelse, env)
            for h in s.handlers:
                e = dict(mid)
                if h.type is not None:
                    ev(h.type)
                self.block(h.body, e)
                if not _ends(h.body):
                    self.merge(env, e)
            self.block(s.finalbody, env)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env, None)
            self.block(s.body, env)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    self.store(t, EMPTY, env, s)
                elif isinstance(t, ast.Name):
                    env.pop(t.id, None)
        elif isinstance(s, ast.Global):
            self.globals |= set(s.names)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in s.args.defaults + [x for x in s.args.kw_defaults if x]:
                ev(d)
            e = dict(env)
            for a in (s.args.posonlyargs + s.args.args + s.args.kwonlyargs):
                e[a.arg] = EMPTY
            sub = Fn(self.m, s, f'{self.fn.qual}.{s.name}', None)
            sub.heap = self.fn.heap
            # the body is analysed where the function is made; what it
            # changes of its own arguments is known at the calls
            b = Body(self.W, sub)
            b.heap, b.globals = self.heap, set(self.globals)
            b.fields, b.roots = self.fields, self.roots
            b.nested = dict(self.nested)
            for a in sub.pos + sub.kwonly:
                e[a] = (EMPTY if immutable_ann(sub.ann.get(a))
                        else frozenset([('p', '.' + a, ())]))
            for _ in range(2):
                b.block(s.body, dict(e))
            own = {'.' + a for a in sub.pos + sub.kwonly}
            for (o, fld), w in sub.muts.items():
                if not (o[0] == 'p' and o[1] in own):
                    self.fn.muts.setdefault((o, fld), w)
            for st in sub.stores:
                if not (st[0][0] == 'p' and st[0][1] in own):
                    self.fn.stores.add(st)
            for k, w in sub.ambient.items():
                self.fn.ambient.setdefault(k, w)
            self.nested[s.name] = sub
            env[s.name] = frozenset([('k', s.name)])
        elif isinstance(s, ast.Raise):
            for e in (s.exc, s.cause):
                if e is not None:
                    ev(e)
        elif isinstance(s, ast.Assert):
            ev(s.test)
        elif type(s).__name__ == 'Match':
            v = ev(s.subject)
            outs = []
            for c in s.cases:
                e = dict(env)
                for x in ast.walk(c.pattern):
                    n = getattr(x, 'name', None)
                    if isinstance(n, str):
                        e[n] = self.elements(v) | v
                if c.guard is not None:
                    self.ev(c.guard, e)
                self.block(c.body, e)
                outs.append(e)
            self.merge(env, *outs)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                env.pop((a.asname or a.name).split('.')[0], None)

    def narrow(self, test, env, truth):
        """isinstance(x, number) and x is None: x is not an object."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.narrow(test.operand, env, not truth)
        if isinstance(test, ast.BoolOp) and (
                isinstance(test.op, ast.And) == truth):
            for v in test.values:
                self.narrow(v, env, truth)
            return None
        if isinstance(test, ast.Call) and isinstance(
                test.func, ast.Name) and test.func.id == 'isinstance' and (
                len(test.args) == 2) and isinstance(test.args[0], ast.Name):
            t = test.args[1]
            ts = t.elts if isinstance(t, ast.Tuple) else [t]
            if truth and all(immutable_ann(x) or isinstance(
                    x, ast.Attribute) and x.attr in (
                    'floating', 'integer', 'number', 'Number', 'Real')
                    for x in ts):
                env[test.args[0].id] = EMPTY
        elif truth and isinstance(test, ast.Call) and isinstance(
                test.func, ast.Attribute) and test.func.attr == (
                'isscalar') and test.args and isinstance(
                test.args[0], ast.Name):
            env[test.args[0].id] = EMPTY
        elif isinstance(test, ast.Compare) and len(test.ops) == 1 and (
                isinstance(test.left, ast.Name)) and isinstance(
                test.comparators[0], ast.Constant) and (
                test.comparators[0].value is None):
            if isinstance(test.ops[0], ast.Is) == truth:
                env[test.left.id] = EMPTY
        return None

    def listy(self, e):
        """Is the value of the expression a list?"""
        if isinstance(e, (ast.List, ast.ListComp, ast.Dict, ast.Set)):
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            return e.func.id in ('list', 'set', 'dict', 'sorted')
        if isinstance(e, ast.Attribute):
            return e.attr in self.W.lists
        if isinstance(e, ast.Name):
            return any(isinstance(s, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == e.id
                for t in s.targets) and isinstance(s.value, (
                    ast.List, ast.ListComp)) or isinstance(
                s, ast.AnnAssign) and isinstance(
                s.target, ast.Name) and s.target.id == e.id and isinstance(
                s.value, (ast.List, ast.ListComp))
                for s in ast.walk(self.fn.node))
        return False

    def numbers(self, o):
        """Is the element (of an element) of an argument a number?"""
        a = self.fn.ann.get(o[1])
        if a is None:
            return False
        names = {x.id if isinstance(x, ast.Name) else x.attr
                 for x in ast.walk(a)
                 if isinstance(x, (ast.Name, ast.Attribute))}
        return bool(names & {'float', 'int', 'ArrayLike', 'ndarray'})

    def inplace(self, vals, value=None, target=None):
        """Objects an augmented assignment may change."""
        out = []
        kind = 'list' if self.listy(value) or self.listy(target) else ''
        for o in vals:
            if o[0] == 'p' and o[1].startswith('.') and not o[-1] and (
                    self.fn.ann.get(o[1][1:]) is None):
                continue
            if o[0] in 'pgd' and o[-1]:
                t = self.W.atype.get(o[-1][-1])
                if set(o[-1]) == {'[]'} and o[0] == 'p' and len(o[-1]) < K and (
                        not self.numbers(o)):
                    t = 'a'
                if len(o[-1]) == K or t != 'a' and not (
                        t == 'o' and kind == 'list'):
                    continue     # a number: bound anew, not changed
            if o[0] == 'g' and not o[3]:
                r = self.W.ns.get(o[1], {}).get(o[2])
                if r and r[0] == 'var' and r[3] is not None and not (
                        mutable_expr(r[3])):
                    continue
            out.append(o)
        return out

    def global_write(self, name, node):
        self.fn.muts.setdefault((('g', self.m.name, name, ()), 'rebind'),
                                (loc(self.m, node), f'{name} is set'))

    def assign(self, t, v, env, expr):
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                self.global_write(t.id, t)
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(expr, (ast.Tuple, ast.List)) and len(
                    expr.elts) == len(t.elts) and not any(
                    isinstance(x, ast.Starred) for x in t.elts + expr.elts):
                vs = [self.ev(x, env) for x in expr.elts]
                for x, y, w in zip(t.elts, vs, expr.elts):
                    self.assign(x, y, env, w)
                return
            el = self.elements(v)
            star = False
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    s = self.site(x, el)
                    self.assign(x.value, frozenset([s]), env, None)
                    star = True
                else:
                    self.assign(x, el if star else self.at(v, i), env, None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, None)
        else:
            self.store(t, v, env, t)

    def store(self, t, v, env, node, aug=False):
        if isinstance(t, ast.Attribute):
            r = self.named(t.value, env)
            if r is not None and r[0] in ('mod', 'class'):
                q = r[1] if r[0] == 'mod' else r[1].module.name
                n = t.attr if r[0] == 'mod' else f'{r[1].name}.{t.attr}'
                kind = 'count' if aug and isinstance(
                    node.value, ast.Constant) else 'rebind'
                self.fn.muts.setdefault((('g', q, n, ()), kind),
                                        (loc(self.m, node), f'{n} is set'))
                return
            o = self.ev(t.value, env)
            if isinstance(t.value, ast.Name) and t.value.id == 'cls' and (
                    self.fn.kind == 'classmethod'):
                kind = 'count' if aug and isinstance(
                    node.value, ast.Constant) else 'rebind'
                self.fn.muts.setdefault(
                    (('g', self.m.name, f'{self.fn.cls.name}.{t.attr}', ()),
                     kind), (loc(self.m, node), f'{t.attr} is set'))
                return
            if aug:
                self.mutate(self.inplace(self.get(o, t.attr), node.value, t),
                            '[]', node,
                            f'{ast.unparse(t)} is changed in place')
            setters = self.setters(t, o)
            for f in setters:
                self.apply(f, [o, v], {}, node)
            if not setters:
                if not self.memo(t):
                    self.mutate(o, t.attr, node,
                                f'{ast.unparse(t)} is set')
                for x in o:
                    self.put(x, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            self.ev(t.slice, env)
            self.mutate(o, '[]', node, f'{ast.unparse(t)} is set')
            for x in o:
                self.put(x, '[]', v)

    def memo(self, t):
        """self.x is set where it was found to be unset."""
        if not (isinstance(t.value, ast.Name) and t.value.id == 'self'):
            return False
        me = ast.unparse(t)
        x = t
        while x is not None and x is not self.fn.node:
            tests = []
            if isinstance(x, (ast.If, ast.IfExp)):
                tests = [x.test]
            elif isinstance(x, ast.Try):
                tests = x.body if any(
                    h.type is not None for h in x.handlers) else []
            elif isinstance(x, (ast.Assign, ast.AnnAssign)) and isinstance(
                    x.value, (ast.BoolOp, ast.IfExp)):
                tests = [x.value]
            for u in tests:
                if any(isinstance(y, ast.Attribute) and ast.unparse(y) == me
                       or isinstance(y, ast.Constant) and y.value == t.attr
                       for y in ast.walk(u)):
                    return True
            x = getattr(x, '_parent', None)
        # if self.x is not None: return self.x
        for s in self.fn.node.body:
            if isinstance(s, ast.If) and s.lineno < t.lineno and _ends(
                    s.body) and any(
                    isinstance(y, ast.Attribute) and ast.unparse(y) == me
                    for y in ast.walk(s.test)):
                return True
        return False

    def setters(self, t, o):
        if ('p', 'self', ()) in o and self.fn.cls is not None:
            ks = self.fn.cls.mro() + self.fn.cls.allsubs()
        else:
            ks = self.W.classes.values()
        return [k.setters[t.attr] for k in ks if t.attr in k.setters]

    def elements(self, v):
        return self.all_in(v)

    # ------------------------------------------------------ expressions
    def named(self, e, env):
        """A module, class or function the expression names."""
        root = e
        while isinstance(root, ast.Attribute):
            root = root.value
        if not isinstance(root, ast.Name) or root.id in env:
            return None
        return self.W.resolve(e, self.m)

    def ev(self, e, env):
        if e is None or isinstance(e, (ast.Constant, ast.JoinedStr)):
            if isinstance(e, ast.JoinedStr):
                for x in e.values:
                    if isinstance(x, ast.FormattedValue):
                        self.ev(x.value, env)
            return EMPTY
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            return self.module_value(self.W.resolve(e, self.m))
        if isinstance(e, ast.Attribute):
            r = self.named(e, env)
            if r is not None:
                return self.module_value(r)
            o = self.ev(e.value, env)
            return self.attr(o, e, env)
        if isinstance(e, ast.Subscript):
            o = self.ev(e.value, env)
            self.ev(e.slice, env)
            if isinstance(e.slice, ast.Constant) and isinstance(
                    e.slice.value, int) and e.slice.value >= 0:
                return self.at(o, e.slice.value)
            out = self.elements(o)
            if isinstance(e.slice, ast.Slice) or isinstance(
                    e.slice, ast.Tuple) and any(
                    isinstance(x, ast.Slice) or isinstance(
                        x, ast.Constant) and x.value in (None, Ellipsis)
                    for x in e.slice.elts):
                out |= o         # a slice of an array is a view of it
            return out
        if isinstance(e, ast.Slice):
            for x in (e.lower, e.upper, e.step):
                self.ev(x, env)
            return EMPTY
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            vs = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    vs.append(self.elements(self.ev(x.value, env)))
                else:
                    vs.append(self.ev(x, env))
            if isinstance(e, ast.Tuple) and not any(
                    isinstance(x, ast.Starred) for x in e.elts):
                s = self.site(e)
                for i, v in enumerate(vs):
                    self.put(s, f'[{i}]', v)
                return frozenset([s])
            return frozenset([self.site(e, *vs)])
        if isinstance(e, ast.Dict):
            vs = []
            for k, x in zip(e.keys, e.values):
                v = self.ev(x, env)
                if k is None:
                    v = self.elements(v)
                else:
                    self.ev(k, env)
                vs.append(v)
            return frozenset([self.site(e, *vs)])
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            s = dict(env)
            for g in e.generators:
                self.assign(g.target, self.elements(self.ev(g.iter, s)), s,
                            None)
                for c in g.ifs:
                    self.ev(c, s)
            if isinstance(e, ast.DictComp):
                self.ev(e.key, s)
                v = self.ev(e.value, s)
            else:
                v = self.ev(e.elt, s)
            return frozenset([self.site(e, v)])
        if isinstance(e, ast.IfExp):
            self.ev(e.test, env)
            a, b = dict(env), dict(env)
            self.narrow(e.test, a, True)
            self.narrow(e.test, b, False)
            return self.ev(e.body, a) | self.ev(e.orelse, b)
        if isinstance(e, ast.BoolOp):
            out = EMPTY
            for x in e.values:
                out |= self.ev(x, env)
            return out
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, env), self.ev(e.right, env)
            out = set()
            if isinstance(e.op, (ast.Add, ast.Mult)):
                c = frozenset(x for x in self.all_in(a) | self.all_in(b))
                out.add(self.site(e, c))
            if (a or b) and not self.arrays(a | b):
                for f in self.dunder(e.op):
                    out |= self.apply(f, [a, b], {}, e)
            return frozenset(out)
        if isinstance(e, (ast.UnaryOp,)):
            self.ev(e.operand, env)
            return EMPTY
        if isinstance(e, ast.Compare):
            self.ev(e.left, env)
            for x in e.comparators:
                self.ev(x, env)
            return EMPTY
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env)
            self.assign(e.target, v, env, e.value)
            return v
        if isinstance(e, ast.Lambda):
            s = dict(env)
            for a in e.args.args + e.args.kwonlyargs:
                s[a.arg] = EMPTY
            self.ev(e.body, s)
            return EMPTY
        if isinstance(e, ast.Starred):
            return self.elements(self.ev(e.value, env))
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)):
            v = self.ev(e.value, env) if e.value is not None else EMPTY
            s = self.site(e, v)
            self.fn.rets.add(s)
            self.keep([s])
            return EMPTY
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x, env)
        return EMPTY

    def arrays(self, vals):
        """Is one of the values an array argument?"""
        for o in vals:
            if o[0] == 'p' and not o[2]:
                a = self.fn.ann.get(o[1].lstrip('.'))
                s = ast.unparse(a) if a is not None else ''
                if any(w in s for w in ('ArrayLike', 'ndarray', 'float',
                                        'int')):
                    return True
        return False

    def dunder(self, op):
        n = {'Add': ('__add__', '__radd__'), 'Sub': ('__sub__', '__rsub__'),
             'Mult': ('__mul__', '__rmul__')}.get(type(op).__name__, ())
        return [f for x in n for f in self.W.by_method.get(x, [])]

    def module_value(self, r):
        if r is None:
            return EMPTY
        if r[0] == 'var':
            if r[3] is not None and isinstance(r[3], ast.Constant):
                return EMPTY
            return frozenset([('g', r[1], r[2], ())])
        if r[0] == 'cvar':
            if isinstance(r[3], ast.Constant):
                return EMPTY
            return frozenset([('g', r[1].module.name,
                               f'{r[1].name}.{r[2]}', ())])
        if r[0] == 'ext':
            self.ambient(r[1], None)
        return EMPTY

    def ambient(self, path, node):
        for a in AMBIENT:
            if path == a or path.startswith(a + '.'):
                self.fn.ambient.setdefault(
                    path, loc(self.m, node or self.fn.node))

    def attr(self, o, e, env):
        out = set()
        fs = self.methods_of(e, o, env)
        props = [f for f in fs if f.kind == 'property']
        for f in props:
            out |= self.apply(f, [o], {}, e)
        if not props or len(o) == 0:
            out |= self.get(o, e.attr)
        if e.attr in SAME_METHODS and not fs:
            out |= o
        return frozenset(out)

    def methods_of(self, e, o, env):
        """The methods (and properties) e.attr may be."""
        n = e.attr
        b = e.value
        if isinstance(b, ast.Call) and isinstance(
                b.func, ast.Name) and b.func.id == 'super':
            if self.fn.cls is None:
                return []
            for k in self.fn.cls.mro()[1:]:
                if n in k.methods:
                    return [k.methods[n]]
            return []
        if isinstance(b, ast.Name) and b.id in ('self', 'cls') and (
                self.fn.cls is not None or '.' in self.fn.qual):
            c = self.fn.cls
            if c is None:
                c = self.W.classes.get(
                    (self.m.name, self.fn.qual.split('.')[0]))
            if c is not None:
                out = []
                for k in c.mro():
                    if n in k.methods:
                        out.append(k.methods[n])
                        break
                for k in c.allsubs()[1:]:
                    if n in k.methods:
                        out.append(k.methods[n])
                return out
        return self.W.by_method.get(n, [])

    def call(self, e, env):
        self.fn.calls += 1
        args, kw, star = [], {}, EMPTY
        for a in e.args:
            if isinstance(a, ast.Starred):
                star |= self.elements(self.ev(a.value, env))
            else:
                args.append(self.ev(a, env))
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                star |= self.elements(v)
            else:
                kw[k.arg] = v
        for a in e.args + [k.value for k in e.keywords]:
            self.callback(a, env, e)
        f = e.func
        r = self.named(f, env)
        if isinstance(f, ast.Name) and env.get(f.id):
            out = set()
            for o in env[f.id]:
                if o[0] == 'k' and o[1] in self.nested:
                    out |= self.apply(self.nested[o[1]], args, kw, e, star,
                                      nested=True)
            return frozenset(out) | frozenset(
                [self.opaque(e, args, kw, star)])
        if r is not None:
            if r[0] == 'func':
                g = r[1]
                if g.cls is not None and g.kind == 'classmethod':
                    args = [EMPTY] + args
                return frozenset(self.apply(g, args, kw, e, star))
            if r[0] == 'class':
                return self.construct(r[1], args, kw, e, star)
            if r[0] == 'ext':
                return self.extern(r[1], args, kw, star, e, env)
            if r[0] in ('var', 'cvar'):
                return frozenset([self.opaque(e, args, kw, star)])
        if isinstance(f, ast.Attribute):
            o = self.ev(f.value, env) if not (isinstance(
                f.value, ast.Call) and isinstance(
                f.value.func, ast.Name) and f.value.func.id == 'super') \
                else env.get('self', EMPTY)
            fs = self.methods_of(f, o, env)
            out = set()
            for g in fs:
                if g.kind == 'property':
                    out |= self.apply(g, [o], {}, e)
                    continue
                first = [] if g.kind == 'staticmethod' else [o]
                out |= self.apply(g, first + args, kw, e, star)
            own = isinstance(f.value, ast.Name) and f.value.id in (
                'self', 'cls') or isinstance(f.value, ast.Call) and isinstance(
                f.value.func, ast.Name) and f.value.func.id == 'super'
            if not (fs and own):
                out |= self.builtin_method(f.attr, o, args, kw, star, e)
            return frozenset(out)
        if isinstance(f, ast.Name):
            return self.extern('builtins.' + f.id, args, kw, star, e, env)
        self.ev(f, env)
        return frozenset([self.opaque(e, args, kw, star)])

    def callback(self, a, env, e):
        """A function given to another one is called with something."""
        r = self.named(a, env) if isinstance(
            a, (ast.Name, ast.Attribute)) else None
        if isinstance(a, ast.Attribute) and isinstance(
                a.value, ast.Name) and a.value.id == 'self':
            for g in self.methods_of(a, EMPTY, env):
                if g.kind == 'function':
                    self.apply(g, [env.get('self', EMPTY)], {}, e)
        return r

    def opaque(self, e, args, kw, star):
        s = ('a', (self.fn.key, e.lineno, e.col_offset, 'call'))
        for v in args + list(kw.values()) + [star]:
            self.put(s, '*', v)
        return s

    def construct(self, k, args, kw, e, star):
        s = ('a', (self.fn.key, e.lineno, e.col_offset, k.name))
        for c in k.mro():
            if '__init__' in c.methods:
                self.apply(c.methods['__init__'], [frozenset([s])] + args,
                           kw, e, star)
                break
        else:
            names = list(k.ann)
            for n, v in zip(names, args):
                self.put(s, n, v)
            for n, v in kw.items():
                self.put(s, n, v)
        return frozenset([s])

    def extern(self, path, args, kw, star, e, env):
        n = path.split('.')[-1]
        top = path.split('.')[0]
        for a in AMBIENT_WRITE:
            if path == a or path.startswith(a + '.'):
                if not self.in_catch(e):
                    self.fn.ambient.setdefault(path, loc(self.m, e))
        self.ambient(path, e)
        if 'out' in kw:
            self.mutate(kw['out'], '[]', e, f'output of {n}')
        if top == 'numpy' and n in NP_MUT and args:
            self.mutate(args[0], '[]', e, f'{n} writes to its argument')
        if n in ('heappush', 'heappop', 'heapify', 'insort', 'insort_left',
                 'insort_right') and args:
            self.mutate(args[0], '[]', e, f'{n} changes its argument')
        if path in ('builtins.setattr', 'builtins.delattr') and args:
            fld = e.args[1].value if len(e.args) > 1 and isinstance(
                e.args[1], ast.Constant) else '?'
            self.mutate(args[0], fld, e, f'{n} on an object')
            for x in args[0]:
                if len(args) > 2:
                    self.put(x, fld, args[2])
            return EMPTY
        if path == 'builtins.getattr' and args:
            fld = e.args[1].value if len(e.args) > 1 and isinstance(
                e.args[1], ast.Constant) else '?'
            out = self.get(args[0], fld)
            for g in self.W.by_method.get(fld, []):
                if g.kind == 'property':
                    out |= self.apply(g, [args[0]], {}, e)
            return frozenset(out) | (args[2] if len(args) > 2 else EMPTY)
        if path in ('copy.deepcopy',):
            return frozenset([self.site(e)])
        if path == 'numpy.array' and 'copy' in kw and len(e.args) and any(
                k.arg == 'copy' and isinstance(k.value, ast.Constant)
                and not k.value.value for k in e.keywords):
            return args[0]
        if top in ('numpy', 'typing') and n in SAME:
            v = args[-1] if n == 'cast' else args[0] if args else star
            if n == 'nan_to_num' and not any(
                    k.arg == 'copy' for k in e.keywords):
                return frozenset([self.site(e)])
            if n in ('broadcast_arrays', 'array_split', 'split', 'hsplit',
                     'vsplit') or n.startswith('atleast') and len(args) > 1:
                return frozenset([self.site(e, *args, star)])
            return v
        if n in ('min', 'max', 'next') and top == 'builtins':
            out = star
            for a in args:
                out |= a | self.elements(a)
            return out
        if n in SHALLOW and top in ('builtins', 'copy', 'itertools',
                                    'collections', 'functools', 'types',
                                    'dataclasses'):
            vs = [self.elements(a) for a in args] + [
                self.elements(star)] + list(kw.values())
            s = self.site(e, *vs)
            if n in ('zip', 'enumerate', 'product', 'pairwise', 'map'):
                # the elements are tuples of the elements
                inner = ('a', s[1] + ('tuple',))
                for v in vs:
                    self.put(inner, '[]', v)
                self.put(s, '[]', [inner])
            if n == 'copy':
                for a in args:
                    for o in a:
                        for fld in list(self.fields.get(o, ())):
                            self.put(s, fld, self.heap[(o, fld)])
                    for o in a:
                        if is_in(o):
                            self.put(s, '*', self.get([o], '?'))
            return frozenset([s])
        if top == 'builtins' and n in PURE_BUILTIN:
            return EMPTY
        return frozenset([self.site(e)])

    def in_catch(self, e):
        x = e
        while x is not None:
            if isinstance(x, ast.With):
                for i in x.items:
                    if 'catch_warnings' in ast.unparse(i.context_expr) or (
                            'errstate' in ast.unparse(i.context_expr)):
                        return True
            x = getattr(x, '_parent', None)
        return False

    def builtin_method(self, n, o, args, kw, star, e):
        out = set()
        if n in MUTATORS:
            self.mutate(o, '[]', e, f'{ast.unparse(e.func)}() changes it')
            if n in KEEPS:
                vs = [self.elements(a) if n in ('extend', 'update') else a
                      for a in args] + list(kw.values())
                for x in o:
                    for v in vs:
                        self.put(x, '[]', v)
            if n in ('pop', 'popitem', 'setdefault', 'popleft'):
                out |= self.elements(o)
            return out
        if 'out' in kw:
            self.mutate(kw['out'], '[]', e, f'output of {n}')
        if n == 'astype':
            if any(k.arg == 'copy' for k in e.keywords):
                return set(o)
            return {self.site(e)}
        if n in SAME_METHODS:
            return set(o)
        if n == 'get':
            out |= self.elements(o)
            for a in args[1:]:
                out |= a
            return out
        if n in SHALLOW_METHODS:
            s = self.site(e, self.elements(o))
            if n == 'items':
                inner = ('a', s[1] + ('tuple',))
                self.put(inner, '[]', self.elements(o))
                self.put(s, '[]', [inner])
            return {s}
        return {self.site(e)}

    # ------------------------------------------------------------ calls
    def apply(self, f, args, kw, e, star=EMPTY, nested=False):
        """The effects and result of calling f."""
        bind = {}
        pos = list(f.pos)
        for p, v in zip(pos, args):
            bind[p] = v
        rest = args[len(pos):]
        for k, v in kw.items():
            if k in f.pos or k in f.kwonly:
                bind[k] = v
        extra = [v for k, v in kw.items()
                 if k not in f.pos and k not in f.kwonly]
        for p in f.pos + f.kwonly:
            if p not in bind:
                d = f.defaults.get(p)
                v = star
                if d is not None and mutable_expr(d):
                    v |= frozenset([('d', f.key, p, ())])
                bind[p] = v
        bind['*'] = frozenset().union(star, *rest)
        bind['**'] = frozenset().union(star, *extra)
        if nested:
            bind = {'.' + k: v for k, v in bind.items()}
        cs = ('a', (self.fn.key, e.lineno, e.col_offset, f.name))
        memo = {}

        def val(o):
            if o in memo:
                return memo[o]
            if o[0] == 'p':
                if o[1] not in bind:
                    r = frozenset([o]) if nested else EMPTY
                else:
                    r = bind[o[1]]
                    for fld in o[2]:
                        r = self.get(r, fld)
            elif o[0] == 'a':
                r = frozenset([cs])
            else:
                r = frozenset([o])
            memo[o] = r
            return r
        for (o, fld), vs in list(f.heap.items()):
            if o[0] == 'a':
                for v in vs:
                    self.put(cs, fld, val(v))
        for o, fld, v in list(f.stores):
            for x in val(o):
                self.put(x, fld, val(v))
        for (o, fld), (w, text) in list(f.muts.items()):
            for x in val(o):
                if is_in(x):
                    self.fn.muts.setdefault((x, fld), (w, text))
        out = set()
        for o in list(f.rets):
            out |= val(o)
        for k, w in f.ambient.items():
            self.fn.ambient.setdefault(k, w)
        return out


def immutable_value(e):
    return isinstance(e, ast.JoinedStr) or isinstance(
        e, ast.Constant) and isinstance(e.value, str)


def _ends(body):
    return bool(body) and isinstance(
        body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
