"""Models of builtins, math, numpy and container methods.

Anything without a model becomes an uninterpreted term of its arguments.
"""

from __future__ import annotations

import math
from fractions import Fraction

from . import mat
from . import nodes as N
from .nodes import Node
from .interp import (Bound, Cls, Dead, Ext, Func, HArr, HDict, HInst, HIte,
                     HList, Iter, Mod, Ref, UNDEF, _structured,
                     as_int, _dkey, _ukey)

INF = math.inf


def num1(name):
    """Elementwise numeric function kept symbolic."""
    return lambda x: N.call(name, x)


ELEMENTWISE = {
    'sqrt': lambda x: N.power(x, N.const(0.5)),
    'exp': num1('exp'), 'log': num1('log'), 'log10': num1('log10'),
    'sin': num1('sin'), 'cos': num1('cos'), 'tan': num1('tan'),
    'arctan': num1('atan'), 'atan': num1('atan'), 'arccos': num1('acos'),
    'acos': num1('acos'), 'asin': num1('asin'), 'arcsin': num1('asin'),
    'floor': num1('floor'), 'ceil': num1('ceil'), 'sign': num1('sign'),
    'radians': lambda x: N.mul(x, N.const(math.pi / 180)),
    'deg2rad': lambda x: N.mul(x, N.const(math.pi / 180)),
    'degrees': lambda x: N.mul(x, N.const(180 / math.pi)),
    'rad2deg': lambda x: N.mul(x, N.const(180 / math.pi)),
    'fabs': None, 'abs': None, 'absolute': None,
}

CONSTS = {
    'pi': N.const(math.pi), 'inf': N.const(INF), 'e': N.const(math.e),
    'nan': N.const(math.nan),
}


def call_ext(I, path, args, kw, fr, st, node):
    r = I.hook('ext', path, args, kw, node, fr, st)
    if r is not None:
        return r[0] if isinstance(r, list) else r
    name = path.split('.')[-1]
    root = path.split('.')[0]
    if root == 'builtins':
        f = BUILTINS.get(name)
        if f is not None:
            return f(I, args, kw, fr, st, node)
        if name.endswith(('Error', 'Exception', 'Warning')):
            return N.call('exc:' + name)
        return N.call('builtins.' + name, *I.fz(args, kw, st))
    if root in ('numpy', 'math'):
        f = NUMPY.get(name)
        if f is not None and path.count('.') == 1:
            return f(I, args, kw, fr, st, node)
        if name in ELEMENTWISE and path.count('.') == 1 and args:
            return elementwise(I, name, args[0], fr, st)
        if name in ('errstate',):
            return N.call(path)
        if name in ('atan2', 'arctan2') and len(args) == 2 and not kw:
            x, y = (I._sc(x, st) for x in args)
            if N.finite(x) and N.finite(y):
                return N.const(math.atan2(N.cval(x), N.cval(y)))
            return N.call('atan2', x, y)
        if name == 'hypot' and len(args) == 2 and not kw:
            x, y = (I._sc(x, st) for x in args)
            return N.power(N.add(N.mul(x, x), N.mul(y, y)), N.const(0.5))
        r = N.call(path, *I.fz(args, kw, st))
        return r
    if root in ('warnings',):
        if name == 'warn':
            I.warned.append(st.guard)
        return None
    if root == 'copy' and name in ('copy', 'deepcopy'):
        return clone(I, args[0], st, name == 'deepcopy')
    if root == 'dataclasses' and name == 'field':
        if 'default' in kw:
            return kw['default']
        if 'default_factory' in kw:
            return I.call(kw['default_factory'], [], {}, fr, st, node)
        return UNDEF
    if path == 'typing.cast':
        return args[1]
    if root == 'scipy' and name in SCIPY:
        r = SCIPY[name](I, args, kw, fr, st, node)
        if r is not None:
            return r
    if path == 'functools.partial':
        f0 = args[0]
        return _Partial(f0, args[1:], kw)
    if root in ('functools',):
        return args[0] if args else Ext(path)
    return N.call(path, *I.fz(args, kw, st))


class _Partial:
    def __init__(self, f, a, k):
        self.f, self.a, self.k = f, a, k

    def __hash__(self):
        return id(self)


def clone(I, v, st, deep):
    if isinstance(v, Ref):
        o = I.h(st, v)
        if isinstance(o, HList):
            it = o.items
            if deep and isinstance(it, tuple):
                it = tuple(clone(I, x, st, True) for x in it)
            return I.alloc(st, HList(it, o.kind, o.tag))
        if isinstance(o, HDict):
            return I.alloc(st, HDict(dict(o.items), o.tag, o.open))
        if isinstance(o, HArr):
            return I.alloc(st, HArr(o.elem, o.items, o.dtype, o.tag))
        if isinstance(o, HInst):
            f = dict(o.fields)
            if deep:
                f = {k: clone(I, x, st, True) for k, x in f.items()}
            return I.alloc(st, HInst(o.cls, f, o.lazy))
    return v


def elementwise(I, name, v, fr, st):
    f = ELEMENTWISE[name]
    if name in ('fabs', 'abs', 'absolute'):
        f = lambda x: st.facts.mk_abs(x)

    def g(x):
        x = I._sc(x, st)
        if isinstance(x, bool):
            x = N.const(x)
        if N.finite(x):
            try:
                c = fold(name, x)
                if c is not None:
                    return c
            except (ValueError, OverflowError):
                pass
        if name == 'sign':
            for c, r in ((N.lt(N.ZERO, x), N.ONE), (N.lt(x, N.ZERO),
                                                   N.const(-1))):
                if st.facts.decide(c) is True:
                    return r
        return f(x)
    if isinstance(v, (Ref, Node)):
        v = to_arr(I, v, st)
    if isinstance(v, tuple):
        v = I.alloc(st, HArr(None, v))
    return I.map1(v, g, fr, st)


def to_arr(I, v, st):
    if isinstance(v, Ref):
        o = I.h(st, v)
        if isinstance(o, HList) and isinstance(o.items, tuple):
            return I.alloc(st, HArr(None, o.items))
    return v


def fold(name, x):
    v = N.cval(x)
    if name == 'floor':
        return N.const(v.numerator // v.denominator)
    if name == 'ceil':
        return N.const(-((-v.numerator) // v.denominator))
    if v == 0:
        return {'sqrt': N.ZERO, 'exp': N.ONE, 'sin': N.ZERO, 'cos': N.ONE,
                'tan': N.ZERO, 'atan': N.ZERO, 'sign': N.ZERO}.get(name)
    if v == 1:
        return {'sqrt': N.ONE, 'log': N.ZERO}.get(name)
    if name == 'sign':
        return N.ONE if v > 0 else N.const(-1)
    return None


# ------------------------------------------------------------------ builtins
def b_len(I, a, kw, fr, st, node):
    v = a[0]
    if isinstance(v, Node) and v.op == 'ite' and _structured(v):
        return I.split(fr, st, v.args[0], lambda s, t: b_len(
            I, [v.args[1] if t else v.args[2]], kw, fr, s, node))
    if isinstance(v, (tuple, str)):
        return N.const(len(v))
    if isinstance(v, Ref):
        o = I.h(st, v)
        if isinstance(o, HList):
            if isinstance(o.items, tuple):
                return N.const(len(o.items))
            if isinstance(o.items, Node):
                c, p, q = o.items.args

                def go(s, t):
                    s.heap[v.id] = HList(p if t else q, o.kind)
                    return b_len(I, a, kw, fr, s, node)
                return I.split(fr, st, c, go)
            return N.call('len', o.tag if isinstance(o.tag, Node) else v.id)
        if isinstance(o, HDict) and not o.open:
            return N.const(len(o.items))
        if isinstance(o, HArr) and o.items is not None:
            return N.const(len(o.items))
        if isinstance(o, HInst):
            f, _ = o.cls.lookup('__len__')
            if isinstance(f, Func):
                return I.call_func(f, [v], {}, fr, st, node)
        if isinstance(o, HArr):
            return N.call('len', o.tag if o.tag is not None else 'arr')
    return N.call('len', I.freeze(v, st))


def minmax(op):
    def f(I, a, kw, fr, st, node):
        xs = list(a)
        if len(xs) == 1:
            items = I.iterate(xs[0], fr, st, node)
            if items is None:
                if 'default' in kw:
                    return N.call(op, I.freeze(xs[0], st),
                                  I.freeze(kw['default'], st))
                return N.call(op, I._node(I.freeze(xs[0], st)))
            xs = items
            if not xs:
                if 'default' in kw:
                    return kw['default']
                I.exit(fr, 'raise', 'ValueError', st.copy(), node)
                raise Dead
        if 'key' in kw:
            return N.call(op + 'key', *[I.freeze(x, st) for x in xs],
                          I.freeze(kw['key'], st))
        if any(isinstance(x, Ref) and isinstance(I.h(st, x), HArr)
               for x in xs):
            return minmax_arr(op)(I, xs, kw, fr, st, node)
        ns = [I._sc(x, st) for x in xs]
        ns = [N.const(x) if isinstance(x, bool) else x for x in ns]
        ns = [st.facts.simplify(x) for x in ns]
        return st.facts.mk_minmax(op, ns)
    return f


def minmax_arr(op):
    def f(I, a, kw, fr, st, node):
        if len(a) < 2:
            return N.call('np.' + op, I.freeze(a[0], st))
        parts = []
        arr = None
        for x in a[:2]:
            if isinstance(x, Ref):
                o = I.h(st, to_arr(I, x, st))
                arr = o
                parts.append(o)
            else:
                parts.append(I._sc(x, st))
        g = lambda x, y: st.facts.mk_minmax(op, [I._sc(x, st), I._sc(y, st)])
        if arr is None:
            return g(*parts)
        n = None
        for p in parts:
            if isinstance(p, HArr) and p.items is not None:
                n = len(p.items)
        if n is not None:
            cols = [p.items if isinstance(p, HArr) else (p,) * n
                    for p in parts]
            return I.alloc(st, HArr(None, tuple(g(x, y)
                                                for x, y in zip(*cols))))
        es = [p.elem if isinstance(p, HArr) else p for p in parts]
        return I.alloc(st, HArr(g(*es), None))
    return f


def b_abs(I, a, kw, fr, st, node):
    return elementwise(I, 'abs', a[0], fr, st)


def b_sum(I, a, kw, fr, st, node):
    items = I.iterate(a[0], fr, st, node)
    if items is None:
        return N.call('sum', I.freeze(a[0], st))
    r = a[1] if len(a) > 1 else kw.get('start', N.ZERO)
    import ast
    for x in items:
        r = I.binop(ast.Add(), r, x, fr, st, node)
    return r


def b_range(I, a, kw, fr, st, node):
    ns = [as_int(x) for x in a]
    if None in ns or len(range(*ns)) > 200:
        return N.call('range', *[I.freeze(x, st) for x in a])
    return Iter([N.const(i) for i in range(*ns)])


def b_zip(I, a, kw, fr, st, node):
    cols = [I.iterate(x, fr, st, node) for x in a]
    if any(c is None for c in cols):
        return N.call('zip', *[I.freeze(x, st) for x in a])
    return Iter([tuple(t) for t in zip(*cols)])


def b_enumerate(I, a, kw, fr, st, node):
    c = I.iterate(a[0], fr, st, node)
    if c is None:
        return N.call('enumerate', I.freeze(a[0], st))
    s = as_int(a[1]) if len(a) > 1 else as_int(kw.get('start', N.ZERO))
    return Iter([(N.const(i + (s or 0)), x) for i, x in enumerate(c)])


def b_reversed(I, a, kw, fr, st, node):
    c = I.iterate(a[0], fr, st, node)
    if c is None:
        return N.call('reversed', I.freeze(a[0], st))
    return Iter(list(reversed(c)))


def b_list(kind):
    def f(I, a, kw, fr, st, node):
        if not a:
            return I.alloc(st, HList((), kind))
        c = I.iterate(a[0], fr, st, node)
        if c is None:
            return I.alloc(st, HList(None, kind, I._node(
                I.freeze(a[0], st))))
        if kind == 'set':
            out = []
            for x in c:
                if not any(I.eq(x, y, st) is True for y in out):
                    out.append(x)
            c = out
        return I.alloc(st, HList(tuple(c), kind))
    return f


def b_tuple(I, a, kw, fr, st, node):
    if not a:
        return ()
    c = I.iterate(a[0], fr, st, node)
    if c is None:
        return N.call('tuple', I.freeze(a[0], st))
    return tuple(c)


def b_dict(I, a, kw, fr, st, node):
    d = {}
    op = False
    if a:
        o = I.h(st, a[0]) if isinstance(a[0], Ref) else None
        if isinstance(o, HDict):
            d.update(o.items)
            op = o.open
        else:
            items = I.iterate(a[0], fr, st, node)
            if items is None:
                op = True
            else:
                for k, v in items:
                    if not I.hashkey(k, st):
                        raise TypeError
                    d[_dkey(k)] = v
    kw = dict(kw)
    if kw.pop('**', None) is not None:
        op = True
    d.update(kw)
    return I.alloc(st, HDict(d, None, op))


def b_sorted(I, a, kw, fr, st, node):
    items = I.iterate(a[0], fr, st, node)
    if items is None:
        return I.alloc(st, HList(None, 'list', N.call(
            'sorted', I.freeze(a[0], st))))
    keys = items
    if 'key' in kw:
        keys = [I.call(kw['key'], [x], {}, fr, st, node) for x in items]
    rev = kw.get('reverse', False) is True
    out = []
    for k, x in zip(keys, items):
        i = len(out)
        for j, (k2, _) in enumerate(out):
            r = less(I, k, k2, st)
            if r is None:
                return I.alloc(st, HList(None, 'list', N.call(
                    'sorted', I.freeze(tuple(items), st))))
            if r:
                i = j
                break
        out.insert(i, (k, x))
    out = [x for _, x in out]
    if rev:
        out.reverse()
    return I.alloc(st, HList(tuple(out)))


def less(I, a, b, st):
    if isinstance(a, str) and isinstance(b, str):
        return a < b
    if isinstance(a, tuple) and isinstance(b, tuple):
        for x, y in zip(a, b):
            r = less(I, x, y, st)
            if r is None or r:
                return r
            r = less(I, y, x, st)
            if r is None:
                return None
            if r:
                return False
        return len(a) < len(b)
    if isinstance(a, Node) and isinstance(b, Node):
        c = N.lt(a, b)
        return st.facts.decide(c) if isinstance(c, Node) else c
    return None


def b_isinstance(I, a, kw, fr, st, node):
    v, t = a
    ts = t if isinstance(t, tuple) else (t,)
    if isinstance(v, Node) and v.op == 'ite' and _structured(v):
        return I.split(fr, st, v.args[0], lambda s, tr: b_isinstance(
            I, [v.args[1] if tr else v.args[2], t], kw, fr, s, node))
    res = False
    for c in ts:
        r = isinst1(I, v, c, st)
        if r is True:
            return True
        res = N.or_(res, r) if not isinstance(r, bool) else (res or r)
    return res


NUMT = {'builtins.float', 'builtins.int', 'numbers.Number', 'numpy.number',
        'numbers.Real', 'numpy.floating', 'numpy.integer'}


def isinst1(I, v, c, st):
    if isinstance(v, Mod):
        return isinstance(c, Ext) and c.path in ('types.ModuleType',
                                                 'builtins.object')
    if isinstance(v, Ref):
        o = I.h(st, v)
        if isinstance(o, HInst):
            if isinstance(c, Cls):
                return o.cls.issub(c)
            return c in o.cls.mro
        k = {HList: ('builtins.list' if getattr(o, 'kind', '') == 'list'
                     else 'builtins.set'), HDict: 'builtins.dict',
             HArr: 'numpy.ndarray'}.get(type(o))
        if isinstance(c, Ext):
            if c.path == k:
                return True
            if c.path.endswith(('Iterable', 'Sized', 'Collection')):
                return True
            if c.path.endswith('Sequence') and k != 'numpy.ndarray':
                return k == 'builtins.list'
        return False
    if isinstance(c, Ext):
        p = c.path
        if isinstance(v, bool):
            return p in ('builtins.bool', 'builtins.int')
        if isinstance(v, str):
            return p == 'builtins.str' or p.endswith('Iterable')
        if isinstance(v, tuple):
            return p in ('builtins.tuple',) or p.endswith(
                ('Iterable', 'Sequence', 'Sized'))
        if v is None:
            return False
        if isinstance(v, Node):
            h = I.hook('isinstance', v, p, st)
            if h is not None:
                return h
            numeric = v.op in ('const', 'add', 'mul', 'div', 'pow', 'neg',
                               'abs', 'min', 'max') or (
                v.op == 'sym' and v.args[1] in ('num', 'int'))
            if numeric:
                if p == 'builtins.int':
                    if v.op == 'sym' and v.args[1] == 'int':
                        return True
                    return v.op == 'const' and N.finite(v) and N.cval(
                        v).denominator == 1
                if p == 'builtins.float':
                    if v.op == 'sym' and v.args[1] == 'int':
                        return False
                    return True
                return p in NUMT
            if v.op == 'sym' and v.args[1] == 'str':
                return p == 'builtins.str'
            return N.mk('isinst', v, p)
    if isinstance(c, Cls):
        if isinstance(v, Node):
            h = I.hook('isinstance', v, c, st)
            if h is not None:
                return h
            if v.op == 'sym' and v.args[1] in ('num', 'int', 'str'):
                return False
            if v.op in ('const', 'add', 'mul', 'div'):
                return False
            return N.mk('isinst', v, c.module.name + '.' + c.name)
        return False
    if isinstance(v, Node):
        return N.mk('isinst', v, repr(c))
    return False


def b_hasattr(I, a, kw, fr, st, node):
    o, n = a[0], a[1]
    if not isinstance(n, str):
        return N.mk('truth', N.call('hasattr', *I.fz(a, {}, st)))
    if isinstance(o, Ref):
        h = I.h(st, o)
        if isinstance(h, HInst):
            if n in h.fields:
                v = h.fields[n]
                return not (isinstance(v, Node) and v.op == 'maybe_undef')
            for c in h.cls.mro:
                if isinstance(c, Cls) and n in c.ns:
                    return True
            return False if h.lazy is None else N.mk(
                'truth', N.call('hasattr', h.cls.name, n))
    if isinstance(o, Cls):
        return any(isinstance(c, Cls) and n in c.ns for c in o.mro)
    if isinstance(o, Mod):
        return I.mod_get(o.module.name, n, st) is not UNDEF
    if isinstance(o, (str, tuple, bool)) or o is None:
        return hasattr(o, n)
    return N.mk('truth', N.call('hasattr', *I.fz(a, {}, st)))


def b_dir(I, a, kw, fr, st, node):
    if len(a) == 1 and isinstance(a[0], Mod):
        m = a[0].module.name
        names = set(I.module(m)) | {'__name__', '__doc__', '__file__'}
        names |= {x[len(m) + 1:] for x in I.repo.modules
                  if x.startswith(m + '.') and '.' not in x[len(m) + 1:]}
        return I.alloc(st, HList(tuple(sorted(names))))
    return N.call('dir', *I.fz(a, {}, st))


def b_getattr(I, a, kw, fr, st, node):
    o, n = a[0], a[1]
    if not isinstance(n, str):
        return N.call('getattr', *I.fz(a, {}, st))
    d = a[2] if len(a) > 2 else UNDEF
    return I.getattr(o, n, fr, st, node, d)


def b_setattr(I, a, kw, fr, st, node):
    if isinstance(a[1], str):
        I.setattr(a[0], a[1], a[2], fr, st, node)
    return None


def b_callable(I, a, kw, fr, st, node):
    v = a[0]
    if isinstance(v, (Func, Bound, Cls)):
        return True
    if isinstance(v, (Node, Ref)):
        return N.mk('truth', N.call('callable', *I.fz(a, {}, st)))
    return False


def b_float(I, a, kw, fr, st, node):
    v = a[0] if a else N.ZERO
    if isinstance(v, str):
        if v in ('inf', '-inf', 'nan'):
            return N.const(float(v))
        try:
            return N.const(float(v))
        except ValueError:
            I.exit(fr, 'raise', 'ValueError', st.copy(), node)
            raise Dead
    if isinstance(v, bool):
        return N.const(v)
    if isinstance(v, Ref):
        o = I.h(st, v)
        if isinstance(o, HArr):
            if o.elem is not None:
                return o.elem
            if o.items is not None and len(o.items) == 1:
                return o.items[0]
        return N.call('float', I.freeze(v, st))
    return v


def b_int(I, a, kw, fr, st, node):
    v = a[0]
    if isinstance(v, Node) and N.finite(v):
        return N.const(int(N.cval(v)))
    if isinstance(v, Node) and v.op == 'sym' and v.args[1] == 'int':
        return v
    if isinstance(v, str):
        try:
            return N.const(int(v))
        except ValueError:
            I.exit(fr, 'raise', 'ValueError', st.copy(), node)
            raise Dead
    return N.call('int', I.freeze(v, st))


def b_str(I, a, kw, fr, st, node):
    v = a[0] if a else ''
    if isinstance(v, str):
        return v
    if isinstance(v, Node) and N.finite(v) and N.cval(v).denominator == 1:
        return str(int(N.cval(v)))
    return N.call('str', I.freeze(v, st))


def b_bool(I, a, kw, fr, st, node):
    return I.truth(a[0], st)


def b_all(I, a, kw, fr, st, node, isall=True):
    items = I.iterate(a[0], fr, st, node)
    if items is None:
        if isinstance(a[0], Ref):
            o = I.h(st, a[0])
            if isinstance(o, HArr) and o.elem is not None:
                t = I.truth(o.elem, st)
                if isinstance(t, bool):
                    return t
                return N.mk('all' if isall else 'any', t)
        return N.mk('truth', N.call('all' if isall else 'any', I.freeze(
            a[0], st)))
    r = isall
    for x in items:
        t = I.truth(x, st)
        r = N.and_(r, t) if isall else N.or_(r, t)
    return r


def b_any(I, a, kw, fr, st, node):
    return b_all(I, a, kw, fr, st, node, False)


def b_map(I, a, kw, fr, st, node):
    items = I.iterate(a[1], fr, st, node)
    if items is None:
        return N.call('map', *I.fz(a, {}, st))
    return Iter([I.call(a[0], [x], {}, fr, st, node) for x in items])


def b_filter(I, a, kw, fr, st, node):
    items = I.iterate(a[1], fr, st, node)
    if items is None:
        return N.call('filter', *I.fz(a, {}, st))
    out = []
    for x in items:
        t = I.truth(x if a[0] is None else I.call(
            a[0], [x], {}, fr, st, node), st)
        d = st.facts.decide(t) if isinstance(t, Node) else t
        if d is None:
            return N.call('filter', *I.fz(a, {}, st))
        if d:
            out.append(x)
    return Iter(out)


def b_round(I, a, kw, fr, st, node):
    return N.call('round', *I.fz(a, {}, st))


def b_type(I, a, kw, fr, st, node):
    v = a[0]
    if isinstance(v, Ref):
        o = I.h(st, v)
        if isinstance(o, HInst):
            return o.cls
    return N.call('type', I.freeze(v, st))


def b_pow(I, a, kw, fr, st, node):
    import ast
    return I.binop(ast.Pow(), a[0], a[1], fr, st, node)


def b_iter(I, a, kw, fr, st, node):
    c = I.iterate(a[0], fr, st, node)
    return Iter(c) if c is not None else a[0]


def b_next(I, a, kw, fr, st, node):
    c = I.iterate(a[0], fr, st, node)
    if c:
        return c[0]
    if c is not None and len(a) > 1:
        return a[1]
    return N.call('next', *I.fz(a, {}, st))


def b_none(I, a, kw, fr, st, node):
    return None


BUILTINS = {
    'len': b_len, 'min': minmax('min'), 'max': minmax('max'), 'abs': b_abs,
    'sum': b_sum, 'range': b_range, 'zip': b_zip, 'enumerate': b_enumerate,
    'reversed': b_reversed, 'list': b_list('list'), 'set': b_list('set'),
    'frozenset': b_list('set'),
    'tuple': b_tuple, 'dict': b_dict, 'sorted': b_sorted,
    'isinstance': b_isinstance, 'dir': b_dir, 'hasattr': b_hasattr, 'getattr': b_getattr,
    'setattr': b_setattr, 'callable': b_callable, 'float': b_float,
    'int': b_int, 'str': b_str, 'bool': b_bool, 'all': b_all, 'any': b_any,
    'map': b_map, 'filter': b_filter, 'round': b_round, 'type': b_type,
    'pow': b_pow, 'iter': b_iter, 'next': b_next, 'print': b_none,
}


# ------------------------------------------------------------------ numpy
def n_isscalar(I, a, kw, fr, st, node):
    v = a[0]
    if isinstance(v, Node) and v.op == 'ite' and _structured(v):
        return I.split(fr, st, v.args[0], lambda s, t: n_isscalar(
            I, [v.args[1] if t else v.args[2]], kw, fr, s, node))
    if isinstance(v, (Node, bool, str)):
        if isinstance(v, Node) and v.op in ('attr', 'item', 'unk') or (
                isinstance(v, Node) and v.op == 'call'
                and v.args[0] not in ('exp', 'log', 'sin', 'cos', 'interp')):
            h = I.hook('isscalar', v, st)
            if h is not None:
                return h
            return N.mk('truth', N.call('isscalar', v))
        return True
    return False


def n_atleast_1d(I, a, kw, fr, st, node):
    return as_array(I, a[0], st, copy=False)


def as_array(I, v, st, copy, dtype=None):
    if isinstance(v, Ref):
        o = I.h(st, v)
        if isinstance(o, HArr):
            if not copy:
                return v
            return I.alloc(st, HArr(o.elem, o.items, dtype or o.dtype, o.tag))
        if isinstance(o, HList):
            if o.tag == 'elementwise' and len(o.items) == 1:
                return I.alloc(st, HArr(o.items[0], None, dtype or 'float'))
            x = mat.nd(I, v, st)
            if x is not None and len(x[0]) == 2:
                return mat.make(I, st, *x)
            if isinstance(o.items, tuple):
                return I.alloc(st, HArr(None, tuple(
                    I.freeze(x, st) if isinstance(x, Ref) and not isinstance(
                        I.h(st, x), HInst) else x for x in o.items),
                    dtype or 'float'))
            return I.alloc(st, HArr(N.mk('item', N.call(
                'list', next(x for x in (o.tag, o.items, v.id) if isinstance(
                    x, Node) or x)), '*'), None,
                dtype or 'float', o.tag))
        return I.alloc(st, HArr(N.mk('item', I._node(
            I.freeze(v, st)), '*'), None, dtype or 'float'))
    if isinstance(v, tuple):
        x = mat.nd(I, v, st)
        if x is not None and len(x[0]) == 2:
            return mat.make(I, st, *x)
        return I.alloc(st, HArr(None, v, dtype or 'float'))
    if isinstance(v, bool):
        v = N.const(v)
    if isinstance(v, Node):
        if v.op in ('attr', 'item', 'unk', 'call') and not I.opts.get(
                'scalar_calls'):
            return v
        return I.alloc(st, HArr(None, (v,), dtype or 'float'))
    if isinstance(v, Iter):
        return I.alloc(st, HArr(None, tuple(v.items), dtype or 'float'))
    return N.call('array', I.freeze(v, st))


def _dtype(kw, a):
    d = kw.get('dtype')
    if d is None and len(a) > 1:
        d = a[1]
    if isinstance(d, str):
        d = Ext(d)
    if isinstance(d, Ext):
        k = d.path.rpartition('.')[2].rstrip('_0123456789')
        return {'int': 'int', 'uint': 'int', 'intp': 'int',
                'bool': 'bool'}.get(k, 'float')
    return None


def cast(I, r, dt, fr, st, node):
    """An array given the data type dt: integers cut off the fraction."""
    h = I.h(st, r) if isinstance(r, Ref) else None
    if not isinstance(h, HArr) or dt is None or h.dtype == dt:
        return r
    el, it = h.elem, h.items
    if dt == 'int' and h.dtype != 'bool':
        f = lambda x: I.int_store(x, fr, st, node) if isinstance(
            x, Node) else x
        el = f(el) if el is not None else None
        it = tuple(f(x) for x in it) if it is not None else None
    st.heap[r.id] = HArr(el, it, dt, h.tag)
    return r


def n_array(I, a, kw, fr, st, node):
    if _ragged(I, a[0], st) and 'dtype' not in kw:
        I.exit(fr, 'raise', 'ValueError', st.copy(), node)
        raise Dead
    v = _stack3(I, a[0], st)
    if v is not None:
        return v
    d = _dtype(kw, a)
    if d == 'int':
        return cast(I, as_array(I, a[0], st, copy=True), d, fr, st, node)
    return as_array(I, a[0], st, copy=True, dtype=d)


def _stack3(I, v, st):
    """Three-dimensional array made of two-dimensional ones."""
    if isinstance(v, Ref):
        o = I.h(st, v)
        v = o.items if isinstance(o, HList) else None
    if not isinstance(v, tuple) or not v or not all(
            isinstance(x, Ref) and isinstance(I.h(st, x), HArr) for x in v):
        return None
    q = [mat.nd(I, x, st) for x in v]
    if None in q or any(len(x[0]) != 2 or x[0] != q[0][0] for x in q):
        return None
    flat = tuple(y for x in q for y in x[1])
    shape = (len(v),) + q[0][0]
    return I.alloc(st, HArr(N.mk('item', N.call('arr3', shape, flat), '*'),
                            None, 'float', ('nd', shape, flat)))


def _ragged(I, v, st):
    """A list of arrays of different shapes (numpy refuses it)."""
    if isinstance(v, Ref):
        o = I.h(st, v)
        v = o.items if isinstance(o, HList) else None
    if not isinstance(v, tuple) or len(v) < 2:
        return False
    sh = []
    for x in v:
        if not isinstance(x, Ref):
            if isinstance(x, Node) and x.op in ('const', 'sym', 'add', 'mul'):
                sh.append(())
                continue
            return False
        o = I.h(st, x)
        if not isinstance(o, HArr):
            return False
        q = mat.nd(I, x, st)
        if q is None:
            return False
        sh.append(q[0])
    return len(set(sh)) > 1


def n_asarray(I, a, kw, fr, st, node):
    d = _dtype(kw, a)
    v = a[0]
    if d == 'float' and isinstance(v, Ref):
        o = I.h(st, v)
        if isinstance(o, HArr) and o.dtype != 'float':
            return as_array(I, v, st, copy=True, dtype='float')
    if d == 'int':
        return cast(I, as_array(I, v, st, copy=True), d, fr, st, node)
    return as_array(I, v, st, copy=False)


def like(val):
    def f(I, a, kw, fr, st, node):
        v = a[0]
        x = val
        if val is None:
            x = a[1] if len(a) > 1 else kw.get('fill_value')
        dt = _dtype(kw, [None])
        if isinstance(v, Ref):
            o = I.h(st, to_arr(I, v, st))
            if isinstance(o, HArr):
                if o.items is not None:
                    q = mat.nd(I, v, st)
                    if q is not None and len(q[0]) == 2:
                        return mat.make(I, st, q[0], [x] * len(q[1]),
                                        dt or o.dtype)
                    return I.alloc(st, HArr(None, (x,) * len(o.items),
                                            dt or o.dtype))
                return I.alloc(st, HArr(x, None, dt or o.dtype))
        if isinstance(v, Node) and v.op not in ('attr', 'item', 'call'):
            return x
        return I.alloc(st, HArr(x, None, dt or 'float'))
    return f


def filled(val):
    def f(I, a, kw, fr, st, node):
        shp = a[0] if a else kw.get('shape')
        n = as_int(shp)
        x = val
        if val is None:
            x = a[1] if len(a) > 1 else kw.get('fill_value', N.fresh('empty'))
        sh = mat.nd(I, shp, st)
        if sh is not None and len(sh[0]) == 1:
            dims = [as_int(k) for k in sh[1]]
            if None not in dims and 0 < len(dims) <= 2 and all(
                    k <= 64 for k in dims):
                if len(dims) == 2 and dims[0] == 0:
                    return N.call('empty2d')
                m = 1
                for k in dims:
                    m *= k
                return mat.make(I, st, tuple(dims), [x] * m)
        dt = kw.get('dtype')
        dt = 'int' if isinstance(dt, Ext) and 'int' in dt.path else 'float'
        if n is not None and n <= 64:
            return I.alloc(st, HArr(None, (x,) * n, dt))
        return I.alloc(st, HArr(x, None, dt))
    return f


def n_isclose(I, a, kw, fr, st, node):
    h = I.hook('isclose', a, kw, node, fr, st)
    if h is not None:
        return h
    f = lambda x, y: I.scmp('Eq', x, y, st)
    x, y = a[0], a[1]
    return zipmap(I, f, x, y, st, 'bool')


def zipmap(I, f, x, y, st, dtype='float'):
    ox = I.h(st, x) if isinstance(x, Ref) else None
    oy = I.h(st, y) if isinstance(y, Ref) else None
    if not isinstance(ox, HArr) and not isinstance(oy, HArr):
        return f(I._sc(x, st), I._sc(y, st))
    ix = ox.items if isinstance(ox, HArr) else None
    iy = oy.items if isinstance(oy, HArr) else None
    ex = ox.elem if isinstance(ox, HArr) else I._sc(x, st)
    ey = oy.elem if isinstance(oy, HArr) else I._sc(y, st)
    if ix is not None and iy is not None and len(ix) == len(iy):
        r = tuple(f(p, q) for p, q in zip(ix, iy))
    elif ix is not None and ey is not None:
        r = tuple(f(p, ey) for p in ix)
    elif iy is not None and ex is not None:
        r = tuple(f(ex, q) for q in iy)
    elif ex is not None and ey is not None:
        return I.alloc(st, HArr(f(ex, ey), None, dtype))
    else:
        return I.alloc(st, HArr(N.fresh('zip', *[
            z for z in (I.freeze(x, st), I.freeze(y, st))
            if isinstance(z, (Node, tuple))]), None, dtype))
    return I.alloc(st, HArr(None, r, dtype))


def n_where(I, a, kw, fr, st, node):
    if len(a) < 3:
        return N.call('np.where', *I.fz(a, kw, st))
    c, x, y = a
    oc = I.h(st, c) if isinstance(c, Ref) else None
    if isinstance(oc, HArr):
        if oc.items is not None:
            n = len(oc.items)

            def col(v):
                o = I.h(st, v) if isinstance(v, Ref) else None
                if isinstance(o, HArr):
                    return o.items if o.items is not None else (o.elem,) * n
                return (I._sc(v, st),) * n
            xs, ys = col(x), col(y)
            return I.alloc(st, HArr(None, tuple(
                _ite(I, t, p, q, st) for t, p, q in zip(oc.items, xs, ys))))
        t = I.truth(oc.elem, st)
        return I.alloc(st, HArr(_ite(I, t, I.elem_of(x, st),
                                     I.elem_of(y, st), st), None))
    t = I.truth(c, st)
    ex, ey = I.elem_of(x, st), I.elem_of(y, st)
    r = _ite(I, t, ex, ey, st)
    if isinstance(x, Ref) or isinstance(y, Ref):
        return I.alloc(st, HArr(r, None))
    return r


def _ite(I, t, a, b, st):
    if isinstance(t, Node):
        d = st.facts.decide(t)
        if d is not None:
            t = d
    if isinstance(a, bool):
        a = N.const(a)
    if isinstance(b, bool):
        b = N.const(b)
    return N.ite(t, a, b)


def n_interp(I, a, kw, fr, st, node):
    x = a[0]
    rest = list(a[1:])
    xs = I.iterate(to_arr(I, rest[0], st), fr, st, node) if isinstance(
        rest[0], (Ref, tuple)) else None
    ys = I.iterate(to_arr(I, rest[1], st), fr, st, node) if isinstance(
        rest[1], (Ref, tuple)) else None
    if xs and ys and len(xs) == len(ys):
        tail = [tuple(xs), tuple(ys)]
    else:
        tail = [I.freeze(r, st) for r in rest[:2]]
    tail += [I.freeze(r, st) for r in rest[2:]] + [
        (k, I.freeze(kw[k], st)) for k in sorted(kw)]

    def f(v):
        v = I._sc(v, st)
        if v is N.ABSENT:
            return v
        if xs and len(xs) == 2 and ys and len(ys) == 2 and not kw and len(
                rest) == 2 and all(N.finite(x) for x in xs):
            s = N.div(N.sub(ys[1], ys[0]), N.sub(xs[1], xs[0]))
            return N.ite(N.lt(v, xs[0]), ys[0], N.ite(
                N.lt(xs[1], v), ys[1],
                N.add(ys[0], N.mul(s, N.sub(v, xs[0])))))
        if xs and ys and len(xs) == len(ys):
            i = locate(I, v, xs, st)
            if i is not None:
                side, j = i
                if side == 'at':
                    return ys[j]
                if j == 0:
                    return kw.get('left', rest[2] if len(rest) > 2 else ys[0])
                if j == len(xs):
                    return kw.get('right', rest[3] if len(rest) > 3
                                  else ys[-1])
                s = N.div(N.sub(ys[j], ys[j - 1]), N.sub(xs[j], xs[j - 1]))
                return N.add(ys[j - 1], N.mul(s, N.sub(v, xs[j - 1])))
        return N.call('interp', v, *tail)
    return I.map1(x, f, fr, st)


def s_interp1d(I, a, kw, fr, st, node):
    if len(a) == 2 and not kw:
        return _Partial(Ext('scipy.interpolate.interp1d_at'), list(a), {})
    return None


def s_interp1d_at(I, a, kw, fr, st, node):
    """The function made by interp1d: a ValueError outside of the knots."""
    xs = I.iterate(to_arr(I, a[0], st), fr, st, node) if isinstance(
        a[0], (Ref, tuple)) else None
    v = I._sc(a[2], st) if len(a) == 3 else None
    if not xs or not isinstance(v, Node) or kw:
        return N.call('scipy.interpolate.interp1d', *I.fz(a, kw, st))
    out = N.or_(N.lt(v, xs[0]), N.lt(xs[-1], v))

    def go(s, t):
        if t:
            I.exit(fr, 'raise', 'ValueError', s.copy(), node)
            raise Dead
        return n_interp(I, [v, a[0], a[1]], {}, fr, s, node)
    if isinstance(out, bool):
        return go(st, out)
    return I.split(fr, st, out, go)


def s_griddata(I, a, kw, fr, st, node):
    """Linear interpolation between given points (a constant table)."""
    nm = ('points', 'values', 'xi', 'method')
    b = dict(zip(nm, a))
    if set(b) & set(kw):
        return None
    b.update(kw)
    b.setdefault('method', 'linear')
    if set(b) != set(nm):
        return None
    p = mat.nd(I, b['points'], st)
    if p is None and isinstance(b['points'], Ref):
        rows = I.iterate(b['points'], fr, st, node)
        p = mat.nd(I, tuple(rows), st) if rows is not None else None
    q = b['values']
    q = I.iterate(q, fr, st, node) if isinstance(q, (Ref, tuple)) else None
    x = I.iterate(b['xi'], fr, st, node) if isinstance(
        b['xi'], (Ref, tuple)) else None
    if p is None or q is None or x is None or len(x) != 2 or (
            b['method'] != 'linear') or len(p[0]) != 2 or p[0][1] != 2:
        return None
    if p[0][0] != len(q) or not all(N.finite(y) for y in p[1]):
        return None
    pts = list(zip(p[1][::2], p[1][1::2]))
    q = ['nan' if y is None or N.is_const(y) and not N.finite(y) else y
         for y in q]
    if not all(y == 'nan' or N.finite(y) for y in q):
        return None
    tab = sorted(((N.cval(s), N.cval(t)), y if y == 'nan' else N.cval(y))
                 for (s, t), y in zip(pts, q))
    if len({t[0] for t in tab}) != len(tab):
        return None
    return N.call('griddata', tuple(
        (N.const(s), N.const(t), y if y == 'nan' else N.const(y))
        for (s, t), y in tab), *(I._sc(y, st) for y in x))


SCIPY = {'interp1d': s_interp1d, 'interp1d_at': s_interp1d_at,
         'griddata': s_griddata}


def locate(I, v, xs, st):
    """Position of v among ordered knots: ('at', j) or ('below', j)."""
    for j, x in enumerate(xs):
        c = I.scmp('Eq', v, x, st)
        if c is True:
            return ('at', j)
        c = I.scmp('Lt', v, x, st)
        if c is True:
            return ('below', j)
        if c is not False:
            return None
    return ('below', len(xs))


def n_searchsorted(I, a, kw, fr, st, node):
    xs = I.iterate(to_arr(I, a[0], st), fr, st, node) if isinstance(
        a[0], (Ref, tuple)) else None
    side = a[2] if len(a) > 2 else kw.get('side', 'left')
    if xs is None or side not in ('left', 'right'):
        return N.call('np.searchsorted', *I.fz(a, kw, st))

    def f(v):
        v = I._sc(v, st)
        if v is N.ABSENT:
            return v
        i = locate(I, v, xs, st)
        if i is None:
            return N.call('np.searchsorted', v, I.freeze(a[0], st), side)
        return N.const(i[1] + (1 if i[0] == 'at' and side == 'right' else 0))
    return I.map1(a[1], f, fr, st)


def n_select(I, a, kw, fr, st, node):
    cs = I.iterate(a[0], fr, st, node)
    vs = I.iterate(a[1], fr, st, node)
    d = a[2] if len(a) > 2 else kw.get('default', N.ZERO)
    if cs is None or vs is None:
        return N.call('np.select', *I.fz(a, kw, st))
    r = d
    for c, v in reversed(list(zip(cs, vs))):
        r = n_where(I, [c, v, r], {}, fr, st, node)
    return r


def n_bool2(op):
    def f(I, a, kw, fr, st, node):
        import ast
        return I.binop(ast.BitAnd() if op == 'and' else ast.BitOr(), a[0],
                       a[1], fr, st, node)
    return f


def n_not(I, a, kw, fr, st, node):
    return I.map1(a[0], lambda x: N.not_(I.truth(x, st)), fr, st)


def n_arith(op):
    def f(I, a, kw, fr, st, node):
        import ast
        return I.binop(getattr(ast, op)(), a[0], a[1], fr, st, node)
    return f


def n_copyto(I, a, kw, fr, st, node):
    if 'where' in kw:
        I.setitem(a[0], kw['where'], a[1], fr, st, node)
    else:
        I.hook('mutate', a[0], node, fr, st)
    return None


def n_square(I, a, kw, fr, st, node):
    return I.map1(to_arr(I, a[0], st), lambda x: N.mul(x, x), fr, st)


def n_negative(I, a, kw, fr, st, node):
    return I.map1(to_arr(I, a[0], st), lambda x: N.neg(I._sc(x, st)), fr, st)


def n_clip(I, a, kw, fr, st, node):
    v = a[0]
    lo = a[1] if len(a) > 1 else kw.get('a_min', kw.get('min'))
    hi = a[2] if len(a) > 2 else kw.get('a_max', kw.get('max'))

    def f(x):
        if lo is not None:
            x = st.facts.mk_minmax('max', [x, I._sc(lo, st)])
        if hi is not None:
            x = st.facts.mk_minmax('min', [x, I._sc(hi, st)])
        return x
    return I.map1(v, f, fr, st)


def n_fixed(fn):
    """Functions of fixed-length arrays; symbolic otherwise."""
    def f(I, a, kw, fr, st, node):
        arrs = []
        for x in a:
            if isinstance(x, Ref):
                o = I.h(st, to_arr(I, x, st))
                if isinstance(o, HArr) and o.items is not None:
                    arrs.append(o.items)
                    continue
                if isinstance(o, HArr):
                    arrs = None
                    break
                arrs.append(x)
            else:
                q = mat.nd(I, x, st) if _structured(x) else None
                arrs.append(tuple(q[1]) if q and len(q[0]) == 1 else x)
        if arrs is not None:
            try:
                r = fn(I, arrs, kw, st)
                if r is not NotImplemented:
                    return I.alloc(st, HArr(None, tuple(r))) if isinstance(
                        r, (tuple, list)) else r
            except (TypeError, IndexError, ValueError):
                pass
        return N.call('np.' + fn.__name__[1:], *I.fz(a, kw, st))
    return f


def _flip(I, a, kw, st):
    return tuple(reversed(a[0])) if isinstance(a[0], tuple) else NotImplemented


def _diff(I, a, kw, st):
    if not isinstance(a[0], tuple):
        return NotImplemented
    return tuple(N.sub(y, x) for x, y in zip(a[0], a[0][1:]))


def _insert(I, a, kw, st):
    i = as_int(a[1])
    if i is None or not isinstance(a[0], tuple):
        return NotImplemented
    t = list(a[0])
    t.insert(i, a[2])
    return t


def _append(I, a, kw, st):
    if not isinstance(a[0], tuple):
        return NotImplemented
    return a[0] + (a[1] if isinstance(a[1], tuple) else (a[1],))


def n_concatenate(I, a, kw, fr, st, node):
    parts = I.iterate(a[0], fr, st, node)
    if parts is not None:
        out = []
        for p in parts:
            q = I.iterate(to_arr(I, p, st), fr, st, node) if not isinstance(
                p, Node) else None
            if q is None:
                break
            out += q
        else:
            return I.alloc(st, HArr(None, tuple(out)))
    return N.call('np.concatenate', *I.fz(a, kw, st))


def n_stack(how):
    def f(I, a, kw, fr, st, node):
        parts = I.iterate(a[0], fr, st, node)
        if parts is not None:
            if how == 'v':
                parts = [p for p in parts if not (
                    isinstance(p, Node) and p.op == 'call'
                    and p.args[0] == 'empty2d')]
            x = [mat.nd(I, p, st) for p in parts]
            if x and all(q is not None for q in x) and not any(
                    s == () and _opaque_arr(q[0]) for s, q in x):
                r = mat.stack(x, how)
                if r is not None:
                    return mat.make(I, st, *r)
            if len(parts) == 1 and how == 'h' and isinstance(parts[0], Ref):
                return parts[0]
        return N.call(f'np.{how}stack', *I.fz(a, kw, st))
    return f


def _opaque_arr(x):
    return isinstance(x, Node) and x.op in ('call', 'attr', 'item') and (
        x.op != 'call' or str(x.args[0]).startswith('np.'))


def n_argext(which):
    def f(I, args, kw, fr, st, node):
        x = mat.nd(I, args[0], st)
        if x is None or len(x[0]) != 1 or not x[1] or len(args) > 1 or kw:
            return NotImplemented
        best, bv = N.const(0), x[1][0]
        for i, v in enumerate(x[1][1:], 1):
            c = N.lt(bv, v) if which == 'max' else N.lt(v, bv)
            d = st.facts.decide(c)
            if d is not None:
                c = d
            if c is False:
                continue
            best = N.const(i) if c is True else N.ite(c, N.const(i), best)
            bv = v if c is True else N.ite(c, v, bv)
        return best
    return f


def n_matmul(I, a, kw, fr, st, node):
    x = [mat.nd(I, v, st) for v in a[:2]]
    if all(q is not None and q[0] for q in x):
        r = mat.matmul(*x)
        if r is not None:
            return mat.make(I, st, *r)
    return N.call('np.matmul', *I.fz(a, kw, st))


def n_transpose(I, a, kw, fr, st, node):
    x = mat.nd(I, a[0], st)
    if x is not None and len(a) == 1 and not kw:
        return mat.make(I, st, *mat.transpose(x))
    return N.call('np.transpose', *I.fz(a, kw, st))


def n_roll(I, a, kw, fr, st, node):
    x = mat.nd(I, a[0], st)
    k = as_int(a[1] if len(a) > 1 else kw.get('shift'))
    if x is not None and len(x[0]) == 1 and k is not None and len(a) <= 2:
        f = list(x[1])
        k = k % len(f) if f else 0
        return mat.make(I, st, x[0], f[-k:] + f[:-k] if k else f)
    return N.call('np.roll', *I.fz(a, kw, st))


def n_arange(I, a, kw, fr, st, node):
    k = [as_int(x) for x in a]
    if None not in k and not kw and len(range(*k)) <= 64:
        return I.alloc(st, HArr(None, tuple(N.const(i) for i in range(*k)),
                                'int'))
    return N.call('np.arange', *I.fz(a, kw, st))


def n_eye(I, a, kw, fr, st, node):
    n = as_int(a[0])
    if n is not None and n <= 16 and len(a) == 1:
        return mat.make(I, st, (n, n), [N.ONE if i == j else N.ZERO
                                        for i in range(n) for j in range(n)])
    return N.call('np.eye', *I.fz(a, kw, st))


def n_outer(I, a, kw, fr, st, node):
    x = [mat.nd(I, v, st) for v in a[:2]]
    if all(q is not None for q in x):
        return mat.make(I, st, (len(x[0][1]), len(x[1][1])), [
            N.mul(p, q) for p in x[0][1] for q in x[1][1]])
    return N.call('np.outer', *I.fz(a, kw, st))


def n_hypot(I, a, kw, fr, st, node):
    import ast
    x, y = a
    sq = lambda v: I.binop(ast.Mult(), v, v, fr, st, node)
    return elementwise(I, 'sqrt', I.binop(ast.Add(), sq(x), sq(y), fr, st,
                                          node), fr, st)


def n_comb(I, a, kw, fr, st, node):
    import math as m
    k = [as_int(x) for x in a]
    if None not in k:
        return N.const(m.comb(*k))
    return N.call('comb', *I.fz(a, kw, st))


def n_sum(I, a, kw, fr, st, node):
    v = a[0]
    x = mat.nd(I, v, st)
    if x is not None and len(x[0]) == 2:
        ax = as_int(kw['axis']) if 'axis' in kw else (
            as_int(a[1]) if len(a) > 1 else None)
        n, m = x[0]
        f = [I._sc(q, st) for q in x[1]]
        tot = lambda xs: _total(xs)
        if 'axis' not in kw and len(a) < 2:
            return tot(f)
        if ax in (0, -2):
            return make_row(I, st, [tot(f[j::m]) for j in range(m)])
        if ax in (1, -1):
            return make_row(I, st, [tot(f[i * m:(i + 1) * m])
                                    for i in range(n)])
    if isinstance(v, Ref):
        o = I.h(st, to_arr(I, v, st))
        if isinstance(o, HArr) and o.items is not None and not kw:
            r = N.ZERO
            for x in o.items:
                x = I._sc(x, st)
                r = N.add(r, N.const(x) if isinstance(x, bool) else x)
            return r
    return N.call('sum', *I.fz(a, kw, st))


def _total(xs):
    r = N.ZERO
    for x in xs:
        r = N.add(r, N.const(x) if isinstance(x, bool) else x)
    return r


def make_row(I, st, xs):
    return I.alloc(st, HArr(None, tuple(xs)))


def n_pow(I, a, kw, fr, st, node):
    import ast
    return I.binop(ast.Pow(), a[0], a[1], fr, st, node)


def n_isnan(I, a, kw, fr, st, node):
    v = I.freeze(a[0], st)
    if isinstance(v, Node):
        # a product or sum with interpolated values is NaN with any of them
        g, out = _nan_atoms(v), False
        if g:
            for x in g:
                out = N.or_(out, N.mk('truth', N.call('isnan', x)))
            return out
    return N.mk('truth', N.call('isnan', v))


def _nan_atoms(v, out=None):
    out = [] if out is None else out
    if v.op == 'call':
        if v.args[0] == 'griddata' and v not in out:
            out.append(v)
    elif v.op in ('add', 'mul', 'div', 'neg', 'abs'):
        for x in v.args:
            _nan_atoms(x, out)
    return out


def n_meshgrid(I, a, kw, fr, st, node):
    v = [mat.nd(I, x, st) for x in a]
    if len(v) == 2 and not kw and None not in v and all(
            len(x[0]) == 1 for x in v):
        (_, p), (_, q) = v
        return I.alloc(st, HList((
            mat.make(I, st, (len(q), len(p)), p * len(q)),
            mat.make(I, st, (len(q), len(p)),
                     [y for y in q for _ in p]))))
    return N.call('numpy.meshgrid', *I.fz(a, kw, st))


def n_any(I, a, kw, fr, st, node):
    return b_all(I, a, kw, fr, st, node, False)


def _spaced(a, kw, st, I):
    """(start, stop, divisions, count, endpoint) of a space function."""
    nm = ('start', 'stop', 'num', 'endpoint')
    b = dict(zip(nm, a))
    b.update(kw)
    n = as_int(b.get('num', N.const(50)))
    ep = b.get('endpoint', True)
    x, y = b.get('start'), b.get('stop')
    if n is None or not isinstance(ep, bool) or n > 64 or set(b) - set(nm):
        return None
    if isinstance(x, Ref) or isinstance(y, Ref):
        return None
    x, y = I._sc(x, st), I._sc(y, st)
    return x, y, (n - 1 if ep else n), n, ep


def n_linspace(I, a, kw, fr, st, node):
    q = _spaced(a, kw, st, I)
    if q is None:
        return N.call('np.linspace', *I.fz(a, kw, st))
    x, y, d, n, ep = q
    if n < 0:
        I.exit(fr, 'raise', 'ValueError', st.copy(), node)
        raise Dead
    out = [x if i == 0 else y if ep and i == n - 1 else N.add(x, N.mul(
        N.const(Fraction(i, d)), N.sub(y, x))) for i in range(n)]
    return I.alloc(st, HArr(None, tuple(out)))


def n_geomspace(I, a, kw, fr, st, node):
    q = _spaced(a, kw, st, I)
    if q is None:
        return N.call('np.geomspace', *I.fz(a, kw, st))
    x, y, d, n, ep = q
    if n < 0:
        I.exit(fr, 'raise', 'ValueError', st.copy(), node)
        raise Dead
    out = [x if i == 0 else y if ep and i == n - 1 else N.mul(x, N.power(
        N.div(y, x), N.const(Fraction(i, d)))) for i in range(n)]
    return I.alloc(st, HArr(None, tuple(out)))


def n_repeat(I, a, kw, fr, st, node):
    x = mat.nd(I, a[0], st) if a else None
    r = mat.nd(I, a[1], st) if len(a) > 1 else None
    if x is not None and r is not None and not kw and len(x[0]) == 1:
        k = [as_int(v) for v in r[1]]
        if r[0] == ():
            k = k * len(x[1])
        if len(k) == len(x[1]) and None not in k and sum(k) <= 256:
            return I.alloc(st, HArr(None, tuple(
                v for v, c in zip(x[1], k) for _ in range(c))))
    return N.call('np.repeat', *I.fz(a, kw, st))


def n_float(I, a, kw, fr, st, node):
    return b_float(I, a, kw, fr, st, node)


NUMPY = {
    'isscalar': n_isscalar, 'atleast_1d': n_atleast_1d, 'array': n_array,
    'asarray': n_asarray, 'zeros_like': like(N.ZERO), 'ones_like':
    like(N.ONE), 'full_like': like(None), 'zeros': filled(N.ZERO),
    'ones': filled(N.ONE), 'empty': filled(None), 'full': filled(None),
    'isclose': n_isclose, 'where': n_where, 'interp': n_interp,
    'clip': n_clip, 'flip': n_fixed(_flip), 'diff': n_fixed(_diff),
    'insert': n_fixed(_insert), 'append': n_fixed(_append),
    'concatenate': n_concatenate, 'sum': n_sum, 'pow': n_pow, 'power': n_pow,
    'minimum': minmax_arr('min'), 'maximum': minmax_arr('max'),
    'isnan': n_isnan, 'any': n_any, 'all': b_all, 'float64': n_float,
    'fmin': minmax_arr('min'), 'fmax': minmax_arr('max'),
    'copy': n_array, 'searchsorted': n_searchsorted, 'select': n_select,
    'logical_and': n_bool2('and'), 'logical_or': n_bool2('or'),
    'logical_not': n_not, 'multiply': n_arith('Mult'), 'add': n_arith('Add'),
    'subtract': n_arith('Sub'), 'divide': n_arith('Div'),
    'true_divide': n_arith('Div'), 'copyto': n_copyto, 'square': n_square,
    'negative': n_negative, 'hstack': n_stack('h'), 'vstack': n_stack('v'),
    'column_stack': n_stack('c'), 'row_stack': n_stack('v'),
    'argmax': n_argext('max'), 'argmin': n_argext('min'),
    'matmul': n_matmul, 'dot': n_matmul, 'transpose': n_transpose,
    'arange': n_arange, 'roll': n_roll, 'eye': n_eye, 'identity': n_eye, 'outer': n_outer,
    'hypot': n_hypot, 'comb': n_comb, 'linspace': n_linspace,
    'geomspace': n_geomspace, 'repeat': n_repeat,
    'meshgrid': n_meshgrid,
}


# ------------------------------------------------------------------ methods
def call_method(I, name, o, args, kw, fr, st, node):
    if isinstance(o, str):
        return str_method(I, name, o, args, kw, fr, st, node)
    if isinstance(o, tuple):
        if name == 'index' or name == 'count':
            return N.call('.' + name, I.freeze(o, st), *I.fz(args, kw, st))
        return N.call('.' + name, I.freeze(o, st), *I.fz(args, kw, st))
    if isinstance(o, Ref):
        h = I.h(st, o)
        if isinstance(h, HIte):
            def go(s, t):
                s.heap[o.id] = h.a if t else h.b
                return call_method(I, name, o, args, kw, fr, s, node)
            return I.split(fr, st, h.cond, go)
        if isinstance(h, HList):
            return list_method(I, name, o, h, args, kw, fr, st, node)
        if isinstance(h, HDict):
            return dict_method(I, name, o, h, args, kw, fr, st, node)
        if isinstance(h, HArr):
            return arr_method(I, name, o, h, args, kw, fr, st, node)
    return N.call('.' + name, I._node(I.freeze(o, st)), *I.fz(args, kw, st))


def str_method(I, name, o, args, kw, fr, st, node):
    if all(isinstance(a, (str, tuple)) for a in args) and not kw:
        if name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace',
                    'startswith', 'endswith', 'capitalize', 'title',
                    'casefold', 'isdigit', 'removeprefix', 'removesuffix',
                    'isupper', 'islower'):
            return getattr(o, name)(*args)
        if name == 'split':
            return I.alloc(st, HList(tuple(o.split(*args))))
    if name == 'join':
        items = I.iterate(args[0], fr, st, node)
        if items is not None and all(isinstance(x, str) for x in items):
            return o.join(items)
    return N.call('.' + name, o, *I.fz(args, kw, st))


MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort',
            'reverse', 'add', 'update', 'discard', 'fill', 'setdefault',
            'popitem', 'resize', 'put', 'partition', 'itemset'}


def list_method(I, name, o, h, args, kw, fr, st, node):
    if name in MUTATORS:
        I.hook('mutate', o, node, fr, st)
    items = h.items
    if isinstance(items, Node):
        c, p, q = items.args

        def go(s, t):
            s.heap[o.id] = HList(p if t else q, h.kind, h.tag)
            return call_method(I, name, o, args, kw, fr, s, node)
        return I.split(fr, st, c, go)
    known = isinstance(items, tuple)
    if name == 'append':
        if known:
            st.heap[o.id] = HList(items + (args[0],), h.kind, h.tag)
        else:
            d = [x for x in (h.tag, I.freeze(args[0], st))
                 if isinstance(x, (Node, tuple))]
            st.heap[o.id] = HList(None, h.kind, N.fresh('list', *d))
        return None
    if name == 'add':
        if known:
            if not any(I.eq(x, args[0], st) is True for x in items):
                st.heap[o.id] = HList(items + (args[0],), h.kind, h.tag)
        return None
    if name in ('extend', 'update'):
        I.list_extend(o, args[0], fr, st, node)
        return None
    if name == 'copy':
        return I.alloc(st, HList(items, h.kind, h.tag))
    if name == 'pop' and known:
        i = as_int(args[0]) if args else -1
        if i is not None and items:
            it = list(items)
            v = it.pop(i)
            st.heap[o.id] = HList(tuple(it), h.kind, h.tag)
            return v
    if name == 'insert' and known and as_int(args[0]) is not None:
        it = list(items)
        it.insert(as_int(args[0]), args[1])
        st.heap[o.id] = HList(tuple(it), h.kind, h.tag)
        return None
    if name == 'reverse' and known:
        st.heap[o.id] = HList(tuple(reversed(items)), h.kind, h.tag)
        return None
    if name == 'clear':
        st.heap[o.id] = HList((), h.kind, h.tag)
        return None
    if name == 'sort' and known:
        r = b_sorted(I, [o], kw, fr, st, node)
        st.heap[o.id] = I.h(st, r)
        return None
    if name == 'index' and known:
        for i, x in enumerate(items):
            e = I.eq(x, args[0], st)
            if e is True:
                return N.const(i)
            if e is not False:
                break
    if name in ('union', 'intersection', 'difference'):
        return I.alloc(st, HList(None, 'set'))
    if name in MUTATORS:
        st.heap[o.id] = HList(None, h.kind, N.fresh('list', *[
            x for x in (h.tag,) if isinstance(x, Node)]))
        return N.fresh(name)
    return N.call('.' + name, I._node(I.freeze(o, st)), *I.fz(args, kw, st))


def dict_method(I, name, o, h, args, kw, fr, st, node):
    if name in MUTATORS:
        I.hook('mutate', o, node, fr, st)
    if name == 'get':
        d = args[1] if len(args) > 1 else None
        k = args[0]
        if isinstance(k, Node) and k.op == 'ite' and _structured(k):
            return I.split(fr, st, k.args[0], lambda s, t: dict_method(
                I, name, o, h, [k.args[1] if t else k.args[2]] + args[1:],
                kw, fr, s, node))
        return I.dict_get(o, h, k, fr, st, node, default=d)
    if name == 'keys' and not h.open:
        return Iter([_ukey(k) for k in h.items])
    if name == 'values' and not h.open:
        return Iter(list(h.items.values()))
    if name == 'items' and not h.open:
        return Iter([(_ukey(k), v) for k, v in h.items.items()])
    if name == 'copy':
        return I.alloc(st, HDict(dict(h.items), h.tag, h.open))
    if name == 'update':
        d = dict(h.items)
        op = h.open
        for a in args:
            oo = I.h(st, a) if isinstance(a, Ref) else None
            if isinstance(oo, HDict):
                d.update(oo.items)
                op |= oo.open
            else:
                op = True
        d.update({k: v for k, v in kw.items() if k != '**'})
        st.heap[o.id] = HDict(d, h.tag, op)
        return None
    if name == 'setdefault' and I.hashkey(args[0], st):
        d = dict(h.items)
        v = d.setdefault(_dkey(args[0]), args[1] if len(args) > 1 else None)
        st.heap[o.id] = HDict(d, h.tag, h.open)
        return v
    if name == 'pop' and I.hashkey(args[0], st):
        d = dict(h.items)
        if _dkey(args[0]) in d:
            v = d.pop(_dkey(args[0]))
            st.heap[o.id] = HDict(d, h.tag, h.open)
            return v
        if len(args) > 1:
            return args[1]
    return N.call('.' + name, N.call('dict', o.id), *I.fz(args, kw, st))


def arr_method(I, name, o, h, args, kw, fr, st, node):
    if name in MUTATORS:
        I.hook('mutate', o, node, fr, st)
    if name == 'copy':
        return I.alloc(st, HArr(h.elem, h.items, h.dtype, h.tag))
    if name == 'astype':
        dt = _dtype(kw, [None] + list(args))
        r = I.alloc(st, HArr(h.elem, h.items, h.dtype, h.tag))
        return cast(I, r, dt, fr, st, node)
    if name in ('dot', '__matmul__'):
        return n_matmul(I, [o] + list(args), kw, fr, st, node)
    if name == 'transpose' and not args:
        return n_transpose(I, [o], kw, fr, st, node)
    if name == 'reshape' and not kw:
        x = (h.tag[1:] if isinstance(h.tag, tuple) and h.tag[:1] == ('nd',)
             else mat.nd(I, o, st))
        sh = args[0] if len(args) == 1 and isinstance(
            args[0], tuple) else tuple(args)
        sh = [as_int(y) for y in sh]
        if x is not None and None not in sh and len(sh) <= 2:
            n = len(x[1])
            if sh.count(-1) == 1:
                m = 1
                for y in sh:
                    m *= y if y != -1 else 1
                sh = [n // m if y == -1 and m else y for y in sh]
            m = 1
            for y in sh:
                m *= y
            if m == n:
                return mat.make(I, st, tuple(sh), list(x[1]))
    if name in ('flatten', 'ravel') and h.items is not None and mat.is2d(h):
        x = mat.nd(I, o, st)
        if x is not None:
            return I.alloc(st, HArr(None, tuple(x[1])))
    if name == 'tolist' and h.items is not None and mat.is2d(h):
        return I.alloc(st, HList(tuple(I.alloc(st, HList(r))
                                       for r in h.items)))
    if name in ('flatten', 'ravel', 'tolist', 'squeeze'):
        if name == 'tolist' and h.items is not None:
            return I.alloc(st, HList(h.items))
        return o
    if name == 'item':
        if h.elem is not None:
            return h.elem
        if h.items is not None and len(h.items) == 1:
            return h.items[0]
    if name in ('any', 'all'):
        return b_all(I, [o], kw, fr, st, node, name == 'all')
    if name == 'sum' and h.items is not None:
        return n_sum(I, [o], kw, fr, st, node)
    if name in ('min', 'max') and h.items is not None:
        return st.facts.mk_minmax(name, [I._sc(x, st) for x in h.items])
    return N.call('.' + name, I._node(I.freeze(o, st)), *I.fz(args, kw, st))
