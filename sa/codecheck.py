"""Design-code functions against restated clauses (C11-C13, C15, C21-C23).

Every public function of a code package is interpreted abstractly over symbols
for its arguments (one run per combination of the enumerated options) and its
value graph is compared with the one of an independent restatement of the
clause (sa/codespec): the conditions under which it raises, the conditions
under which it warns and the value on every path.
"""

from __future__ import annotations

import ast
import itertools
import os

from . import nodes as N
from .interp import (Func, HArr, HDict, HIte, HList, Interp, Mod, Ref, UNDEF)
from .lawcheck import KNOWN_CALLS
from .nodes import Node, const, lt, sym
from .refute import refute
from .report import HERE
from .repo import loc
from .util import World, flat, guard_term, leaves

CODES = 'structuralcodes.codes'
SPECS = {
    'ec2_2004_mat': 'ec2_2004', 'ec2_2004_sls': 'ec2_2004',
    'ec2_2023': 'ec2_2023', 'mc2010_mat': 'mc2010', 'mc2010_uls': 'mc2010',
}
# calls whose value depends on their arguments alone, in a known way
EXACT = KNOWN_CALLS | {'round', 'griddata', 'isnan', 'log10', 'floor',
                       'numpy.isnan', 'math.isnan', 'acos', 'asin', 'atan'}


class Spec:
    def __init__(self, name):
        self.name = name
        self.code = SPECS[name]
        path = os.path.join(HERE, 'sa', 'codespec', name + '.py')
        with open(path) as f:
            self.text = f.read()
        tree = ast.parse(self.text)
        self.D, self.ARRAYS, self.SUMS, env = {}, {}, (), {}
        self.funcs, self.guards = [], {}
        for n in tree.body:
            if isinstance(n, ast.Assign) and n.targets[0].id in (
                    'D', 'ARRAYS', 'SUMS', 'CEM', 'CLASSES'):
                exec(compile(ast.Module([n], []), path, 'exec'), env)
            elif isinstance(n, ast.FunctionDef):
                if n.name.startswith('_ok_'):
                    self.guards[n.name[4:]] = n.name
                elif not n.name.startswith('_'):
                    self.funcs.append(n)
        self.D = env['D']
        self.ARRAYS = env.get('ARRAYS', {})
        self.SUMS = env.get('SUMS', ())

    @property
    def mod(self):
        return 'sa_codespec_' + self.name

    def dom(self, fn, p):
        d = self.D.get(fn, {})
        if p in d:
            return d[p]
        return self.D['*'].get(p)


def setup(repo, names):
    specs = [Spec(n) for n in names]
    for s in specs:
        repo.model(s.mod, s.text)
    return specs


def find(I, code, name):
    """The public function of a code package."""
    pkg = f'{CODES}.{code}'
    v = I.module(pkg).get(name)
    if isinstance(v, Func):
        return v
    for m in sorted(I.repo.modules):
        if m.startswith(pkg + '.'):
            v = I.module(m).get(name)
            if isinstance(v, Func):
                return v
    return None


def variants(opts):
    """Options in several spellings, plus values that are none of them."""
    out = []
    for o in opts:
        out += [o, o.upper(), o.lower(), f'  {o.capitalize()} ']
    out += ['', 'zz', opts[0] + 'x']
    seen, r = set(), []
    for o in out:
        if o not in seen:
            seen.add(o)
            r.append(o)
    return r


def numeric(name, d):
    """(symbol, assumptions) of a numeric domain."""
    x = sym(name)
    if d == 'R':
        return x, []
    if d == 'P':
        return x, [(lt(N.ZERO, x), True)]
    if d == 'N':
        return x, [(N.le(N.ZERO, x), True)]
    if d == 'int':
        return sym(name, 'int'), []
    lo, hi = d[1:-1].split(',')
    a = N.lt if d[0] == '(' else N.le
    b = N.lt if d[-1] == ')' else N.le
    return x, [(a(const(float(lo)), x), True), (b(x, const(float(hi))), True)]


def choices(d):
    """The ways a parameter is set: ('num', dom) / ('lit', value)."""
    if d is None:
        return [('num', 'P')]
    if isinstance(d, str):
        return [('loads', None)] if d == 'loads' else [('num', d)]
    if d and d[0] == '~':
        return [('lit', v) for v in variants(list(d[1:]))]
    out = []
    for v in d:
        if isinstance(v, str) and v.startswith('='):
            out.append(('num', v[1:]))
        else:
            out.append(('lit', v))
    return out


def literal(v):
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    return const(v)


def params_of(node):
    a = node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def defaults_of(node):
    a = node.args
    pos = a.posonlyargs + a.args
    d = {}
    for p, v in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        d[p.arg] = v
    for p, v in zip(a.kwonlyargs, a.kw_defaults):
        if v is not None:
            d[p.arg] = v
    return d


def combos(spec, fn, names):
    lists = [choices(spec.dom(fn, p)) for p in names]
    total = 1
    for x in lists:
        total *= len(x)
    if total <= 260:
        return list(itertools.product(*lists))
    # too many: vary pairs of parameters around the first choice
    out, seen = [], set()
    for i, j in itertools.combinations_with_replacement(
            range(len(lists)), 2):
        if len(lists[i]) * len(lists[j]) == 1:
            continue
        for a in lists[i]:
            for b in lists[j]:
                c = [x[0] for x in lists]
                c[i], c[j] = a, b
                k = repr(c)
                if k not in seen:
                    seen.add(k)
                    out.append(tuple(c))
    return out


class Run:
    """One call in a fresh world."""

    def __init__(self, I, module, f, pos, kw, assume, mk=None):
        I.warned = []
        self.W = World(I, module, assume)
        if mk:
            pos = [mk(self.W, x) for x in pos]
            kw = {k: mk(self.W, x) for k, x in kw.items()}
        self.args = pos
        self.v = self.W.call(f, *pos, **kw)
        self.exits = self.W.exits
        self.warned = list(I.warned)
        self.I = I

    def raises(self, kind=None):
        t = None
        for e in self.exits:
            if kind is not None and str(e.value) != kind:
                continue
            t = self._or(t, e.guard)
        return False if t is None else t

    def warns(self):
        t = None
        for g in self.warned:
            t = self._or(t, g)
        return False if t is None else t

    @staticmethod
    def _or(t, guard):
        g = guard_term(guard)
        if g is None:
            return True
        if t is None:
            return g
        return True if t is True else N.or_(t, g)


def has_ref(v):
    if isinstance(v, tuple):
        return any(has_ref(x) for x in v)
    if isinstance(v, Node):
        return any(isinstance(y, Ref) or isinstance(y, tuple) and has_ref(y)
                   for x in N.walk(v) for y in x.args)
    return isinstance(v, Ref)


def opaque(v):
    if has_ref(v):
        return True
    for x in N.walk(v):
        if x.op in ('unk', 'maybe_undef', 'item', 'attr', 'truth'):
            return True
        if x.op == 'call' and x.args[0] not in EXACT:
            return True
    return False


def tables_only(a, b):
    """Are interpolations in one table all that is not evaluated?"""
    tabs = set()
    for v in (a, b):
        if has_ref(v):
            return False
        for x in N.walk(v):
            if x.op == 'call' and x.args[0] == 'griddata':
                tabs.add(x.args[1])
            elif x.op == 'call' and x.args[0] == 'isnan':
                if not isinstance(x.args[1], N.Node) or (
                        x.args[1].op != 'call'
                        or x.args[1].args[0] != 'griddata'):
                    return False
            elif x.op == 'truth':
                if not isinstance(x.args[0], N.Node) or (
                        x.args[0].op != 'call'
                        or x.args[0].args[0] != 'isnan'):
                    return False
            elif x.op in ('unk', 'maybe_undef', 'item', 'attr') or (
                    x.op == 'call' and x.args[0] not in EXACT):
                return False
    per = [{(x.args[1], x.args[2:]) for x in N.walk(v)
            if x.op == 'call' and x.args[0] == 'griddata'} for v in (a, b)]
    return bool(tabs) and (per[0] <= per[1] or per[1] <= per[0])


def without(v):
    """Is None an operand (the call fails)?"""
    return isinstance(v, N.Node) and any(
        x.op in ('add', 'sub', 'neg', 'mul', 'div', 'pow', 'min', 'max',
                 'lt', 'le') and any(
            isinstance(y, N.Node) and y.op == 'call' and y.args == ('none',)
            for y in x.args)
        for x in N.walk(v))


def as_num(t):
    if t is True:
        return N.ONE
    if t is False:
        return N.ZERO
    return expand(t, N.ONE, N.ZERO)


def expand(t, x, y):
    """ite(t, x, y) over the atomic conditions of t."""
    if t.op == 'not':
        return expand(t.args[0], y, x)
    if t.op == 'and':
        return expand(t.args[0], expand(t.args[1], x, y), y)
    if t.op == 'or':
        return expand(t.args[0], x, expand(t.args[1], x, y))
    return N.ite(t, x, y)


def judge(chk, rule, con, where, a, b, facts, text, boolean=False):
    if boolean:
        a, b = as_num(a), as_num(b)
    if isinstance(a, Ref) or isinstance(b, Ref) or a is UNDEF or b is UNDEF:
        chk.unknown(rule, con, f'{a!r} vs {b!r}')
        return
    if isinstance(a, bool):
        a = const(a)
    if isinstance(b, bool):
        b = const(b)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        if a is b or a == b:
            chk.ok(rule, con)
        else:
            chk.violation(rule, con, where, f'{text}: {a!r} / {b!r}')
        return
    if N.equal(a, b, facts):
        chk.ok(rule, con)
        return
    if without(a) and not without(b):
        chk.violation(rule, con, where,
                      f'{text}: computes with None: {N.show(a)[:200]}')
        return
    if (opaque(a) or opaque(b)) and not tables_only(a, b):
        chk.unknown(rule, con, f'{N.show(a)} vs {N.show(b)}')
        return
    w = refute(a, b, facts)
    if w is None:
        chk.unknown(rule, con, f'{N.show(a)} vs {N.show(b)}')
        return
    env = ', '.join(f'{k}={v:.6g}' for k, v in sorted(w[0].items()))
    if N.is_const(a):
        # a constant: another wrong constant is another violation
        con += f' = {float(N.cval(a)):.6g}'
    chk.violation(rule, con, where,
                  f'{text}: {w[1]!r} instead of {w[2]!r}, e.g. at {env}'
                  f' [{N.show(a)[:200]}]')


def make(c, name):
    """Argument builder of one choice; (value or marker, assumptions)."""
    kind, d = c
    if kind == 'lit':
        return literal(d), []
    if kind == 'loads':
        return ('loads',), []
    return numeric(name, d)


def realise(W, x):
    if x == ('loads',):
        return W.I.alloc(W.st, HDict({
            k: sym('load_' + k) for k in ('Med', 'Ved', 'Ned', 'delta_e')}))
    return x


def signature(chk, I, spec, node, f, where):
    con = f'{spec.code}.{node.name}'
    want, have = params_of(node), params_of(f.node)
    if have[:len(want)] != want:
        chk.violation('signature', con, where,
                      f'parameters {have} instead of {want}')
        return False
    dw, dh = defaults_of(node), defaults_of(f.node)
    extra = [p for p in have[len(want):] if p not in dh]
    if extra:
        chk.violation('signature', con, where,
                      f'required parameters {extra} were added')
        return False
    for p in want:
        if (p in dw) and p not in dh:
            chk.violation('signature', con, where,
                          f'parameter {p} lost its default')
            return False
        if p not in dw and p in dh:
            continue
    chk.ok('signature', con)
    return True


def one(chk, *a):
    guarded(chk, _one, *a)


def arrays(chk, *a):
    guarded(chk, _arrays, *a)


def guarded(chk, run, *a):
    # a construct outside of the analysed subset leaves one function undecided
    try:
        run(chk, *a)
    except Exception as e:
        chk.unknown('analysis', f'{a[1].code}.{a[2].name}',
                    f'{type(e).__name__}: {e}')


def _one(chk, I, spec, node, f, sf, names, combo, label, kw=False):
    fn = node.name
    con = f'{spec.code}.{fn}{label}'
    where = f'{loc(f.module, f.node)} {fn}'
    pos, assume = [], []
    for p, c in zip(names, combo):
        v, a = make(c, p)
        pos.append(v)
        assume += a
    if fn in spec.guards:
        g = I.mod_get(spec.mod, spec.guards[fn])
        G = Run(I, spec.mod, g, pos, {}, assume, realise)
        o = G.W.h(G.v)
        assume = assume + [(c, True) for c in o.items]
    how = ([], dict(zip(names, pos))) if kw else (pos, {})
    A = Run(I, f.module.name, f, *how, assume, realise)
    B = Run(I, spec.mod, sf, *how, assume, realise)
    facts = World(I, spec.mod, assume).st.facts
    kinds = {str(e.value) for e in A.exits + B.exits}
    for k in sorted(kinds):
        judge(chk, 'rejects', f'{con} {k}', where, A.raises(k), B.raises(k),
              facts, f'condition for {k} (1: raises)', True)
    ra, rb = A.raises(), B.raises()
    if A.v is UNDEF or B.v is UNDEF:
        if A.v is B.v:
            chk.ok('value', con)
        elif ra is True or rb is True:
            pass        # reported above
        else:
            chk.unknown('value', con, f'{A.v!r} vs {B.v!r}')
        return
    st = A.W.st
    if rb is not False:
        st.facts.assume(rb, False)
    if ra is not False:
        st.facts.assume(ra, False)
    if st.facts.bad:
        return
    ls = leaves(flat(A.W, A.v), flat(B.W, B.v))
    if ls is None:
        a, b = flat(A.W, A.v), flat(B.W, B.v)
        if shape(a) and shape(b):
            chk.violation('value', con, where, f'returns {a!r}, not {b!r}')
        else:
            chk.unknown('value', con, f'{a!r} vs {b!r}')
        return
    for a, b in ls:
        judge(chk, 'value', con, where, a, b, st.facts,
              'value of the function and of the clause')
    wa, wb = A.warns(), B.warns()
    if wa is not False or wb is not False:
        judge(chk, 'warns', con, where, wa, wb, facts,
              'condition for the warning (1: warns)', True)


def shape(v):
    return isinstance(v, tuple) and all(
        isinstance(x, (Node, int, float, str)) for x in v)


def _arrays(chk, I, spec, node, f, sf, names, combo, label):
    """Array arguments give the scalar value element by element."""
    fn = node.name
    con = f'{spec.code}.{fn}{label}'
    where = f'{loc(f.module, f.node)} {fn}'
    arr = spec.ARRAYS[fn]
    pos, assume = [], []
    for p, c in zip(names, combo):
        v, a = make(c, p)
        pos.append(v)
        assume += a
    B = Run(I, spec.mod, sf, pos, {}, assume, realise)
    rb = B.raises()
    kinds = [('float', HArr, 'float'), ('int', HArr, 'int'),
             ('list', HList, None)]
    for kind, cls, dt in kinds:
        def mk(W, x, kind=kind, dt=dt):
            i = next((i for i, y in enumerate(pos) if y is x), None)
            if i is not None and names[i] in arr and isinstance(x, Node):
                if kind == 'list':
                    return W.I.alloc(W.st, HList((x,), 'list',
                                                 'elementwise'))
                return W.I.alloc(W.st, HArr(x, None, dt))
            return x
        A = Run(I, f.module.name, f, pos, {}, assume, mk)
        c2 = f'{con} {kind} array'
        if A.v is UNDEF:
            if rb is True:
                chk.ok('array', c2)
            else:
                real = [e for e in A.exits if e.value != 'NameError']
                if real:
                    chk.violation('array', c2, real[0].where,
                                  f'a {kind} array argument raises '
                                  f'{real[0].value}')
                else:
                    chk.unknown('array', c2, 'no result')
            continue
        if B.v is UNDEF:
            chk.unknown('array', c2, 'no scalar value')
            continue
        st = A.W.st
        if rb is not False:
            st.facts.assume(rb, False)
        if st.facts.bad:
            continue
        e = element(A.W, A.v)
        if fn in spec.SUMS:
            e = summand(e)
        if e is None:
            chk.unknown('array', c2, repr(A.v))
            continue
        e = second_entry(e, [x for n, x in zip(names, pos) if n in arr],
                         assume, st)
        if e == 'joined':
            chk.violation('array', c2, where, 'lists are joined or repeated,'
                          ' not combined element by element')
            continue
        judge(chk, 'array', c2, where, e, B.v, st.facts,
              f'element of the result for a {kind} array and scalar value')
        for x, y in zip(A.args, pos):
            if isinstance(x, Ref):
                now = element(A.W, x)
                if now is None:
                    chk.unknown('argument-kept', c2, repr(x))
                else:
                    judge(chk, 'argument-kept', c2, where, now, y, st.facts,
                          'argument array after and before the call')


REDUCE = {'min': lambda a, b: N.ite(N.lt(b, a), b, a),
          'max': lambda a, b: N.ite(N.lt(a, b), b, a), 'sum': N.add,
          'mean': lambda a, b: N.mul(N.const(0.5), N.add(a, b))}


def second_entry(e, params, assume, st):
    """e with every reduction taken over an array of two entries.

    An array stands for any number of entries: with another entry the
    reduction of an array is not a function of the entry looked at.
    """
    if not isinstance(e, Node):
        return e
    other = {}
    for x in params:
        if isinstance(x, Node) and x.op == 'sym':
            other[x] = N.mk('sym', f'{x.args[0]} of another entry',
                            *x.args[1:])

    def whole(y):
        while isinstance(y, Node) and y.op == 'call' and y.args[0] in (
                'arr', 'obj', 'list') and len(y.args) == 2:
            y = y.args[1]
        while isinstance(y, tuple) and len(y) == 2 and y[0] == 'arr':
            y = y[1]
        return y
    mapping = {}
    for x in N.walk(e):
        if x.op != 'call' or len(x.args) != 2:
            continue
        k = str(x.args[0]).rpartition('.')[2]
        k = {'amin': 'min', 'amax': 'max', 'nanmin': 'min', 'nanmax': 'max',
             'average': 'mean'}.get(k, k)
        y = whole(x.args[1])
        if k in REDUCE and y is not x.args[1] and isinstance(y, Node):
            mapping[x] = REDUCE[k](y, N.subst(y, other))
    if not mapping or not other:
        return e
    for f, val in assume:
        if isinstance(f, Node):
            st.facts.assume(N.subst(f, other), val)
    return N.subst(e, mapping)


def shapes(chk, I, spec, node, f):
    """Sums over increments: arrays of different lengths are refused."""
    fn = node.name
    where = f'{loc(f.module, f.node)} {fn}'
    names = params_of(f.node)
    for a, b in ((1, 3), (3, 1), (2, 3), (0, 2), (2, 0)):
        for cls in (HArr, HList):
            pos = [N.sym(f'{n}_{i}') for n in names for i in range(3)]

            def mk(W, x):
                return x
            W = World(I, f.module.name, [
                (N.lt(N.ZERO, x), True) for x in pos])
            args = []
            for j, k in enumerate((a, b)):
                xs = tuple(pos[3 * j:3 * j + k])
                args.append(pos[3 * j] if not k else W.I.alloc(
                    W.st, HArr(None, xs) if cls is HArr else HList(xs)))
            r = W.call(f, *args)
            con = f'{spec.code}.{fn} {cls.__name__[1:]} {a}|{b}'
            if r is UNDEF and W.exits and all(
                    e.value == 'ValueError' for e in W.exits):
                chk.ok('shape', con)
            elif r is UNDEF and not W.exits:
                chk.unknown('shape', con, 'no result')
            else:
                chk.violation('shape', con, where,
                              f'{fn} with {a or "a scalar"} and '
                              f'{b or "a scalar"} elements does not raise '
                              'ValueError')


def summand(e):
    """x of a sum over the elements x of an array."""
    if not isinstance(e, Node) or e.op != 'call' or e.args[0] != 'sum':
        return None
    e = e.args[1]
    while True:
        if isinstance(e, tuple) and len(e) == 2 and e[0] == 'arr':
            e = e[1]
        elif isinstance(e, Node) and e.op == 'call' and e.args[0] in (
                'arr', 'obj') and len(e.args) == 2:
            e = e.args[1]
        else:
            return e if isinstance(e, Node) else None


def element(W, v):
    if isinstance(v, Ref):
        o = W.h(v)
        if isinstance(o, HArr):
            if o.elem is not None:
                return o.elem
            if o.items is not None and len(o.items) == 1:
                return o.items[0]
            return None
        if isinstance(o, HIte):
            return None
        if isinstance(o, HList) and isinstance(o.items, tuple) and len(
                o.items) == 1:
            return o.items[0]
        if isinstance(o, HList) and isinstance(o.items, tuple) and len(
                o.items) > 1:
            return 'joined'
        return None
    if isinstance(v, Node) and v.op == 'ite':
        a, b = element(W, v.args[1]), element(W, v.args[2])
        if not isinstance(a, Node) or not isinstance(b, Node):
            return None
        return N.ite(v.args[0], a, b)
    return v


def check_spec(chk, I, spec, only=None, parts=('value', 'array')):
    for node in spec.funcs:
        fn = node.name
        if only and fn not in only:
            continue
        f = find(I, spec.code, fn)
        if f is None:
            chk.violation('present', f'{spec.code}.{fn}',
                          f'structuralcodes/codes/{spec.code}',
                          'the function of this clause is gone')
            continue
        where = f'{loc(f.module, f.node)} {fn}'
        sf = I.mod_get(spec.mod, fn)
        if 'value' in parts and not signature(chk, I, spec, node, f, where):
            continue
        names = params_of(node)
        dw = defaults_of(node)
        req = [p for p in names if p not in dw]
        if 'value' in parts:
            seen = False
            for combo in combos(spec, fn, names):
                lab = label(names, combo)
                one(chk, I, spec, node, f, sf, names, combo, lab)
                seen = True
            # parameters without a meaningful default are always given
            req += [p for p in names if p in dw and isinstance(
                dw[p], ast.Constant) and dw[p].value is None
                and ('lit', None) not in choices(spec.dom(fn, p))]
            if dw and req:
                for combo in combos(spec, fn, req):
                    one(chk, I, spec, node, f, sf, req, combo,
                        label(req, combo) + '(defaults)', True)
                some_defaults(chk, I, spec, node, f, sf, names, req, dw)
            elif not seen:
                one(chk, I, spec, node, f, sf, [], (), '')
        if 'array' in parts and fn in spec.SUMS:
            guarded(chk, shapes, I, spec, f.node, f)
        if 'array' in parts and fn in spec.ARRAYS:
            for combo in combos(spec, fn, names)[:12]:
                arrays(chk, I, spec, node, f, sf, names, combo,
                       label(names, combo))


def some_defaults(chk, I, spec, node, f, sf, names, req, dw):
    """Each pair of optional parameters, the rest left out."""
    fn = node.name
    opt = [p for p in names if p in dw and p not in req]
    pairs = [(p,) for p in opt] + list(itertools.combinations(opt, 2))
    if len(opt) < 2:
        return
    for ps in pairs:
        if len(ps) == len(opt):
            continue
        use = [p for p in names if p in req or p in ps]
        for combo in combos(spec, fn, use)[:24]:
            one(chk, I, spec, node, f, sf, use, combo,
                label(use, combo) + '(given: ' + ', '.join(ps) + ')', True)


def label(names, combo):
    s = ','.join(f'{p}={c[1]!r}' for p, c in zip(names, combo)
                 if c[0] == 'lit')
    return f'[{s}]' if s else ''


def run(names, parts=('value',), minimum=20):
    def go(repo, chk, only=None):
        N.FOLD = True
        specs = setup(repo, names)
        I = Interp(repo)
        for s in specs:
            check_spec(chk, I, s, only, parts)
        chk.seen(I)
        chk.minimum = minimum
    return go


c11 = run(['ec2_2004_mat'], minimum=100)
c12 = run(['ec2_2004_sls'], minimum=400)
c13 = run(['ec2_2023'], minimum=1000)
c15 = run(['mc2010_mat'], minimum=250)
c21 = run(['mc2010_uls'], minimum=150)
c22 = run(['ec2_2004_mat', 'mc2010_mat'], ('array',), minimum=100)
