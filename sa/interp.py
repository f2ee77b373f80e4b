"""Abstract interpreter producing a gated value graph.

One pass over the syntax tree per calling context.  At a branch whose condition
the ordering facts do not decide, both arms are analysed and the states are
*joined*: values become gated terms ``ite(cond, a, b)`` (gated SSA), facts are
intersected.  Calls into the repository are analysed in context; calls outside
it become uninterpreted terms.  No program code is executed and no solver is
used.
"""

from __future__ import annotations

import ast
import builtins
import math

from . import nodes as N
from . import mat
from .nodes import Node, Facts
from .repo import AnalysisBroken, loc

LONG = 24        # passes of a counted loop that are followed one by one
UNROLL = 48
MAXDEPTH = 40


COLLECT = None     # comparisons met, by place in the source


class Undef:
    def __repr__(self):
        return '<undef>'


UNDEF = Undef()


class Dead(Exception):
    """No execution continues past this point."""


class Unsupported(Exception):
    pass


class Ref:
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(('ref', self.id))

    def __repr__(self):
        return f'<ref {self.id}>'


class HList:
    """list / set: items is a tuple, a gated tuple (Node), or None (unknown)."""

    def __init__(self, items, kind='list', tag=None):
        self.items, self.kind, self.tag = items, kind, tag


class HDict:
    def __init__(self, items, tag=None, open_=False):
        self.items = items          # dict concrete key -> value
        self.tag = tag
        self.open = open_           # may hold other keys


class HInst:
    def __init__(self, cls, fields, lazy=None):
        self.cls, self.fields, self.lazy = cls, fields, lazy


class HArr:
    """numpy array.

    elem: the generic element (elementwise view) or None
    items: tuple for arrays of known length, else None
    """

    def __init__(self, elem=None, items=None, dtype='float', tag=None):
        self.elem, self.items, self.dtype, self.tag = elem, items, dtype, tag


class HIte:
    """Heap cell whose content depends on a condition."""

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b


class Func:
    def __init__(self, node, module, closure, defaults, kwdefaults, cls=None,
                 name=None):
        self.node, self.module, self.closure = node, module, closure
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls
        self.name = name or getattr(node, 'name', '<lambda>')
        self.kind = 'function'      # property/classmethod/staticmethod
        self.setter = None
        self.wraps = None           # what the decorator was given
        self.decorators = ()

    def __repr__(self):
        return f'<func {self.module.name}.{self.name}>'


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Cls:
    def __init__(self, name, module, node, bases, ns):
        self.name, self.module, self.node = name, module, node
        self.bases, self.ns = bases, ns
        self.mro = _mro(self)
        self.dataclass = False
        self.fields_order = []

    def __repr__(self):
        return f'<class {self.name}>'

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, Cls) and name in c.ns:
                return c.ns[name], c
        return None, None

    def issub(self, other):
        return other in self.mro


def _mro(c):
    seqs = [list(b.mro) for b in c.bases if isinstance(b, Cls)]
    seqs.append([b for b in c.bases])
    out = [c]
    seqs = [s for s in seqs if s]
    while seqs:
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            break
        out.append(h)
        for s in seqs:
            if s and s[0] is h:
                s.pop(0)
        seqs = [s for s in seqs if s]
    return out


class Ext:
    """A value from outside the repository, named by its dotted path."""

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(('ext', self.path))

    def __repr__(self):
        return f'<ext {self.path}>'


class Mod:
    def __init__(self, module):
        self.module = module

    def __eq__(self, o):
        return isinstance(o, Mod) and o.module is self.module

    def __hash__(self):
        return hash(('mod', self.module.name))


class Super:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Exit:
    def __init__(self, kind, value, st, node, module, msg=None):
        self.kind, self.value, self.st = kind, value, st
        self.node, self.module, self.msg = node, module, msg
        self.guard = st.guard

    @property
    def where(self):
        return loc(self.module, self.node)


class State:
    __slots__ = ('frames', 'heap', 'glob', 'facts', 'guard')

    def __init__(self):
        self.frames, self.heap, self.glob = {}, {}, {}
        self.facts = Facts()
        self.guard = ()

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.glob = dict(self.glob)
        s.facts = self.facts.copy()
        s.guard = self.guard
        return s

    def become(self, o):
        self.frames, self.heap, self.glob = o.frames, o.heap, o.glob
        self.facts, self.guard = o.facts, o.guard

    def fork(self, cond, truth):
        s = self.copy()
        if not s.facts.assume(cond, truth) or s.facts.bad:
            return None
        s.guard = self.guard + ((cond, truth),)
        return s


class Frame:
    def __init__(self, fid, module, func, depth):
        self.fid, self.module, self.func, self.depth = fid, module, func, depth
        self.exits = []
        self.loops = []
        self.globals_decl = set()
        self.nonlocal_decl = set()


def common_prefix(gs):
    p = gs[0]
    for g in gs[1:]:
        n = 0
        for x, y in zip(p, g):
            if x[0] is y[0] and x[1] == y[1]:
                n += 1
            else:
                break
        p = p[:n]
    return p


def gamma(items, depth, join):
    """Fold (guard, value) pairs into one gated value."""
    if len(items) == 1:
        return items[0][1]
    conds = set()
    for g, _ in items:
        conds.add(g[depth][0] if len(g) > depth else None)
    if len(conds) != 1 or None in conds:
        # not a tree: unordered join
        v = items[0][1]
        for _, w in items[1:]:
            v = join(N.fresh('join', *_asnodes(v, w)), v, w)
        return v
    c = next(iter(conds))
    t = [(g, v) for g, v in items if g[depth][1]]
    f = [(g, v) for g, v in items if not g[depth][1]]
    if not t:
        return gamma(f, depth + 1, join)
    if not f:
        return gamma(t, depth + 1, join)
    a = gamma(t, depth + 1, join)
    b = gamma(f, depth + 1, join)
    return join(c, a, b)


def _asnodes(*vs):
    return [v for v in vs if isinstance(v, (Node, tuple))]


def join_val(c, a, b):
    if N.same(a, b):
        return a
    if a is UNDEF or b is UNDEF:
        return N.mk('ite', c, a, b) if False else _maybe_undef(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(join_val(c, x, y) for x, y in zip(a, b))
    a2 = _numlike(a, b)
    b2 = _numlike(b, a)
    return N.ite(c, a2, b2)


def _numlike(a, other):
    if isinstance(a, bool) and isinstance(other, Node) and other.op == 'const':
        return N.const(a)
    return a


class _MU:
    pass


def _maybe_undef(c, a, b):
    return N.mk('maybe_undef', c, _hashable(a), _hashable(b))


def _hashable(a):
    return a if a is not UNDEF else 'UNDEF'


def join_h(c, a, b):
    if a is b:
        return a
    if isinstance(a, HList) and isinstance(b, HList) and a.kind == b.kind:
        if a.items == b.items and not isinstance(a.items, Node):
            return a
        if (isinstance(a.items, tuple) and isinstance(b.items, tuple)
                and len(a.items) == len(b.items)):
            return HList(tuple(join_val(c, x, y) for x, y
                               in zip(a.items, b.items)), a.kind, a.tag)
        if a.items is None and b.items is None:
            return HList(None, a.kind, a.tag)
    if isinstance(a, HDict) and isinstance(b, HDict):
        if set(a.items) == set(b.items):
            return HDict({k: join_val(c, a.items[k], b.items[k])
                          for k in a.items}, a.tag, a.open or b.open)
    if isinstance(a, HInst) and isinstance(b, HInst) and a.cls is b.cls:
        f = {}
        for k in list(a.fields) + [k for k in b.fields if k not in a.fields]:
            f[k] = join_val(c, a.fields.get(k, UNDEF), b.fields.get(k, UNDEF))
        return HInst(a.cls, f, a.lazy)
    if isinstance(a, HArr) and isinstance(b, HArr):
        if (a.items is not None and b.items is not None
                and len(a.items) == len(b.items)):
            return HArr(None, tuple(join_val(c, x, y) for x, y
                                    in zip(a.items, b.items)), a.dtype, a.tag)
        if a.elem is not None and b.elem is not None:
            return HArr(join_val(c, a.elem, b.elem), None,
                        a.dtype if a.dtype == b.dtype else 'any',
                        a.tag if a.tag == b.tag or not isinstance(
                            a.tag, tuple) else None)
    return HIte(c, a, b)


_fid = [0]


class Interp:
    def __init__(self, repo, hooks=None, options=None):
        self.repo = repo
        self.modcache = {}
        self.modloading = {}
        self.base_frames = {}    # frames closed over by decorators
        self.hooks = hooks or {}
        self.opts = options or {}
        self.cuts = []      # guards of histories left out
        self.nid = [0]
        self.base_heap = {}
        self.calls = []          # (caller frame, callee qualname, node)
        self.visited = set()     # (module, qualname)
        self.notes = []
        self.allocs = {}
        self.warned = []         # guards of the warnings given

    # -------------------------------------------------------------- modules
    def module(self, name):
        if name in self.modcache:
            return self.modcache[name]
        if name not in self.repo.modules:
            raise AnalysisBroken(f'module {name} not found')
        m = self.repo.modules[name]
        st = State()
        fid = ('mod', name)
        st.frames[fid] = {'__name__': name}
        self.modcache[name] = st.frames[fid]
        st.heap = self.base_heap
        fr = Frame(fid, m, None, 0)
        self.modloading[name] = st
        try:
            self.exec_block(m.tree.body, fr, st)
        except Dead:
            pass
        self.modcache[name] = st.frames[fid]
        self.base_heap = st.heap
        # propagate to other module states still loading
        for o in self.modloading.values():
            if o is not st:
                merged = dict(o.heap)
                merged.update(st.heap)
                o.heap = merged
        self.modloading.pop(name, None)
        return self.modcache[name]

    def mod_get(self, name, attr, st=None):
        key = (name, attr)
        if st is not None and key in st.glob:
            return st.glob[key]
        ns = self.module(name)
        if attr in ns:
            v = ns[attr]
            if st is not None:
                self.sync(st)
            return v
        sub = f'{name}.{attr}'
        if sub in self.repo.modules:
            self.module(sub)
            return Mod(self.repo.modules[sub])
        return UNDEF

    def sync(self, st):
        if st.heap is not self.base_heap:
            for k, v in self.base_heap.items():
                if k not in st.heap:
                    st.heap[k] = v

    def new_state(self):
        st = State()
        st.heap = dict(self.base_heap)
        return st

    def get(self, dotted):
        """Resolve 'pkg.mod:Name' or 'pkg.mod:Cls.meth'."""
        mod, _, attr = dotted.partition(':')
        parts = attr.split('.')
        v = self.mod_get(mod, parts[0])
        if v is UNDEF:
            raise AnalysisBroken(f'{dotted} not found')
        for p in parts[1:]:
            if not isinstance(v, Cls):
                raise AnalysisBroken(f'{dotted}: {p} on non-class')
            v, _ = v.lookup(p)
            if v is None:
                raise AnalysisBroken(f'{dotted} not found')
        return v

    # -------------------------------------------------------------- heap
    def alloc(self, st, obj):
        self.nid[0] += 1
        r = Ref(self.nid[0])
        st.heap[r.id] = obj
        return r

    def h(self, st, ref):
        o = st.heap.get(ref.id)
        if o is None:
            o = self.base_heap.get(ref.id)
        return o

    # -------------------------------------------------------------- split
    def split(self, fr, st, cond, fn):
        """Run fn under cond and under not cond; join."""
        d = st.facts.decide(cond) if isinstance(cond, Node) else cond
        if d is True or d is False:
            return fn(st, d)
        outs = []
        for truth in (True, False):
            s = st.fork(cond, truth)
            if s is None:
                continue
            try:
                v = fn(s, truth)
                outs.append((s, v))
            except Dead:
                pass
        if not outs:
            raise Dead
        return self.merge_into(st, outs)

    def merge_into(self, st, outs):
        if len(outs) == 1:
            s, v = outs[0]
            st.become(s)
            return v
        m = self.merge_states([s for s, _ in outs])
        p = len(m.guard)
        v = gamma([(s.guard, v) for s, v in outs], p, join_val)
        st.become(m)
        return v

    def merge_states(self, sts):
        if len(sts) == 1:
            return sts[0]
        p = common_prefix([s.guard for s in sts])
        n = len(p)
        m = State()
        m.guard = p
        f = sts[0].facts
        for s in sts[1:]:
            f = f.meet_only(s.facts)
        m.facts = f
        # frames: only those present in all
        fids = set(sts[0].frames)
        for s in sts[1:]:
            fids &= set(s.frames)
        for fid in fids:
            d = {}
            keys = {}
            for s in sts:
                for k in s.frames[fid]:
                    keys[k] = 1
            for k in keys:
                vals = [s.frames[fid].get(k, UNDEF) for s in sts]
                v0 = vals[0]
                if all(N.same(v, v0) for v in vals[1:]):
                    d[k] = v0
                else:
                    d[k] = gamma([(s.guard, v) for s, v in zip(sts, vals)],
                                 n, join_val)
            m.frames[fid] = d
        keys = {}
        for s in sts:
            for k in s.heap:
                keys[k] = 1
        for k in keys:
            pres = [(s.guard, s.heap[k]) for s in sts if k in s.heap]
            v0 = pres[0][1]
            if all(v is v0 for _, v in pres[1:]):
                m.heap[k] = v0
            else:
                m.heap[k] = gamma(pres, n, join_h)
        keys = {}
        for s in sts:
            for k in s.glob:
                keys[k] = 1
        for k in keys:
            vals = []
            for s in sts:
                if k in s.glob:
                    vals.append(s.glob[k])
                elif isinstance(k[0], str):
                    vals.append(self.modcache.get(k[0], {}).get(k[1], UNDEF))
                else:
                    vals.append(k[0].ns.get(k[1], UNDEF))
            v0 = vals[0]
            if all(N.same(v, v0) for v in vals[1:]):
                m.glob[k] = v0
            else:
                m.glob[k] = gamma([(s.guard, v) for s, v in zip(sts, vals)],
                                  n, join_val)
        return m

    # -------------------------------------------------------------- truth
    def truth(self, v, st):
        """Truth value of v: True/False/condition Node."""
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, str):
            return len(v) > 0
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, Ref):
            o = self.h(st, v)
            if isinstance(o, HList):
                if isinstance(o.items, tuple):
                    return len(o.items) > 0
                if isinstance(o.items, Node):
                    return self._truth_ite(o.items, st)
                return N.mk('truth', N.call('list', o.tag or v.id))
            if isinstance(o, HDict):
                if o.items or not o.open:
                    return len(o.items) > 0
                return N.mk('truth', N.call('dict', o.tag or v.id))
            if isinstance(o, HArr):
                if o.elem is not None:
                    e = self.truth(o.elem, st)
                    if isinstance(e, bool):
                        return e
                    return N.mk('truth', N.call('arr', e))
                if o.items is not None and len(o.items) == 1:
                    return self.truth(o.items[0], st)
                return N.mk('truth', N.call('arr', v.id))
            if isinstance(o, HIte):
                return N.mk('truth', N.call('obj', v.id))
            if isinstance(o, HInst):
                f, _ = o.cls.lookup('__len__')
                if f is not None:
                    return N.mk('truth', N.call('len', v.id))
                return True
            return True
        if isinstance(v, Node):
            if v.op == 'const':
                return N.cval(v) != 0
            if v.op in ('cmp', 'and', 'or', 'not', 'truth', 'isnone', 'any',
                        'all', 'isinst', 'in', 'streq'):
                return v
            if v.op == 'ite':
                return self._truth_ite(v, st)
            if v.op == 'maybe_undef':
                return N.mk('truth', v)
            if v.op == 'sym' and v.args[1] == 'bool':
                return v
            if v.op == 'sym' and v.args[1] in ('num', 'int'):
                return N.not_(N.cmp_('eq', v, N.ZERO))
            if v.op in ('add', 'mul', 'div', 'neg', 'pow', 'abs', 'min',
                        'max'):
                return N.not_(N.cmp_('eq', v, N.ZERO))
            return N.mk('truth', v)
        return True

    def _truth_ite(self, v, st):
        c, a, b = v.args
        ta, tb = self.truth(a, st), self.truth(b, st)
        if ta is tb or (isinstance(ta, bool) and ta == tb):
            return ta
        if ta is True and tb is False:
            return c
        if ta is False and tb is True:
            return N.not_(c)
        return N.or_(N.and_(c, ta), N.and_(N.not_(c), tb))

    # -------------------------------------------------------------- blocks
    def exec_block(self, stmts, fr, st):
        """Execute; returns True when execution can continue past the block."""
        for s in stmts:
            if st.facts.bad:
                return False
            try:
                if not self.exec_stmt(s, fr, st):
                    return False
            except Dead:
                return False
        return True

    def exit(self, fr, kind, value, st, node, msg=None):
        fr.exits.append(Exit(kind, value, st, node, fr.module, msg))

    def exec_stmt(self, s, fr, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'{loc(fr.module, s)} {type(s).__name__}')
        return m(s, fr, st)

    def s_Pass(self, s, fr, st):
        return True

    def s_Expr(self, s, fr, st):
        if isinstance(s.value, ast.Constant):
            return True
        self.eval(s.value, fr, st)
        return True

    def s_Assign(self, s, fr, st):
        v = self.eval(s.value, fr, st)
        if self.opts.get('limit') and isinstance(s.value, ast.Constant) \
                and type(s.value.value) is int and s.value.value >= 20:
            v = N.const(self.opts['limit'])     # iteration limits
        for t in s.targets:
            self.assign(t, v, fr, st)
        return True

    def s_AnnAssign(self, s, fr, st):
        if s.value is not None:
            v = self.eval(s.value, fr, st)
            self.assign(s.target, v, fr, st)
        return True

    def s_AugAssign(self, s, fr, st):
        cur = self.eval(_as_load(s.target), fr, st)
        v = self.eval(s.value, fr, st)
        if isinstance(cur, Ref):
            o = self.h(st, cur)
            if isinstance(o, HList) and isinstance(s.op, ast.Add):
                self.list_extend(cur, v, fr, st, s)
                return True
            if isinstance(o, HArr):
                new = self.binop(s.op, cur, v, fr, st, s)
                if isinstance(new, Ref):
                    self.hook('mutate', cur, s, fr, st)
                    st.heap[cur.id] = self.h(st, new)
                    return True
        self.assign(s.target, self.binop(s.op, cur, v, fr, st, s), fr, st)
        return True

    def s_Return(self, s, fr, st):
        v = self.eval(s.value, fr, st) if s.value is not None else None
        self.exit(fr, 'return', v, st, s)
        return False

    def s_Raise(self, s, fr, st):
        name, msg = 'Exception', None
        if s.exc is None:
            name = fr.__dict__.get('handling', 'Exception')
        else:
            e = s.exc
            if isinstance(e, ast.Call):
                f = self.eval(e.func, fr, st)
                name = exc_name(f)
                for a in e.args:
                    msg = self.eval(a, fr, st)
            else:
                v = self.eval(e, fr, st)
                name = exc_name(v)
                if isinstance(v, Node) and v.op == 'call' and str(
                        v.args[0]).startswith('exc:'):
                    name = v.args[0][4:]
        self.exit(fr, 'raise', name, st, s, msg)
        return False

    def s_Assert(self, s, fr, st):
        c = self.cond(s.test, fr, st)
        d = st.facts.decide(c) if isinstance(c, Node) else c
        if d is True:
            return True
        if d is False:
            self.exit(fr, 'raise', 'AssertionError', st, s)
            return False
        bad = st.fork(c, False)
        if bad is not None:
            self.exit(fr, 'raise', 'AssertionError', bad, s)
        good = st.fork(c, True)
        if good is None:
            return False
        st.become(good)
        return True

    def s_Delete(self, s, fr, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.frames[fr.fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr, st)
                if isinstance(o, Ref):
                    self.hook('mutate', o, s, fr, st)
                    h = self.h(st, o)
                    if isinstance(h, HList):
                        st.heap[o.id] = HList(None, h.kind)
        return True

    def s_Global(self, s, fr, st):
        fr.globals_decl |= set(s.names)
        return True

    def s_Nonlocal(self, s, fr, st):
        fr.nonlocal_decl |= set(s.names)
        return True

    def s_If(self, s, fr, st):
        c = self.cond(s.test, fr, st)
        d = st.facts.decide(c) if isinstance(c, Node) else c
        if d is True:
            return self.exec_block(s.body, fr, st)
        if d is False:
            return self.exec_block(s.orelse, fr, st)
        outs = []
        g0, n0 = st.guard, len(fr.exits)
        for truth, body in ((True, s.body), (False, s.orelse)):
            b = st.fork(c, truth)
            if b is None:
                continue
            if self.exec_block(body, fr, b):
                outs.append(b)
        if not outs:
            return False
        m = self.merge_states(outs)
        left = [x for x in fr.exits[n0:] if x.kind == 'return']
        if len(outs) > 1 and left:
            # the rest is for what has not returned here
            g = m.guard
            for x in left:
                t = True
                for q, v in x.st.guard[len(g0):]:
                    q = q if v else N.not_(q)
                    t = q if t is True else N.and_(t, q)
                if not isinstance(t, Node):
                    continue
                x.st.guard = g + ((t, True),)
                g += ((t, False),)
                m.facts.assume(t, False)
            m.guard = g
        st.become(m)
        return True

    def cond(self, e, fr, st):
        c = self.truth(self.eval(e, fr, st), st)
        self.note_cond(c, e)
        return c

    def s_For(self, s, fr, st):
        it = self.eval(s.iter, fr, st)
        return self.for_over(s, fr, st, it)

    def for_over(self, s, fr, st, it):
        items = self.iterate(it, fr, st, s)
        if items is None and isinstance(it, Node) and it.op == 'ite' and all(
                isinstance(x, (Ref, tuple, Iter)) or (
                    isinstance(x, Node) and x.op == 'ite')
                for x in it.args[1:]):
            # one of two collections: go over each in its case
            c = it.args[0]
            d = st.facts.decide(c)
            if d is not None:
                return self.for_over(s, fr, st, it.args[1 if d else 2])
            outs = []
            for truth in (True, False):
                b = st.fork(c, truth)
                if b is not None and self.for_over(
                        s, fr, b, it.args[1 if truth else 2]):
                    outs.append(b)
            if not outs:
                return False
            st.become(self.merge_states(outs))
            return True
        if items is None:
            return self.havoc_loop(s, fr, st, it)
        return self.run_loop(s, fr, st, items)

    def run_loop(self, s, fr, st, items):
        after = []      # states leaving by break
        cur = st
        alive = True
        items = list(items)
        few = len(items)
        if few > LONG and isinstance(items[0], (Node, int)):
            if self.opts.get('induct'):
                from .induct import loop
                return loop(self, s, fr, st, s.target)
            few = self.opts.get('passes', few)
        for i, v in enumerate(items):
            if i == few:
                # only histories with few passes are looked at
                self.cuts.append(cur.guard)
                alive = False
                break
            fr.loops.append(([], []))
            self.assign(s.target, v, fr, cur)
            ok = self.exec_block(s.body, fr, cur)
            br, co = fr.loops.pop()
            outs = ([cur] if ok else []) + co
            after += br
            if not outs:
                alive = False
                break
            if len(outs) == 1 and ok:
                continue
            cur = self.merge_states(outs).copy()
        res = []
        if alive:
            if s.orelse:
                if self.exec_block(s.orelse, fr, cur):
                    res.append(cur)
            else:
                res.append(cur)
        res += after
        if not res:
            return False
        m = self.merge_states(res)
        st.become(m)
        return True

    def s_Break(self, s, fr, st):
        if fr.loops:
            fr.loops[-1][0].append(st.copy())
        return False

    def s_Continue(self, s, fr, st):
        if fr.loops:
            fr.loops[-1][1].append(st.copy())
        return False

    def s_While(self, s, fr, st):
        if self.opts.get('induct'):
            from .induct import loop
            return loop(self, s, fr, st)
        cur = st
        after = []
        passes = 0
        for i in range(UNROLL):
            c = self.cond(s.test, fr, cur)
            d = cur.facts.decide(c) if isinstance(c, Node) else c
            if d is None and self.opts.get('passes') is not None:
                # only histories with few passes are looked at
                out = cur.fork(c, False)
                if out is not None:
                    after.append(out)
                nxt = cur.fork(c, True) if passes < self.opts['passes'] \
                    else None
                passes += 1
                if nxt is None:
                    self.cuts.append(cur.guard + ((c, True),))
                    if not after:
                        return False
                    st.become(self.merge_states(after))
                    return True
                cur = nxt
                d = True
            if d is None:
                st.become(cur)
                if not self.havoc_loop(s, fr, st, None) and not after:
                    return False
                if after:
                    st.become(self.merge_states([st.copy()] + after))
                return True
            if d is False:
                if s.orelse and not self.exec_block(s.orelse, fr, cur):
                    if not after:
                        return False
                    st.become(self.merge_states(after))
                    return True
                st.become(self.merge_states([cur.copy()] + after))
                return True
            fr.loops.append(([], []))
            ok = self.exec_block(s.body, fr, cur)
            br, co = fr.loops.pop()
            outs = ([cur] if ok else []) + co
            after += br
            if not outs:
                if not after:
                    return False
                st.become(self.merge_states(after))
                return True
            if not (len(outs) == 1 and ok):
                cur = self.merge_states(outs).copy()
        st.become(cur)
        return self.havoc_loop(s, fr, st, None)

    def havoc_loop(self, s, fr, st, it):
        """Loop with unknown trip count: analyse the body once on havocked
        variables; everything it assigns is unknown afterwards."""
        names = assigned_names(s)
        seed = []
        if it is not None:
            seed.append(self.freeze(it, st))
        env = st.frames[fr.fid]
        pre_heap = dict(st.heap)
        body = st.copy()
        for n in names:
            old = env.get(n, UNDEF)
            body.frames[fr.fid][n] = self.havoc_value(n, old, body, seed)
        g = N.fresh('loop', *[x for x in seed if isinstance(x, (Node, tuple))])
        cond = N.mk('truth', g)
        body = body.fork(cond, True) or body
        fr.loops.append(([], []))
        if isinstance(s, ast.For):
            el = N.mk('item', seed[0] if isinstance(seed[0], Node)
                      else N.call('iter', seed[0]), '*')
            if self.opts.get('elem_hook'):
                el = self.opts['elem_hook'](self, it, el, fr, body) or el
            try:
                self.assign(s.target, el, fr, body)
            except Unsupported:
                pass
        else:
            try:
                c = self.cond(s.test, fr, body)
                if isinstance(c, Node):
                    f2 = body.fork(c, True)
                    if f2 is not None:
                        body = f2
            except Dead:
                pass
        ok = self.exec_block(s.body, fr, body)
        br, co = fr.loops.pop()
        ends = ([body] if ok else []) + co + br
        if not ends:
            # body always leaves the function: the loop may run zero times
            st.guard = st.guard + ((cond, False),)
            return True
        m = self.merge_states(ends)
        # values after the loop
        menv = m.frames[fr.fid]
        for n in names:
            old = env.get(n, UNDEF)
            new = menv.get(n, UNDEF)
            if isinstance(new, Ref) and not isinstance(old, Ref):
                st.heap[new.id] = self.h(m, new)
            env[n] = self.havoc_after(n, old, new, st, seed)
        # heap cells changed by the body: unknown content
        for k, v in m.heap.items():
            if k in pre_heap and pre_heap[k] is not v:
                st.heap[k] = self.havoc_heap(pre_heap[k], v, k)
            elif k not in pre_heap:
                st.heap[k] = v
        for k, v in m.glob.items():
            if st.glob.get(k) is not v:
                st.glob[k] = v
        if s.orelse:
            return self.exec_block(s.orelse, fr, st)
        if isinstance(s, ast.While):
            try:
                c = self.cond(s.test, fr, st)
                d = st.facts.decide(c) if isinstance(c, Node) else c
                if d is None and not br:
                    st.facts.assume(c, False)
                elif d is True and not br:
                    return False
            except Dead:
                return False
        return True

    def havoc_value(self, n, old, st, seed):
        if isinstance(old, Ref):
            o = self.h(st, old)
            if isinstance(o, HList):
                st.heap[old.id] = HList(None, o.kind, N.fresh(n))
            return old
        if isinstance(old, (Func, Cls, Ext, Mod)):
            return old
        d = [x for x in seed if isinstance(x, (Node, tuple))]
        if isinstance(old, (Node, tuple)):
            d.append(old)
        return N.fresh(n, *d)

    def havoc_after(self, n, old, new, st, seed):
        if N.same(old, new) and old is not UNDEF:
            return old
        if isinstance(new, Ref) and isinstance(old, Ref) and old == new:
            return old
        d = [x for x in seed if isinstance(x, (Node, tuple))]
        for x in (old, new):
            if isinstance(x, (Node, tuple)):
                d.append(x)
            elif isinstance(x, Ref):
                d.append(self.freeze(x, st))
        if isinstance(new, Ref) and not isinstance(old, Ref):
            return new
        return N.fresh(n + "'", *[x for x in d
                                  if isinstance(x, (Node, tuple))])

    def havoc_heap(self, old, new, k):
        if isinstance(old, HList):
            d = []
            for o in (old, new):
                if isinstance(o, HList) and isinstance(o.items, (tuple, Node)):
                    d.append(o.items)
                if isinstance(getattr(o, 'tag', None), Node):
                    d.append(o.tag)
            return HList(None, old.kind, N.fresh(
                f'list{k}', *[self._nodeonly(x) for x in d]))
        if isinstance(old, HArr):
            d = []
            for o in (old, new):
                if isinstance(o, HArr):
                    for x in (o.elem, o.items, o.tag):
                        if isinstance(x, (Node, tuple)):
                            d.append(self._nodeonly(x))
            return HArr(N.fresh(f'arr{k}', *d), None, old.dtype)
        if isinstance(old, HInst) and isinstance(new, HInst):
            f = dict(old.fields)
            for a, v in new.fields.items():
                if a not in f or not N.same(f[a], v):
                    d = [x for x in (f.get(a), v)
                         if isinstance(x, (Node, tuple))]
                    f[a] = v if isinstance(v, Ref) and (
                        a not in f or f[a] == v) else N.fresh(a, *[
                            self._nodeonly(x) for x in d])
            return HInst(old.cls, f, old.lazy)
        if isinstance(old, HDict) and isinstance(new, HDict):
            it = dict(old.items)
            it.update(new.items)
            return HDict(it, old.tag, True)
        return new

    def _nodeonly(self, x):
        if isinstance(x, tuple):
            return tuple(self._nodeonly(y) for y in x
                         if isinstance(y, (Node, tuple)))
        return x

    def s_Try(self, s, fr, st):
        saved = fr.exits
        fr.exits = []
        ok = self.exec_block(s.body, fr, st)
        caught = fr.exits
        fr.exits = saved
        outs = []
        if ok:
            if not s.orelse or self.exec_block(s.orelse, fr, st):
                outs.append(st.copy())
        for e in caught:
            if e.kind != 'raise':
                fr.exits.append(e)
                continue
            handled = False
            for h in s.handlers:
                names = None
                if h.type is not None:
                    t = self.eval(h.type, fr, e.st)
                    ts = t if isinstance(t, tuple) else (t,)
                    names = [exc_name(x) for x in ts]
                if names is None or any(exc_match(e.value, n) for n in names):
                    b = e.st.copy()
                    old = fr.__dict__.get('handling')
                    fr.handling = e.value
                    if h.name:
                        b.frames[fr.fid][h.name] = N.call('exc:' + e.value)
                    if self.exec_block(h.body, fr, b):
                        outs.append(b)
                    fr.handling = old
                    handled = True
                    break
            if not handled:
                fr.exits.append(e)
        if s.finalbody:
            exits = fr.exits
            pend = [e for e in exits if e not in saved]
            fr.exits = list(saved) if False else saved
            # run the finally block on every leaving state
            keep = []
            for e in pend:
                if self.exec_block(s.finalbody, fr, e.st):
                    keep.append(e)
            fr.exits[:] = [e for e in fr.exits if e not in pend] + keep
            outs = [o for o in outs if self.exec_block(s.finalbody, fr, o)]
        if not outs:
            return False
        st.become(self.merge_states(outs))
        return True

    def s_With(self, s, fr, st):
        for i in s.items:
            v = self.eval(i.context_expr, fr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, N.call(
                    'enter', self.freeze(v, st)), fr, st)
        return self.exec_block(s.body, fr, st)

    def s_Import(self, s, fr, st):
        for a in s.names:
            if a.asname:
                v = self.import_mod(a.name)
                st.frames[fr.fid][a.asname] = v
            else:
                top = a.name.split('.')[0]
                st.frames[fr.fid][top] = self.import_mod(top)
        return True

    def import_mod(self, name):
        if name in self.repo.modules:
            self.module(name)
            return Mod(self.repo.modules[name])
        return Ext(name)

    def s_ImportFrom(self, s, fr, st):
        base = self.repo.resolve_relative(fr.module, s.level, s.module)
        for a in s.names:
            if base in self.repo.modules:
                if a.name == '*':
                    for k, v in self.module(base).items():
                        if not k.startswith('_'):
                            st.frames[fr.fid][k] = v
                    continue
                v = self.mod_get(base, a.name, st)
                if v is UNDEF:
                    v = ext_value(f'{base}.{a.name}')
                    self.notes.append(('unresolved-import',
                                       loc(fr.module, s), a.name))
            else:
                v = ext_value(f'{base}.{a.name}')
            st.frames[fr.fid][a.asname or a.name] = v
        self.sync(st)
        return True

    def s_FunctionDef(self, s, fr, st):
        f = self.make_func(s, fr, st)
        for d in reversed(s.decorator_list):
            f = self.decorate(f, d, fr, st)
        st.frames[fr.fid][s.name] = f
        return True

    def make_func(self, s, fr, st):
        defaults = [self.eval(d, fr, st) for d in s.args.defaults]
        kwd = [None if d is None else self.eval(d, fr, st)
               for d in s.args.kw_defaults]
        clo = fr.fid if fr.func is not None or not (
            isinstance(fr.fid, tuple)) else None
        if clo is not None:
            self.closured = getattr(self, 'closured', set())
            self.closured.add(clo)
        return Func(s, fr.module, clo, defaults, kwd)

    def decorate(self, f, d, fr, st):
        txt = ast.unparse(d)
        if not isinstance(f, Func):
            return f
        f.decorators = f.decorators + (txt,)
        if txt == 'property' or txt.endswith('cached_property'):
            f.kind = 'property'
        elif txt == 'classmethod':
            f.kind = 'classmethod'
        elif txt == 'staticmethod':
            f.kind = 'staticmethod'
        elif txt.endswith('.setter'):
            prop = st.frames[fr.fid].get(txt.split('.')[0])
            if isinstance(prop, Func):
                prop.setter = f
                return prop
        elif txt.split('(')[0].split('.')[0] not in (
                'functools', 'abc', 'abstractmethod', 'typing', 't',
                'staticmethod', 'overload', 'wraps', 'lru_cache', 'cache'):
            return self.apply_decorator(f, d, fr, st)
        return f

    def apply_decorator(self, f, d, fr, st):
        """The function a decorator of the repository puts in place."""
        before = set(st.frames)
        try:
            dec = self.eval(d, fr, st)
            if not isinstance(dec, Func):
                return f
            w = self.call(dec, [f], {}, fr, st, d)
        except Dead:
            return f
        if not isinstance(w, Func):
            return f
        for k in set(st.frames) - before:
            self.base_frames[k] = st.frames[k]
        w.wraps = f
        w.kind, w.cls = f.kind, f.cls
        w.decorators = f.decorators
        w.name = f.name
        return w

    def s_ClassDef(self, s, fr, st):
        bases = [self.eval(b, fr, st) for b in s.bases]
        _fid[0] += 1
        fid = ('cls', _fid[0])
        st.frames[fid] = {}
        cf = Frame(fid, fr.module, None, fr.depth)
        cf.outer = fr
        self.exec_block(s.body, cf, st)
        ns = st.frames.pop(fid)
        c = Cls(s.name, fr.module, s, bases, ns)
        for v in ns.values():
            if isinstance(v, Func) and v.cls is None:
                v.cls = c
                if isinstance(v.closure, tuple):
                    v.closure = None
                w = getattr(v, 'wraps', None)
                while w is not None:
                    w.cls = w.cls or c
                    if isinstance(w.closure, tuple):
                        w.closure = None
                    w = getattr(w, 'wraps', None)
                if v.setter is not None:
                    v.setter.cls = c
        for d in s.decorator_list:
            if 'dataclass' in ast.unparse(d):
                c.dataclass = True
        order = []
        for b in reversed(c.mro):
            if isinstance(b, Cls):
                for x in b.node.body:
                    if isinstance(x, ast.AnnAssign) and isinstance(
                            x.target, ast.Name):
                        if x.target.id not in order:
                            order.append(x.target.id)
        c.fields_order = order
        st.frames[fr.fid][s.name] = c
        return True

    def hook(self, name, *args):
        f = self.hooks.get(name)
        if f is not None:
            return f(self, *args)
        return None

    # -------------------------------------------------------------- assign
    def assign(self, t, v, fr, st):
        if isinstance(t, ast.Name):
            if t.id in fr.globals_decl:
                self.hook('global_write', fr.module.name, t.id, t, fr, st)
                st.glob[(fr.module.name, t.id)] = v
            elif t.id in fr.nonlocal_decl:
                c = fr.func.closure if fr.func is not None else None
                if c is not None and c in st.frames:
                    st.frames[c][t.id] = v
            else:
                st.frames[fr.fid][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, fr, st)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr, st)
            self.setattr(o, t.attr, v, fr, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr, st)
            k = self.eval(t.slice, fr, st)
            self.setitem(o, k, v, fr, st, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr, st)
        else:
            raise Unsupported(type(t).__name__)

    def unpack(self, t, v, fr, st):
        n = len(t.elts)
        if isinstance(v, Ref):
            o = self.h(st, v)
            if isinstance(o, HList) and isinstance(o.items, tuple):
                v = o.items
            elif isinstance(o, HArr) and o.items is not None:
                v = o.items
        if isinstance(v, Node) and v.op == 'ite' and _structured(v):
            def go(s, truth):
                w = v.args[1] if truth else v.args[2]
                self.unpack(t, w, fr, s)
            self.split(fr, st, v.args[0], go)
            return
        if isinstance(v, Iter):
            v = tuple(v.items)
        if isinstance(v, Node):
            r = self.hook('node_iter', v, st)
            if r is not None:
                v = tuple(r)
        star = [i for i, e in enumerate(t.elts)
                if isinstance(e, ast.Starred)]
        if isinstance(v, tuple) and len(v) == n and not star:
            for e, x in zip(t.elts, v):
                self.assign(e, x, fr, st)
            return
        if isinstance(v, tuple) and len(star) == 1 and len(v) >= n - 1:
            i, k = star[0], len(v) - (n - 1)
            for e, x in zip(t.elts[:i], v[:i]):
                self.assign(e, x, fr, st)
            self.assign(t.elts[i].value, self.alloc(
                st, HList(tuple(v[i:i + k]))), fr, st)
            for e, x in zip(t.elts[i + 1:], v[i + k:]):
                self.assign(e, x, fr, st)
            return
        src = self.freeze(v, st)
        for i, e in enumerate(t.elts):
            self.assign(e, N.mk('item', src, N.const(i)), fr, st)

    def setattr(self, o, name, v, fr, st, node):
        if isinstance(o, Ref):
            h = self.h(st, o)
            if isinstance(h, HInst):
                p, _ = h.cls.lookup(name)
                if isinstance(p, Func) and p.kind == 'property':
                    if p.setter is not None:
                        self.call_func(p.setter, [o, v], {}, fr, st, node)
                        return
                    self.exit(fr, 'raise', 'AttributeError', st.copy(), node)
                    raise Dead
                self.hook('setattr', o, name, v, node, fr, st)
                f = dict(h.fields)
                f[name] = v
                st.heap[o.id] = HInst(h.cls, f, h.lazy)
                return
            if isinstance(h, HIte):
                def go(s, truth):
                    s.heap[o.id] = h.a if truth else h.b
                    self.setattr(o, name, v, fr, s, node)
                self.split(fr, st, h.cond, go)
                return
        if isinstance(o, Cls):
            self.hook('global_write', o.name, name, node, fr, st)
            st.glob[(o, name)] = v
            return
        if isinstance(o, Node):
            if o.op == 'ite' and _structured(o):
                self.split(fr, st, o.args[0], lambda s, tr: self.setattr(
                    o.args[1] if tr else o.args[2], name, v, fr, s, node))
                return
            self.hook('setattr', o, name, v, node, fr, st)
            st.glob[('@attr', o, name)] = v
            return
        if isinstance(o, Mod):
            st.glob[(o.module.name, name)] = v
            return
        raise Unsupported(f'{loc(fr.module, node)}: setattr on {o!r}')

    def setitem(self, o, k, v, fr, st, node):
        if isinstance(o, Node) and o.op == 'ite' and _structured(o):
            self.split(fr, st, o.args[0], lambda s, tr: self.setitem(
                o.args[1] if tr else o.args[2], k, v, fr, s, node))
            return
        if not isinstance(o, Ref):
            self.hook('mutate', o, node, fr, st)
            return
        self.hook('mutate', o, node, fr, st)
        h = self.h(st, o)
        if isinstance(h, HIte):
            def go(s, truth):
                s.heap[o.id] = h.a if truth else h.b
                self.setitem(o, k, v, fr, s, node)
            self.split(fr, st, h.cond, go)
            return
        if isinstance(h, HList):
            i = as_int(k)
            if isinstance(h.items, tuple) and i is not None and (
                    -len(h.items) <= i < len(h.items)):
                it = list(h.items)
                it[i] = v
                st.heap[o.id] = HList(tuple(it), h.kind, h.tag)
            else:
                st.heap[o.id] = HList(None, h.kind, N.fresh(
                    'list', *[x for x in (self.freeze(v, st),
                                          self.freeze(k, st), h.tag,
                                          h.items)
                              if isinstance(x, (Node, tuple))]))
        elif isinstance(h, HDict):
            if self.hashkey(k, st):
                it = dict(h.items)
                it[_dkey(k)] = v
                st.heap[o.id] = HDict(it, h.tag, h.open)
            else:
                st.heap[o.id] = HDict(dict(h.items), h.tag, True)
        elif isinstance(h, HArr):
            i = as_int(k)
            if h.items is not None and mat.is2d(h):
                x, y = mat.nd(self, o, st), mat.nd(self, v, st)
                r = None
                if x is not None and y is not None and len(x[0]) == 2:
                    r = mat.store(x, k, y)
                if r is not None:
                    t = mat.make(self, st, *r)
                    st.heap[o.id] = self.h(st, t)
                    return
            if h.items is not None and i is not None and (
                    -len(h.items) <= i < len(h.items)):
                it = list(h.items)
                if h.dtype == 'int' and isinstance(v, Node):
                    v = self.int_store(v, fr, st, node)
                it[i] = v
                st.heap[o.id] = HArr(None, tuple(it), h.dtype, h.tag)
                return
            if h.elem is not None:
                m = self.mask_of(k, st)
                val = self.elem_of(v, st)
                if h.dtype == 'int':
                    val = self.int_store(val, fr, st, node)
                if m is not None and val is not None:
                    m = st.facts.decide(m) if isinstance(
                        m, Node) and st.facts.decide(m) is not None else m
                    st.heap[o.id] = HArr(join_val(m, val, h.elem) if
                                         isinstance(m, Node) else
                                         (val if m else h.elem), None,
                                         h.dtype, h.tag)
                    return
            d = [x for x in (h.elem, self.freeze(k, st), self.freeze(v, st))
                 if isinstance(x, (Node, tuple))]
            if h.items is not None:
                d.append(h.items)
            st.heap[o.id] = HArr(N.fresh('arr', *[self._nodeonly(x)
                                                  for x in d]),
                                 None, h.dtype, h.tag)
        elif isinstance(h, HInst):
            f, _ = h.cls.lookup('__setitem__')
            if isinstance(f, Func):
                self.call_func(f, [o, k, v], {}, fr, st, node)

    def int_store(self, val, fr, st, node):
        """Storing into an integer array truncates non-integers."""
        if isinstance(val, Node) and val.op == 'const' and isinstance(
                N.cval(val), type(N.cval(N.ONE))) and N.cval(
                    val).denominator == 1:
            return val
        return N.call('trunc', val if isinstance(val, Node) else N.ZERO)

    def mask_of(self, k, st):
        if isinstance(k, Ref):
            o = self.h(st, k)
            if isinstance(o, HArr) and o.elem is not None:
                return self.truth(o.elem, st)
        if isinstance(k, bool):
            return k
        return None

    def elem_of(self, v, st):
        if isinstance(v, Ref):
            o = self.h(st, v)
            if isinstance(o, HArr):
                if o.elem is not None:
                    return o.elem
                if o.items is not None and len(o.items) == 1:
                    return o.items[0]
            return None
        if isinstance(v, (Node, bool)):
            return v
        return None

    # -------------------------------------------------------------- eval
    def eval(self, e, fr, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'{loc(fr.module, e)} {type(e).__name__}')
        return m(e, fr, st)

    def e_Constant(self, e, fr, st):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
            return v
        if isinstance(v, (int, float)):
            return N.const(v)
        return v if v is not Ellipsis else Ext('...')

    def e_Name(self, e, fr, st):
        return self.lookup(e.id, fr, st, e)

    def lookup(self, name, fr, st, node=None):
        env = st.frames.get(fr.fid, {})
        if name in env and name not in fr.globals_decl:
            v = env[name]
            if isinstance(v, Node) and v.op == 'maybe_undef':
                c, a, b = v.args
                self.hook('maybe_undef', name, node, fr, st, v)
                if a == 'UNDEF' or b == 'UNDEF':
                    good = b if a == 'UNDEF' else a
                    truth = a != 'UNDEF'
                    d = st.facts.decide(c)
                    if d is None:
                        bad = st.fork(c, not truth)
                        if bad is not None and good != 'UNDEF':
                            self.exit(fr, 'raise', 'UnboundLocalError', bad,
                                      node, name)
                        if good != 'UNDEF' and not st.facts.assume(c, truth):
                            raise Dead
                    elif d != truth:
                        self.exit(fr, 'raise', 'UnboundLocalError', st.copy(),
                                  node, name)
                        raise Dead
                    env[name] = good
                    return self.lookup(name, fr, st, node)
            if v is not UNDEF:
                return v
        c = fr.func.closure if fr.func is not None else None
        seen = 0
        while c is not None and seen < 10:
            seen += 1
            if c in st.frames and name in st.frames[c]:
                return st.frames[c][name]
            if c in self.base_frames and name in self.base_frames[c]:
                return self.base_frames[c][name]
            c = self.frame_closure.get(c) if hasattr(
                self, 'frame_closure') else None
        outer = getattr(fr, 'outer', None)
        if outer is not None:
            r = st.frames.get(outer.fid, {}).get(name, UNDEF)
            if r is not UNDEF:
                return r
        key = (fr.module.name, name)
        if key in st.glob:
            return st.glob[key]
        if fr.module.name in self.modcache or True:
            ns = self.module(fr.module.name)
            if name in ns:
                self.sync(st)
                return ns[name]
            ld = self.modloading.get(fr.module.name)
            if ld is not None:
                ns = ld.frames[('mod', fr.module.name)]
                if name in ns:
                    return ns[name]
        if hasattr(builtins, name):
            return Ext('builtins.' + name)
        self.exit(fr, 'raise', 'NameError', st.copy(), node, name)
        raise Dead

    def e_Tuple(self, e, fr, st):
        return tuple(self.eval_elts(e.elts, fr, st))

    def eval_elts(self, elts, fr, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr, st)
                items = self.iterate(v, fr, st, x)
                if items is None:
                    raise Unsupported('star of unknown length')
                out += items
            else:
                out.append(self.eval(x, fr, st))
        return out

    def e_List(self, e, fr, st):
        return self.alloc(st, HList(tuple(self.eval_elts(e.elts, fr, st))))

    def e_Set(self, e, fr, st):
        return self.alloc(st, HList(tuple(self.eval_elts(e.elts, fr, st)),
                                    'set'))

    def e_Dict(self, e, fr, st):
        d = {}
        open_ = False
        for k, v in zip(e.keys, e.values):
            vv = self.eval(v, fr, st)
            if k is None:
                o = self.h(st, vv) if isinstance(vv, Ref) else None
                if isinstance(o, HDict):
                    d.update(o.items)
                    open_ |= o.open
                else:
                    open_ = True
                continue
            kk = self.eval(k, fr, st)
            try:
                if not self.hashkey(kk, st):
                    raise TypeError
                d[_dkey(kk)] = vv
            except TypeError:
                open_ = True
        return self.alloc(st, HDict(d, None, open_))

    def e_JoinedStr(self, e, fr, st):
        parts = []
        ok = True
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
                continue
            x = self.eval(v.value, fr, st)
            spec = ast.unparse(v.format_spec)[2:-1] if v.format_spec else ''
            if isinstance(x, str) and not spec:
                parts.append(x)
                continue
            if N.is_const(x) and spec[-1:] in tuple('eEfFgG%') and spec:
                try:
                    parts.append(format(float(x.args[0]), spec))
                    continue
                except (TypeError, ValueError, OverflowError):
                    pass
            if N.is_const(x) and float(x.args[0]).is_integer() and (
                    spec[-1:] == 'd' or not spec and isinstance(
                        v.value, ast.Call) and isinstance(
                        v.value.func, ast.Name) and v.value.func.id in (
                        'int', 'round', 'len')):
                parts.append(format(int(x.args[0]), spec))
                continue
            if N.is_const(x) and not spec and self.opts.get('numbers') and (
                    float(x.args[0]).is_integer()):
                parts.append(str(self.opts['numbers'](x.args[0])))
                continue
            ok = False
            fx = self.freeze(x, st)
            fx = fx if isinstance(fx, (Node, tuple)) else repr(fx)
            parts.append(('fmt', fx, spec))
        if ok:
            return ''.join(parts)
        return N.call('fstr', *parts)

    def e_FormattedValue(self, e, fr, st):
        return self.eval(e.value, fr, st)

    def e_Lambda(self, e, fr, st):
        self.closured = getattr(self, 'closured', set())
        self.closured.add(fr.fid)
        f = Func(e, fr.module, fr.fid, [self.eval(d, fr, st)
                                        for d in e.args.defaults],
                 [None if d is None else self.eval(d, fr, st)
                  for d in e.args.kw_defaults])
        return f

    def e_NamedExpr(self, e, fr, st):
        v = self.eval(e.value, fr, st)
        self.assign(e.target, v, fr, st)
        return v

    def e_IfExp(self, e, fr, st):
        c = self.cond(e.test, fr, st)
        return self.split(fr, st, c, lambda s, t: self.eval(
            e.body if t else e.orelse, fr, s))

    def e_BoolOp(self, e, fr, st):
        return self._boolop(e, 0, fr, st)

    def _boolop(self, e, i, fr, st):
        v = self.eval(e.values[i], fr, st)
        if i == len(e.values) - 1:
            return v
        t = self.truth(v, st)
        isand = isinstance(e.op, ast.And)
        d = st.facts.decide(t) if isinstance(t, Node) else t
        if d is not None:
            if d == isand:
                return self._boolop(e, i + 1, fr, st)
            return v
        isb = isinstance(v, Node) and (t is v)

        def go(s, truth):
            if truth == isand:
                return self._boolop(e, i + 1, fr, s)
            return (truth if isb else v)
        n0 = len(fr.exits)
        s0 = st.copy()
        r = self.split(fr, st, t, go)
        if (isb and isinstance(r, (Node, bool)) and len(fr.exits) == n0):
            # boolean connective: rebuild without gating for readability
            s1 = s0.fork(t, isand)
            if s1 is not None:
                try:
                    rest = self._boolop(e, i + 1, fr, s1)
                except Dead:
                    return r
                rt = self.truth(rest, s1)
                if isinstance(rest, bool) or (isinstance(rest, Node)
                                              and rt is rest):
                    return (N.and_(t, rt) if isand else N.or_(t, rt))
        return r

    def e_UnaryOp(self, e, fr, st):
        v = self.eval(e.operand, fr, st)
        if isinstance(e.op, ast.Not):
            t = self.truth(v, st)
            return N.not_(t)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.USub):
            return self.map1(v, lambda x: N.neg(_n(x)), fr, st)
        if isinstance(e.op, ast.Invert):
            return self.map1(v, lambda x: N.not_(self.truth(x, st)), fr, st)
        raise Unsupported('unary')

    def map1(self, v, f, fr, st):
        if isinstance(v, Ref):
            o = self.h(st, v)
            if isinstance(o, HArr):
                if o.items is not None:
                    return self.alloc(st, HArr(None, tuple(
                        f(x) for x in o.items), o.dtype))
                return self.alloc(st, HArr(f(o.elem), None, o.dtype))
            return f(self.freeze(v, st))
        if isinstance(v, Node) and v.op == 'ite' and _structured(v):
            c, a, b = v.args
            return self.split(fr, st, c, lambda s, t: self.map1(
                a if t else b, f, fr, s))
        return f(v)

    def e_BinOp(self, e, fr, st):
        a = self.eval(e.left, fr, st)
        b = self.eval(e.right, fr, st)
        return self.binop(e.op, a, b, fr, st, e)

    def binop(self, op, a, b, fr, st, node):
        for x, y, sw in ((a, b, 0), (b, a, 1)):
            if isinstance(x, Node) and x.op == 'ite' and _structured(x):
                c, p, q = x.args
                return self.split(fr, st, c, lambda s, t: self.binop(
                    op, *((p if t else q, y) if not sw
                          else (y, p if t else q)), fr, s, node))
        name = type(op).__name__
        if isinstance(a, Node) and a.op == 'geo' or (
                isinstance(b, Node) and b.op == 'geo'):
            r = self.hook('node_binop', name, a, b, node, fr, st)
            if r is not None:
                return r
        # strings / lists / tuples
        if isinstance(a, str) or isinstance(b, str):
            if name == 'Add' and isinstance(a, str) and isinstance(b, str):
                return a + b
            return N.call('strop', name, *[x if isinstance(
                x, (Node, str, tuple)) else repr(x) for x in (a, b)])
        if name == 'Add' and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, tuple) and isinstance(b, Node):
            if name == 'Mult' and as_int(b) is not None:
                return a * as_int(b)
        ra = self.h(st, a) if isinstance(a, Ref) else None
        rb = self.h(st, b) if isinstance(b, Ref) else None
        for r, o, isleft in ((ra, b, True), (rb, a, False)):
            if isinstance(r, HIte):
                ref = a if isleft else b
                def go(s, truth, r=r, ref=ref):
                    s.heap[ref.id] = r.a if truth else r.b
                    return self.binop(op, a, b, fr, s, node)
                return self.split(fr, st, r.cond, go)
        if isinstance(ra, HList) and not isinstance(rb, HArr):
            if name == 'Add' and isinstance(rb, HList) and isinstance(
                    ra.items, tuple) and isinstance(rb.items, tuple):
                return self.alloc(st, HList(ra.items + rb.items))
            if name == 'Mult' and as_int(b) is not None and isinstance(
                    ra.items, tuple):
                return self.alloc(st, HList(ra.items * as_int(b)))
            if name in ('BitOr', 'BitAnd', 'Sub') and ra.kind == 'set':
                return self.alloc(st, HList(None, 'set'))
        for r, other, x in ((ra, rb, b), (rb, ra, a)):
            if isinstance(r, HList) and r.tag == 'elementwise' and (
                    name in ('Add', 'Sub', 'Mult', 'Div', 'Pow')) and (
                    isinstance(other, HList) or isinstance(x, Node)
                    and not any(y.op in ('call', 'pow')
                                for y in N.walk(x))):
                # a list is no operand (an operand computed with numpy
                # would turn it into an array)
                self.exit(fr, 'raise', 'TypeError', st.copy(), node)
                raise Dead
        if isinstance(ra, HInst) or isinstance(rb, HInst):
            dn = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__',
                  'Div': '__truediv__'}.get(name)
            if isinstance(ra, HInst) and dn:
                f, _ = ra.cls.lookup(dn)
                if isinstance(f, Func):
                    return self.call_func(f, [a, b], {}, fr, st, node)
            return N.call('op:' + name, self.freeze(a, st),
                          self.freeze(b, st))
        if isinstance(ra, HArr) or isinstance(rb, HArr):
            na, nb = mat.nd(self, a, st), mat.nd(self, b, st)
            if na is not None and nb is not None:
                if name == 'MatMult':
                    r = mat.matmul(na, nb)
                    if r is not None:
                        return mat.make(self, st, *r)
                elif len(na[0]) == 2 or len(nb[0]) == 2:
                    r = mat.zipnd(na, nb, lambda x, y: self.scalar_op(
                        op, self._sc(x, st), self._sc(y, st), fr, st, node))
                    if r is not None:
                        return mat.make(self, st, *r)
            return self.arr_binop(op, a, b, ra, rb, fr, st, node)
        return self.scalar_op(op, self._sc(a, st), self._sc(b, st), fr, st,
                              node)

    def _sc(self, v, st):
        if isinstance(v, (Node, bool)):
            return v
        if isinstance(v, Ref):
            return N.call('obj', self.freeze(v, st))
        if v is None:
            return N.call('none')
        if isinstance(v, tuple):
            return N.call('tuple', self.freeze(v, st))
        if isinstance(v, Ext):
            return N.call('ext', v.path)
        return N.call('val', repr(v))

    def scalar_op(self, op, a, b, fr, st, node):
        name = type(op).__name__
        if name == 'Add':
            return N.add(a, b)
        if name == 'Sub':
            return N.sub(a, b)
        if name == 'Mult':
            return N.mul(a, b)
        if name == 'Div':
            nb = _n(b)
            if _n(a) is N.ABSENT:
                return N.ABSENT
            self.hook('div', _n(a), nb, node, fr, st)
            if nb is N.ZERO:
                self.exit(fr, 'raise', 'ZeroDivisionError', st.copy(), node)
                raise Dead
            return N.div(a, b)
        if name == 'Pow':
            return self.pow(a, b, fr, st, node)
        if name in ('BitAnd', 'BitOr'):
            ta, tb = self.truth(a, st), self.truth(b, st)
            return N.and_(ta, tb) if name == 'BitAnd' else N.or_(ta, tb)
        if name == 'Mod':
            if N.finite(_n(a)) and N.finite(_n(b)) and N.cval(_n(b)) != 0:
                return N.const(N.cval(_n(a)) % N.cval(_n(b)))
            return N.call('mod', _n(a), _n(b))
        if name == 'FloorDiv':
            if N.finite(_n(a)) and N.finite(_n(b)) and N.cval(_n(b)) != 0:
                return N.const(N.cval(_n(a)) // N.cval(_n(b)))
            r = self.hook('ext', 'floor', [N.div(a, b)], {}, node, fr, st)
            return N.call('floor', N.div(a, b)) if r is None else r
        return N.call('op:' + name, _n(a), _n(b))

    def pow(self, a, b, fr, st, node):
        return N.power(a, b)

    def arr_binop(self, op, a, b, ra, rb, fr, st, node):
        def parts(v, r):
            if isinstance(r, HArr):
                return r.items, r.elem, r.dtype
            if isinstance(r, HList) and isinstance(r.items, tuple):
                return r.items, None, 'any'
            if isinstance(v, tuple):
                return v, None, 'any'
            s = self._sc(v, st)
            return None, s, ('int' if isinstance(s, Node) and N.is_const(s)
                             and N.finite(s) and N.cval(s).denominator == 1
                             and False else 'sc')
        ia, ea, da = parts(a, ra)
        ib, eb, db = parts(b, rb)
        name = type(op).__name__
        if da == 'int' and db in ('sc', 'int', 'any'):
            dt = 'int' if db == 'int' and name != 'Div' else 'float'
            if db == 'sc' and N.is_const(eb) and N.finite(eb) and N.cval(
                    eb).denominator == 1 and name != 'Div':
                dt = 'int' if _intlit(node, 1) else 'float'
        elif db == 'int' and da in ('sc', 'any'):
            dt = 'float'
            if da == 'sc' and N.is_const(ea) and N.finite(ea) and N.cval(
                    ea).denominator == 1 and name != 'Div':
                dt = 'int' if _intlit(node, 0) else 'float'
        else:
            dt = 'float'
        f = lambda x, y: self.scalar_op(op, self._sc(x, st), self._sc(y, st),
                                        fr, st, node)
        if ia is not None and ib is not None and len(ia) == len(ib):
            return self.alloc(st, HArr(None, tuple(
                f(x, y) for x, y in zip(ia, ib)), dt))
        if ia is not None and ib is None and eb is not None:
            return self.alloc(st, HArr(None, tuple(f(x, eb) for x in ia), dt))
        if ib is not None and ia is None and ea is not None:
            return self.alloc(st, HArr(None, tuple(f(ea, x) for x in ib), dt))
        if ea is not None and eb is not None:
            return self.alloc(st, HArr(f(ea, eb), None, dt))
        return self.alloc(st, HArr(N.fresh('arr', *[
            self._nodeonly(x) for x in (self.freeze(a, st),
                                        self.freeze(b, st))
            if isinstance(x, (Node, tuple))]), None, dt))

    def e_Compare(self, e, fr, st):
        left = self.eval(e.left, fr, st)
        res = None
        cur = left
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, fr, st)
            r = self.compare(op, cur, right, fr, st, e)
            if res is None:
                res = r
            else:
                res = N.and_(self.truth(res, st), self.truth(r, st))
            if res is False:
                return False
            cur = right
        self.note_cond(res, e)
        return res

    def note_cond(self, c, e):
        if isinstance(c, Node) and 'conds' in self.opts:
            self.opts['conds'].append(c)
        if isinstance(c, Node) and COLLECT is not None:
            at = COLLECT.setdefault(id(e), {})
            if len(at) < 40:
                at[c.id] = c

    def compare(self, op, a, b, fr, st, node):
        name = type(op).__name__
        for x, y, sw in ((a, b, 0), (b, a, 1)):
            if isinstance(x, Node) and x.op == 'ite' and (
                    _structured(x) or y is None or isinstance(y, str)):
                c, p, q = x.args
                return self.split(fr, st, c, lambda s, t: self.compare(
                    op, *((p if t else q, y) if not sw
                          else (y, p if t else q)), fr, s, node))
        if name in ('Is', 'IsNot'):
            r = self.is_(a, b, st)
            return r if name == 'Is' else N.not_(r)
        if name in ('In', 'NotIn'):
            r = self.contains(a, b, fr, st, node)
            return r if name == 'In' else N.not_(r)
        ra = self.h(st, a) if isinstance(a, Ref) else None
        rb = self.h(st, b) if isinstance(b, Ref) else None
        if isinstance(ra, HArr) or isinstance(rb, HArr):
            ea = ra.elem if isinstance(ra, HArr) else self._sc(a, st)
            eb = rb.elem if isinstance(rb, HArr) else self._sc(b, st)
            ia = ra.items if isinstance(ra, HArr) else None
            ib = rb.items if isinstance(rb, HArr) else None
            f = lambda x, y: self.scmp(name, x, y, st)
            if ia is not None and ib is not None and len(ia) == len(ib):
                return self.alloc(st, HArr(None, tuple(
                    f(x, y) for x, y in zip(ia, ib)), 'bool'))
            if ia is not None and eb is not None:
                return self.alloc(st, HArr(None, tuple(f(x, eb) for x in ia),
                                           'bool'))
            if ib is not None and ea is not None:
                return self.alloc(st, HArr(None, tuple(f(ea, x) for x in ib),
                                           'bool'))
            if ea is not None and eb is not None:
                return self.alloc(st, HArr(f(ea, eb), None, 'bool'))
            return self.alloc(st, HArr(N.mk('truth', N.fresh('mask')), None,
                                       'bool'))
        if name in ('Eq', 'NotEq'):
            r = self.eq(a, b, st)
            return r if name == 'Eq' else N.not_(r)
        if isinstance(a, str) and isinstance(b, str):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b,
                    'GtE': a >= b}[name]
        return self.scmp(name, self._sc(a, st), self._sc(b, st), st)

    def scmp(self, name, a, b, st):
        a, b = self._sc(a, st), self._sc(b, st)
        if isinstance(a, bool):
            a = N.const(a)
        if isinstance(b, bool):
            b = N.const(b)
        c = {'Lt': lambda: N.lt(a, b), 'LtE': lambda: N.le(a, b),
             'Gt': lambda: N.lt(b, a), 'GtE': lambda: N.le(b, a),
             'Eq': lambda: N.cmp_('eq', a, b),
             'NotEq': lambda: N.not_(N.cmp_('eq', a, b))}[name]()
        d = st.facts.decide(c)
        return c if d is None else d

    def eq(self, a, b, st):
        if isinstance(a, (str, bool, type(None))) and isinstance(
                b, (str, bool, type(None))):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                r = N.and_(r, self.eq(x, y, st))
            return r
        for x, y in ((a, b), (b, a)):
            if isinstance(y, str):
                if isinstance(x, Node):
                    if x.op in ('const', 'cmp', 'add', 'mul', 'div') or (
                            x.op == 'sym' and x.args[1] in ('num', 'int')):
                        return False
                    return N.mk('streq', x, y)
                return False
            if y is None:
                return self.is_(x, None, st)
        if isinstance(a, Node) or isinstance(b, Node):
            a2, b2 = self._sc(a, st), self._sc(b, st)
            if isinstance(a2, bool):
                a2 = N.const(a2)
            if isinstance(b2, bool):
                b2 = N.const(b2)
            c = N.cmp_('eq', a2, b2)
            d = st.facts.decide(c) if isinstance(c, Node) else c
            return c if d is None else d
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return True
            return N.mk('truth', N.call('eq', self.freeze(a, st),
                                        self.freeze(b, st)))
        return a is b or a == b

    def is_(self, a, b, st):
        if a is None and b is None:
            return True
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        for x, y in ((a, b), (b, a)):
            if y is None:
                if isinstance(x, Node):
                    return self.isnone(x, st)
                return False
        if isinstance(a, Node) and isinstance(b, bool):
            t = self.truth(a, st)
            if isinstance(t, Node) and t is a:
                return t if b else N.not_(t)
            return N.mk('truth', N.call('is', a, b))
        if isinstance(a, Ref) or isinstance(b, Ref):
            return isinstance(a, Ref) and isinstance(b, Ref) and a == b
        if isinstance(a, Node) or isinstance(b, Node):
            if a is b:
                return True
            return N.mk('truth', N.call('is', *[x if isinstance(
                x, (Node, str, tuple)) else repr(x) for x in (a, b)]))
        return a is b or a == b

    def isnone(self, x, st):
        if x.op in ('const', 'add', 'mul', 'div', 'pow', 'neg', 'abs', 'min',
                    'max', 'cmp', 'and', 'or', 'not', 'unk'):
            return False
        if x.op == 'sym':
            if str(x.args[1]).endswith('?'):
                r = N.mk('isnone', x)
                d = st.facts.decide(r)
                return r if d is None else d
            return False
        if x.op == 'ite':
            return self._ite_is_none(x, st)
        if x.op == 'call' and x.args[0] in NUMERIC_CALLS:
            return False
        r = N.mk('isnone', x)
        d = st.facts.decide(r)
        return r if d is None else d

    def _ite_is_none(self, x, st):
        c, a, b = x.args
        ra = True if a is None else (
            self.isnone(a, st) if isinstance(a, Node) else False)
        rb = True if b is None else (
            self.isnone(b, st) if isinstance(b, Node) else False)
        if ra is rb:
            return ra
        if ra is True and rb is False:
            return c
        if ra is False and rb is True:
            return N.not_(c)
        return N.or_(N.and_(c, ra), N.and_(N.not_(c), rb))

    def contains(self, a, b, fr, st, node):
        if isinstance(b, str):
            if isinstance(a, str):
                return a in b
            return N.mk('in', self._sc(a, st), b)
        items = None
        if isinstance(b, tuple):
            items = b
        elif isinstance(b, Ref):
            o = self.h(st, b)
            if isinstance(o, HList) and isinstance(o.items, tuple):
                items = o.items
            elif isinstance(o, HDict) and not o.open:
                items = tuple(o.items)
            elif isinstance(o, HArr) and o.items is not None:
                items = o.items
        if items is not None:
            r = False
            for x in items:
                if isinstance(x, (int, float)) and not isinstance(x, bool):
                    x = N.const(x)
                r = N.or_(r, self.eq(a, x, st))
                if r is True:
                    return True
            return r
        return N.mk('in', self._sc(a, st), self._sc(b, st))

    # -------------------------------------------------------------- access
    def e_Attribute(self, e, fr, st):
        o = self.eval(e.value, fr, st)
        return self.getattr(o, e.attr, fr, st, e)

    def getattr(self, o, name, fr, st, node, default=UNDEF):
        if isinstance(o, Node) and o.op == 'ite' and _structured(o):
            c, p, q = o.args
            return self.split(fr, st, c, lambda s, t: self.getattr(
                p if t else q, name, fr, s, node, default))
        if isinstance(o, Mod):
            v = self.mod_get(o.module.name, name, st)
            if v is UNDEF:
                if default is not UNDEF:
                    return default
                self.exit(fr, 'raise', 'AttributeError', st.copy(), node, name)
                raise Dead
            return v
        if isinstance(o, Ext):
            return ext_attr(o, name)
        if isinstance(o, Cls):
            if (o, name) in st.glob:
                return st.glob[(o, name)]
            v, c = o.lookup(name)
            if v is None and name not in o.ns:
                for c in o.mro:
                    if isinstance(c, Cls) and name in c.ns:
                        return c.ns[name]
                if name == '__name__':
                    return o.name
                if default is not UNDEF:
                    return default
                if any(not isinstance(b, Cls) for b in o.mro):
                    return Ext(f'{o.name}.{name}')
                self.exit(fr, 'raise', 'AttributeError', st.copy(), node, name)
                raise Dead
            if isinstance(v, Func) and v.kind == 'classmethod':
                return Bound(v, o)
            return v
        if isinstance(o, Super):
            mro = o.cls_of.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if isinstance(c, Cls) and name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, Func):
                        if v.kind == 'property':
                            return self.call_func(v, [o.self_], {}, fr, st,
                                                  node)
                        if v.kind == 'staticmethod':
                            return v
                        return Bound(v, o.self_)
                    return v
            return Ext('builtins.object.' + name)
        if isinstance(o, Ref):
            h = self.h(st, o)
            if isinstance(h, HIte):
                def go(s, truth):
                    s.heap[o.id] = h.a if truth else h.b
                    return self.getattr(o, name, fr, s, node, default)
                return self.split(fr, st, h.cond, go)
            if isinstance(h, HInst):
                return self.inst_attr(o, h, name, fr, st, node, default)
            return Bound(Ext('method.' + name), o) if not isinstance(
                h, HArr) else self.arr_attr(o, h, name, st)
        if isinstance(o, Node):
            if ('@attr', o, name) in st.glob:
                return st.glob[('@attr', o, name)]
            r = self.hook('node_attr', o, name, node, fr, st)
            if r is not None:
                return r
            return N.mk('attr', o, name)
        if isinstance(o, (str, tuple, bool)) or o is None:
            if o is None:
                if default is not UNDEF:
                    return default
                self.exit(fr, 'raise', 'AttributeError', st.copy(), node, name)
                raise Dead
            return Bound(Ext('method.' + name), o)
        if isinstance(o, Func) and name == '__name__':
            return o.name
        if isinstance(o, (Func, Bound)):
            return Ext('func.' + name)
        raise Unsupported(f'attr {name} of {o!r}')

    def arr_attr(self, o, h, name, st):
        x = mat.nd(self, o, st) if h.items is not None else None
        if isinstance(h.tag, tuple) and h.tag[:1] == ('nd',):
            sh, fl = h.tag[1:]
            if name == 'T':
                n, m, k = sh
                fl = tuple(fl[(c * m + b) * k + a] for a in range(k)
                           for b in range(m) for c in range(n))
                sh = sh[::-1]
                return self.alloc(st, HArr(
                    N.mk('item', N.call('arr3', sh, fl), '*'), None,
                    h.dtype, ('nd', sh, fl)))
            if name == 'shape':
                return tuple(N.const(k) for k in sh)
        if name == 'T':
            if x is not None and len(x[0]) == 2:
                return mat.make(self, st, *mat.transpose(x))
            return o
        if name == 'shape' and x is not None:
            return tuple(N.const(k) for k in x[0])
        if name == 'ndim' and x is not None:
            return N.const(len(x[0]))
        if name == 'size' and x is not None:
            return N.const(len(x[1]))
        if name == 'dtype' and h.dtype in ('int', 'float', 'bool'):
            return Ext({'int': 'numpy.int64', 'float': 'numpy.float64',
                        'bool': 'numpy.bool_'}[h.dtype])
        if name == 'size' or name == 'shape' or name == 'ndim':
            if h.items is not None and name == 'size':
                return N.const(len(h.items))
            return N.call(name, self.freeze(o, st))
        return Bound(Ext('method.' + name), o)

    def inst_attr(self, o, h, name, fr, st, node, default=UNDEF):
        if name == '__class__':
            return h.cls
        if name in h.fields:
            v = h.fields[name]
            if isinstance(v, Node) and v.op == 'maybe_undef':
                self.hook('maybe_undef', name, node, fr, st, v)
                c, a, b = v.args
                good = b if a == 'UNDEF' else a
                truth = a != 'UNDEF'
                d = st.facts.decide(c)
                if good != 'UNDEF' and not (isinstance(good, Node) and
                                            good.op == 'maybe_undef'):
                    if d is None:
                        bad = st.fork(c, not truth)
                        if bad is not None:
                            if default is not UNDEF:
                                pass
                            else:
                                self.exit(fr, 'raise', 'AttributeError', bad,
                                          node, name)
                    elif d != truth:
                        self.exit(fr, 'raise', 'AttributeError', st.copy(),
                                  node, name)
                        raise Dead
                    return good
            return v
        v, c = h.cls.lookup(name)
        found = c is not None
        if not found:
            for k in h.cls.mro:
                if isinstance(k, Cls) and name in k.ns:
                    v, found, c = k.ns[name], True, k
                    break
        if found:
            if isinstance(v, Func):
                if v.kind == 'property':
                    return self.call_func(v, [o], {}, fr, st, node)
                if v.kind == 'classmethod':
                    return Bound(v, h.cls)
                if v.kind == 'staticmethod':
                    return v
                return Bound(v, o)
            if h.lazy is not None:
                return self.lazy_field(o, h, name, st)
            for k in h.cls.mro:
                if (k, name) in st.glob:
                    return st.glob[(k, name)]
            return v
        if h.lazy is not None and not (name.startswith('__')
                                       and name.endswith('__')):
            return self.lazy_field(o, h, name, st)
        if default is not UNDEF:
            return default
        if any(not isinstance(k, Cls) and k not in (
                Ext('abc.ABC'), Ext('builtins.object')) for k in h.cls.mro):
            return N.mk('attr', N.call('obj', o.id), name)
        self.exit(fr, 'raise', 'AttributeError', st.copy(), node, name)
        raise Dead

    def lazy_field(self, o, h, name, st):
        v = h.lazy(name) if callable(h.lazy) else N.sym(f'{h.lazy}.{name}',
                                                       'obj')
        f = dict(h.fields)
        f[name] = v
        st.heap[o.id] = HInst(h.cls, f, h.lazy)
        return v

    def e_Slice(self, e, fr, st):
        return ('slice',
                None if e.lower is None else self.eval(e.lower, fr, st),
                None if e.upper is None else self.eval(e.upper, fr, st),
                None if e.step is None else self.eval(e.step, fr, st))

    def e_Subscript(self, e, fr, st):
        o = self.eval(e.value, fr, st)
        if isinstance(o, Ext):
            return o          # typing subscripts
        if isinstance(o, Cls):
            return o
        k = self.eval(e.slice, fr, st)
        return self.getitem(o, k, fr, st, e)

    def getitem(self, o, k, fr, st, node):
        for x in (o, k):
            if isinstance(x, Node) and x.op == 'ite' and (
                    _structured(x) or x is k and _indices(x)):
                c, p, q = x.args
                return self.split(fr, st, c, lambda s, t: self.getitem(
                    (p if t else q) if x is o else o,
                    (p if t else q) if x is k else k, fr, s, node))
        if isinstance(o, tuple) and o and o[0] == 'slice':
            raise Unsupported('slice item')
        if isinstance(o, tuple):
            return self.seq_item(o, k, fr, st, node, tuple)
        if isinstance(o, str):
            i = as_int(k)
            if i is not None and -len(o) <= i < len(o):
                return o[i]
            if isinstance(k, tuple) and k and k[0] == 'slice':
                try:
                    return o[_pyslice(k)]
                except TypeError:
                    pass
            return N.mk('item', N.call('str', o), self._sc(k, st))
        if isinstance(o, Ref):
            h = self.h(st, o)
            if isinstance(h, HIte):
                def go(s, truth):
                    s.heap[o.id] = h.a if truth else h.b
                    return self.getitem(o, k, fr, s, node)
                return self.split(fr, st, h.cond, go)
            if isinstance(h, HList):
                if isinstance(h.items, tuple):
                    r = self.seq_item(h.items, k, fr, st, node, list)
                    if isinstance(r, list):
                        return self.alloc(st, HList(tuple(r), h.kind))
                    return r
                if isinstance(h.items, Node):
                    c, p, q = h.items.args
                    def go2(s, truth):
                        s.heap[o.id] = HList(p if truth else q, h.kind)
                        return self.getitem(o, k, fr, s, node)
                    return self.split(fr, st, c, go2)
                return N.mk('item', N.call('list', h.tag if h.tag is not None else o.id),
                            self._sc(k, st))
            if isinstance(h, HDict):
                return self.dict_get(o, h, k, fr, st, node)
            if isinstance(h, HArr):
                return self.arr_item(o, h, k, fr, st, node)
            if isinstance(h, HInst):
                f, _ = h.cls.lookup('__getitem__')
                if isinstance(f, Func):
                    return self.call_func(f, [o, k], {}, fr, st, node)
            return N.mk('item', N.call('obj', o.id), self._sc(k, st))
        if isinstance(o, Node):
            r = self.hook('node_item', o, k, node, fr, st)
            if r is not None:
                return r
            if isinstance(k, tuple):
                return N.mk('item', o, tuple(self._kn(x, st) for x in k))
            return N.mk('item', o, self._kn(k, st))
        if o is None:
            self.exit(fr, 'raise', 'TypeError', st.copy(), node)
            raise Dead
        raise Unsupported(f'{loc(fr.module, node)} item of {o!r}')

    def _kn(self, k, st):
        if k is None or isinstance(k, str):
            return k
        if isinstance(k, Ref):
            return self.freeze(k, st)
        if isinstance(k, tuple):
            return tuple(self._kn(x, st) for x in k)
        return self._sc(k, st)

    def seq_item(self, items, k, fr, st, node, typ):
        i = as_int(k)
        if i is not None:
            if -len(items) <= i < len(items):
                return items[i]
            self.exit(fr, 'raise', 'IndexError', st.copy(), node)
            raise Dead
        if isinstance(k, tuple) and k and k[0] == 'slice':
            try:
                r = items[_pyslice(k)]
                return list(r) if typ is list else r
            except TypeError:
                pass
        return N.mk('item', N.call('seq', self.freeze(items, st)),
                    self._sc(k, st))

    def hashkey(self, k, st):
        """Is this a key with a known identity?"""
        if isinstance(k, (str, int, bool, type(None), Cls, Func)):
            return True
        if isinstance(k, Node):
            return N.finite(k)
        if isinstance(k, Ref):
            h = self.h(st, k)
            return isinstance(h, HInst) and not any(
                isinstance(c, Cls) and ('__eq__' in c.ns or
                                        '__hash__' in c.ns)
                for c in h.cls.mro)
        return False

    def dict_get(self, o, h, k, fr, st, node, default=UNDEF):
        if k is not None and self.hashkey(k, st):
            kk = _dkey(k)
            if kk in h.items:
                return h.items[kk]
            if h.open:
                return N.mk('item', N.call('dict', o.id), self._sc(k, st)
                            if not isinstance(k, str) else k)
            if default is not UNDEF:
                return default
            self.exit(fr, 'raise', 'KeyError', st.copy(), node, k)
            raise Dead
        if k is None:
            if default is not UNDEF:
                return default
            self.exit(fr, 'raise', 'KeyError', st.copy(), node, k)
            raise Dead
        # unknown key: any entry, or a missing key
        kn = self.freeze(k, st)
        inn = N.mk('in', kn if isinstance(kn, (Node, tuple)) else repr(kn),
                   tuple(sorted(map(repr, h.items))))
        d = st.facts.decide(inn)
        if d is not True and not h.open:
            if default is UNDEF:
                bad = st.fork(inn, False)
                if bad is not None:
                    self.exit(fr, 'raise', 'KeyError', bad, node, k)
                good = st.fork(inn, True)
                if good is None:
                    raise Dead
                st.become(good)
        vals = [v for v in h.items.values()]
        fv = tuple(self.freeze(v, st) for v in vals)
        r = N.mk('item', N.call('dictval', fv), kn)
        if all(isinstance(v, Node) for v in vals) and vals:
            iv = st.facts.iv(vals[0])
            for v in vals[1:]:
                iv = iv.join(st.facts.iv(v))
            st.facts.set_range(r, iv)
        if default is not UNDEF and d is not True:
            return N.ite(inn, r, default)
        return r

    def arr_item(self, o, h, k, fr, st, node):
        i = as_int(k)
        if h.items is not None and mat.is2d(h):
            x = mat.nd(self, o, st)
            r = mat.item(x, k) if x is not None and len(x[0]) == 2 else None
            if r is not None:
                return mat.make(self, st, *r)
        if h.items is not None:
            if i is not None:
                if -len(h.items) <= i < len(h.items):
                    return h.items[i]
                self.exit(fr, 'raise', 'IndexError', st.copy(), node)
                raise Dead
            if isinstance(k, tuple) and k and k[0] == 'slice':
                try:
                    return self.alloc(st, HArr(None, tuple(
                        h.items[_pyslice(k)]), h.dtype))
                except TypeError:
                    pass
            km = self.h(st, k) if isinstance(k, Ref) else None
            if isinstance(km, HArr) and km.dtype != 'bool':
                if km.elem is not None and as_int(km.elem) is not None:
                    return self.alloc(st, HArr(
                        h.items[as_int(km.elem)], None, h.dtype))
                if km.items is not None and all(
                        as_int(x) is not None
                        and -len(h.items) <= as_int(x) < len(h.items)
                        for x in km.items):
                    return self.alloc(st, HArr(None, tuple(
                        h.items[as_int(x)] for x in km.items), h.dtype))
            if isinstance(km, HArr) and km.dtype == 'bool' and (
                    km.items is not None):
                dec = [st.facts.decide(x) if isinstance(x, Node) else x
                       for x in km.items]
                if None not in dec:
                    return self.alloc(st, HArr(None, tuple(
                        x for x, t in zip(h.items, dec) if t), h.dtype))
        if h.elem is not None:
            m = self.mask_of(k, st)
            if m is not None:
                if isinstance(m, Node):
                    d = st.facts.decide(m)
                    m = m if d is None else d
                return self.alloc(st, HArr(
                    N.ABSENT if m is False else h.elem, None, h.dtype))
            if isinstance(k, tuple) and k and k[0] == 'slice':
                return self.alloc(st, HArr(h.elem, None, h.dtype))
            if i is not None:
                return h.elem
        return self.alloc(st, HArr(N.mk('item', self._node(
            self.freeze(o, st)), self._kn(k, st)), None, h.dtype)) \
            if not isinstance(k, Node) else N.mk(
                'item', self._node(self.freeze(o, st)), self._kn(k, st))

    def _node(self, v):
        return v if isinstance(v, Node) else N.call('val', v)

    # -------------------------------------------------------------- iterate
    def iterate(self, it, fr, st, node):
        """List of items when the iteration space is known, else None."""
        if isinstance(it, tuple):
            return list(it)
        if isinstance(it, str):
            return list(it)
        if isinstance(it, Ref):
            o = self.h(st, it)
            if isinstance(o, HList) and isinstance(o.items, tuple):
                return list(o.items) if len(o.items) <= UNROLL * 4 else None
            if isinstance(o, HDict) and not o.open:
                return [_ukey(k) for k in o.items]
            if isinstance(o, HArr) and o.items is not None:
                return list(o.items)
            if isinstance(o, HInst):
                f, _ = o.cls.lookup('__iter__')
                if isinstance(f, Func):
                    v = self.call_func(f, [it], {}, fr, st, node)
                    return self.iterate(v, fr, st, node)
        if isinstance(it, Iter):
            return it.items
        if isinstance(it, Node):
            r = self.hook('node_iter', it, st)
            if r is not None:
                return list(r)
        return None

    def comp(self, e, fr, st, emit):
        """Run the generators of a comprehension."""
        def rec(i, st):
            if i == len(e.generators):
                return emit(st)
            g = e.generators[i]
            it = self.eval(g.iter, fr, st)
            items = self.iterate(it, fr, st, g)
            if items is None:
                self._comp_src = self.freeze(it, st)
                raise _UnknownIter
            for v in items:
                self.assign(g.target, v, fr, st)
                ok = True
                for c in g.ifs:
                    t = self.cond(c, fr, st)
                    d = st.facts.decide(t) if isinstance(t, Node) else t
                    if d is None:
                        self._comp_src = t
                        raise _UnknownIter
                    if not d:
                        ok = False
                        break
                if ok:
                    rec(i + 1, st)
        saved = dict(st.frames[fr.fid])
        try:
            rec(0, st)
        finally:
            env = st.frames[fr.fid]
            for g in e.generators:
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        if n.id in saved:
                            env[n.id] = saved[n.id]
                        else:
                            env.pop(n.id, None)

    def generic_comp(self, e, fr, st):
        """Comprehension over an unknown iterable: evaluate the element once
        on a generic item (for dependences), yield an unknown list."""
        saved = dict(st.frames[fr.fid])
        deps = []
        src = getattr(self, '_comp_src', None)
        if isinstance(src, (Node, tuple)):
            deps.append(self._nodeonly(src) if isinstance(src, tuple)
                        else src)
        s = st.copy()
        try:
            for g in e.generators:
                it = self.eval(g.iter, fr, s)
                fi = self._node(self.freeze(it, s))
                el = N.mk('item', fi, '*')
                if self.opts.get('elem_hook'):
                    el = self.opts['elem_hook'](self, it, el, fr, s) or el
                self.assign(g.target, el, fr, s)
                for c in g.ifs:
                    t = self.cond(c, fr, s)
                    if isinstance(t, Node):
                        deps.append(t)
            elt = e.elt if hasattr(e, 'elt') else e.value
            v = self.eval(elt, fr, s)
            fv = self.freeze(v, s)
            if isinstance(fv, (Node, tuple)):
                deps.append(self._nodeonly(fv) if isinstance(fv, tuple)
                            else fv)
        except (Dead, Unsupported):
            pass
        st.frames[fr.fid] = saved
        return deps

    def e_ListComp(self, e, fr, st, kind='list'):
        out = []
        s0 = st.copy()
        n0 = len(fr.exits)
        try:
            self.comp(e, fr, st, lambda s: out.append(
                self.eval(e.elt, fr, s)))
        except _UnknownIter:
            st.become(s0)
            del fr.exits[n0:]
            deps = self.generic_comp(e, fr, st)
            return self.alloc(st, HList(None, kind, N.call('listcomp',
                                                           *deps)))
        return self.alloc(st, HList(tuple(out), kind))

    def e_GeneratorExp(self, e, fr, st):
        return self.e_ListComp(e, fr, st)

    def e_SetComp(self, e, fr, st):
        return self.e_ListComp(e, fr, st, 'set')

    def e_DictComp(self, e, fr, st):
        d = {}
        s0 = st.copy()

        def emit(s):
            k = self.eval(e.key, fr, s)
            if not self.hashkey(k, s):
                raise TypeError
            d[_dkey(k)] = self.eval(e.value, fr, s)
        try:
            self.comp(e, fr, st, emit)
        except (_UnknownIter, TypeError):
            st.become(s0)
            self.generic_comp(e, fr, st)
            return self.alloc(st, HDict({}, None, True))
        return self.alloc(st, HDict(d))

    def e_Starred(self, e, fr, st):
        raise Unsupported('starred')

    def e_Yield(self, e, fr, st):
        raise Unsupported('yield')

    # -------------------------------------------------------------- calls
    def e_Call(self, e, fr, st):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and (
                not e.args):
            env = st.frames[fr.fid]
            self_ = env.get(_first_param(fr.func.node)) if fr.func else None
            s = Super(fr.func.cls, self_)
            if isinstance(self_, Ref):
                s.cls_of = self.h(st, self_).cls
            else:
                s.cls_of = self_
            return s
        f = self.eval(e.func, fr, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr, st)
                items = self.iterate(v, fr, st, a)
                if items is None:
                    args.append(N.call('star', self.freeze(v, st)))
                else:
                    args += items
            else:
                args.append(self.eval(a, fr, st))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, fr, st)
            if k.arg is None:
                o = self.h(st, v) if isinstance(v, Ref) else None
                if isinstance(o, HDict):
                    for kk, vv in o.items.items():
                        kw[kk] = vv
                    if o.open:
                        kw['**'] = N.call('openkw', v.id)
                elif isinstance(v, Node) and v.op == 'ite' and _structured(v):
                    c, p, q = v.args
                    a2 = list(args)

                    def go(s, t, p=p, q=q):
                        oo = self.h(s, p if t else q)
                        k2 = dict(kw)
                        k2.update(oo.items)
                        return self.call(f, a2, k2, fr, s, e)
                    return self.split(fr, st, c, go)
                elif v is not None:
                    kw['**'] = self._sc(v, st)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, fr, st, e)

    def call(self, f, args, kw, fr, st, node):
        if isinstance(f, Node) and f.op == 'ite' and _structured(f):
            c, p, q = f.args
            return self.split(fr, st, c, lambda s, t: self.call(
                p if t else q, args, kw, fr, s, node))
        if isinstance(f, Func):
            return self.call_func(f, args, kw, fr, st, node)
        if isinstance(f, Bound):
            if isinstance(f.func, Func):
                return self.call_func(f.func, [f.self_] + args, kw, fr, st,
                                      node)
            from . import ext
            return ext.call_method(self, f.func.path.split('.')[-1], f.self_,
                                   args, kw, fr, st, node)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw, fr, st, node)
        if isinstance(f, Ext):
            from . import ext
            return ext.call_ext(self, f.path, args, kw, fr, st, node)
        if isinstance(f, Ref):
            h = self.h(st, f)
            if isinstance(h, HInst):
                m, _ = h.cls.lookup('__call__')
                if isinstance(m, Func):
                    return self.call_func(m, [f] + args, kw, fr, st, node)
        if isinstance(f, Node):
            if f.op == 'attr':
                r = self.hook('node_call', f.args[0], f.args[1], args, kw,
                              node, fr, st)
                if r is not None:
                    return r
                return N.mk('call', '.' + f.args[1], f.args[0],
                            *self.fz(args, kw, st))
            return N.mk('call', '()', f, *self.fz(args, kw, st))
        from . import ext
        if isinstance(f, ext._Partial):
            return self.call(f.f, list(f.a) + list(args), {**f.k, **kw}, fr,
                             st, node)
        raise Unsupported(f'{loc(fr.module, node)}: call {f!r}')

    def fz(self, args, kw, st):
        out = [self._fzn(a, st) for a in args]
        for k in sorted(kw):
            out.append((k, self._fzn(kw[k], st)))
        return out

    def _fzn(self, a, st):
        v = self.freeze(a, st)
        return v

    def freeze(self, v, st, depth=0):
        """Immutable snapshot of a value, usable inside a term."""
        if isinstance(v, (Node, str, bool)) or v is None:
            return v
        if isinstance(v, tuple):
            return tuple(self.freeze(x, st, depth + 1) for x in v)
        if isinstance(v, Ref):
            o = self.h(st, v)
            if depth > 6:
                return N.call('ref', v.id)
            if isinstance(o, HList):
                if isinstance(o.items, tuple):
                    return ('list',) + tuple(self.freeze(x, st, depth + 1)
                                             for x in o.items)
                if isinstance(o.items, Node):
                    return N.call('list', o.items)
                return N.call('list', o.tag if o.tag is not None else v.id)
            if isinstance(o, HArr):
                if o.items is not None:
                    return ('arr',) + tuple(self.freeze(x, st, depth + 1)
                                            for x in o.items)
                return N.call('arr', self.freeze(o.elem, st, depth + 1))
            if isinstance(o, HDict):
                return ('dict',) + tuple(
                    (repr(k) if not isinstance(k, str) else k,
                     self.freeze(x, st, depth + 1))
                    for k, x in o.items.items())
            if isinstance(o, HInst):
                t = o.fields.get('@term')
                if t is not None:
                    return t
                return N.call('inst', o.cls.name, v.id)
            if isinstance(o, HIte):
                return N.call('hite', o.cond, v.id)
            return N.call('ref', v.id)
        if isinstance(v, Ext):
            return N.call('ext', v.path)
        if isinstance(v, Func):
            return N.call('func', v.module.name + '.' + v.name)
        if isinstance(v, Bound):
            return N.call('bound', self.freeze(v.self_, st, depth + 1),
                          self.freeze(v.func, st, depth + 1))
        if isinstance(v, Cls):
            return N.call('cls', v.name)
        if isinstance(v, Mod):
            return N.call('mod', v.module.name)
        if isinstance(v, Iter):
            return tuple(self.freeze(x, st, depth + 1) for x in v.items)
        return repr(v)

    def instantiate(self, c, args, kw, fr, st, node):
        if exc_cls(c):
            return N.call('exc:' + c.name)
        r = self.hook('instantiate', c, args, kw, node, fr, st)
        if r is not None:
            return r
        ref = self.alloc(st, HInst(c, {}))
        self.allocs[ref.id] = (fr.module, node)
        init, owner = c.lookup('__init__')
        if isinstance(init, Func):
            self.call_func(init, [ref] + args, kw, fr, st, node)
        elif c.dataclass:
            h = self.h(st, ref)
            f = {}
            for i, n in enumerate(c.fields_order):
                if i < len(args):
                    f[n] = args[i]
                elif n in kw:
                    f[n] = kw[n]
                else:
                    v, k = c.lookup(n)
                    if k is None:
                        has = any(isinstance(b, Cls) and n in b.ns
                                  for b in c.mro)
                        if not has:
                            self.exit(fr, 'raise', 'TypeError', st.copy(),
                                      node)
                            raise Dead
                    f[n] = v
            st.heap[ref.id] = HInst(c, f)
            post, _ = c.lookup('__post_init__')
            if isinstance(post, Func):
                self.call_func(post, [ref], {}, fr, st, node)
        return ref

    def call_func(self, f, args, kw, fr, st, node):
        q = (f.cls.name + '.' if f.cls is not None else '') + f.name
        self.visited.add((f.module.rel, q))
        r = self.hook('call', f, args, kw, node, fr, st)
        if r is not None:
            return r[0]
        if fr.depth > MAXDEPTH:
            return N.fresh('deep', *[x for x in args
                                     if isinstance(x, (Node, tuple))])
        n_active = 0
        p = fr
        while p is not None:
            if p.func is not None and p.func.node is f.node:
                n_active += 1
            p = getattr(p, 'parent', None)
        if n_active > 4:
            return N.fresh('rec', *[self._nodeonly(x) if isinstance(x, tuple)
                                    else x for x in self.fz(args, kw, st)
                                    if isinstance(x, (Node, tuple))])
        _fid[0] += 1
        fid = _fid[0]
        nf = Frame(fid, f.module, f, fr.depth + 1)
        nf.parent = fr
        if not hasattr(self, 'frame_closure'):
            self.frame_closure = {}
        self.frame_closure[fid] = f.closure
        env = self.bind(f, args, kw, fr, st, node)
        st.frames[fid] = env
        if isinstance(f.node, ast.Lambda):
            try:
                v = self.eval(f.node.body, nf, st)
            finally:
                fr.exits += [x for x in nf.exits if x.kind == 'raise']
            return v
        self.closured = getattr(self, 'closured', set())
        ok = self.exec_block(f.node.body, nf, st)
        rets = [x for x in nf.exits if x.kind == 'return']
        fr.exits += [x for x in nf.exits if x.kind == 'raise']
        if ok:
            rets.append(Exit('return', None, st.copy(), f.node, f.module))
        if not rets:
            raise Dead
        self.hook('returns', f, rets)
        keep = fid in self.closured
        if not keep:
            for x in rets:
                x.st.frames.pop(fid, None)
        if len(rets) == 1:
            s, v = rets[0].st, rets[0].value
            if s is not st:
                st.become(s)
            return v
        return self.merge_into(st, [(x.st, x.value) for x in rets])

    def bind(self, f, args, kw, fr, st, node):
        a = f.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        openkw = kw.pop('**', None)

        def bad(msg):
            self.exit(fr, 'raise', 'TypeError', st.copy(), node, msg)
            raise Dead
        for n, v in zip(pos, args):
            env[n] = v
        if len(args) > len(pos):
            if a.vararg:
                env[a.vararg.arg] = tuple(args[len(pos):])
            else:
                bad(f'too many positional arguments for {f.name}')
        elif a.vararg:
            env[a.vararg.arg] = ()
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        extra = {}
        for k, v in kw.items():
            if k in names:
                if k in env:
                    bad(f'multiple values for {k} in {f.name}')
                env[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(st, HDict(extra, None,
                                                    openkw is not None))
        elif extra:
            bad(f'unexpected keyword {sorted(extra)} for {f.name}')
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in env:
                j = i - (len(pos) - nd)
                if j >= 0:
                    env[n] = f.defaults[j]
                elif openkw is not None:
                    env[n] = N.fresh('kw_' + n)
                else:
                    bad(f'missing argument {n} for {f.name}')
        for x, d, dn in zip(a.kwonlyargs, f.kwdefaults, a.kw_defaults):
            if x.arg not in env:
                if dn is None:
                    bad(f'missing keyword {x.arg} for {f.name}')
                env[x.arg] = d
        return env

    # -------------------------------------------------------------- entry
    def analyse(self, f, args=(), kw=None, st=None, self_=None):
        """Analyse a call; returns (exits, final frame)."""
        st = st or self.new_state()
        if isinstance(f, Bound):
            args = [f.self_] + list(args)
            f = f.func
        fr = Frame(('entry', id(f)), f.module, None, 0)
        st.frames[fr.fid] = {}
        out = []
        try:
            v = self.call(f, list(args), kw or {}, fr, st,
                          getattr(f, 'node', None))
            out.append(Exit('return', v, st, getattr(f, 'node', None),
                            f.module))
        except Dead:
            pass
        return [x for x in fr.exits if x.kind == 'raise'] + out

    def entry_frame(self, st, module):
        fr = Frame(('entry', 0), module, None, 0)
        st.frames.setdefault(fr.fid, {})
        return fr

    def list_extend(self, ref, v, fr, st, node):
        self.hook('mutate', ref, node, fr, st)
        h = self.h(st, ref)
        items = self.iterate(v, fr, st, node)
        if isinstance(h, HList) and isinstance(h.items, tuple) and (
                items is not None):
            st.heap[ref.id] = HList(h.items + tuple(items), h.kind, h.tag)
        elif isinstance(h, HList):
            d = [x for x in (h.items, h.tag, self.freeze(v, st))
                 if isinstance(x, (Node, tuple))]
            st.heap[ref.id] = HList(None, h.kind, N.fresh(
                'list', *[self._nodeonly(x) for x in d]))


class Iter:
    """A materialised iteration (zip, enumerate, ...)."""

    def __init__(self, items):
        self.items = items

    def __hash__(self):
        return id(self)


class _UnknownIter(Exception):
    pass


NUMERIC_CALLS = {'exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'atan', 'floor',
                 'ceil', 'interp', 'sum', 'len', 'arr', 'list', 'isclose',
                 'log10', 'sign', 'trunc', 'fstr', 'mod', 'round', 'inst',
                 'listcomp', 'strop'}


def _structured(v):
    """Does a gated value select between non-numeric things?"""
    for x in v.args[1:]:
        if isinstance(x, Node):
            if x.op == 'ite' and _structured(x):
                return True
            continue
        if isinstance(x, bool):
            continue
        return True
    return False


def _n(x):
    if isinstance(x, Node):
        return x
    return N.const(x)


def _dkey(k):
    if isinstance(k, Node):
        if N.finite(k):
            v = N.cval(k)
            return int(v) if v.denominator == 1 else float(v)
        raise TypeError
    hash(k)
    return k


def _ukey(k):
    if isinstance(k, (int, float)) and not isinstance(k, bool):
        return N.const(k)
    return k


def _pyslice(k):
    def c(x):
        if x is None:
            return None
        i = as_int(x)
        if i is None:
            raise TypeError
        return i
    return slice(c(k[1]), c(k[2]), c(k[3]))


def _indices(x):
    """A case distinction between known indices?"""
    if x.op == 'ite':
        return _indices(x.args[1]) and _indices(x.args[2])
    return as_int(x) is not None


def as_int(k):
    if isinstance(k, bool):
        return int(k)
    if isinstance(k, Node) and N.finite(k) and N.cval(k).denominator == 1:
        return int(N.cval(k))
    return None


def _as_load(t):
    t2 = ast.copy_location(type(t)(**{k: v for k, v in ast.iter_fields(t)}), t)
    t2.ctx = ast.Load()
    return t2


def _intlit(node, which):
    """Is the literal operand an int literal in the source?"""
    e = getattr(node, 'right' if which else 'left', None)
    return isinstance(e, ast.Constant) and isinstance(e.value, int)


def assigned_names(s):
    out = []
    for n in ast.walk(s):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            if n.id not in out:
                out.append(n.id)
    return out


def _first_param(node):
    a = node.args
    ps = a.posonlyargs + a.args
    return ps[0].arg if ps else None


def ext_attr(o, name):
    return ext_value(f'{o.path}.{name}')


def ext_value(path):
    root, _, name = path.partition('.')
    if root in ('numpy', 'math') and name in ('pi', 'inf', 'e', 'nan'):
        return N.const({'pi': math.pi, 'inf': math.inf, 'e': math.e,
                        'nan': math.nan}[name])
    return Ext(path)


def exc_name(v):
    if isinstance(v, Ext):
        return v.path.split('.')[-1]
    if isinstance(v, Cls):
        return v.name
    if isinstance(v, Node) and v.op == 'call' and str(v.args[0]).startswith(
            'exc:'):
        return v.args[0][4:]
    return 'Exception'


def exc_cls(c):
    return any(isinstance(b, Ext) and b.path.startswith('builtins.')
               and b.path.endswith(('Error', 'Exception', 'Warning'))
               for b in c.mro)


def exc_match(name, handler):
    if handler in ('Exception', 'BaseException'):
        return True
    if name == handler:
        return True
    a, b = getattr(builtins, name, None), getattr(builtins, handler, None)
    try:
        return issubclass(a, b)
    except TypeError:
        return False
