"""Rules over the geometry classes (C16)."""

from __future__ import annotations

from . import mat, shp
from . import nodes as N
from .intcheck import interp, law, material, where
from .interp import Ref, UNDEF
from .lawcheck import KNOWN_CALLS, opaque, verdict
from .nodes import Node, add, const, div, mul, neg, sub, sym
from .refute import NoValue, evalt, sat, valuations
from .repo import loc
from .util import World, flat, guard_term

GEOM = 'structuralcodes.geometry._geometry'
PKG = 'structuralcodes.geometry'
KNOWN_CALLS.update(('length', 'bbcx', 'bbcy', 'floor'))


def N_min(a, b):
    return N.mk('min', a, b)


def N_max(a, b):
    return N.mk('max', a, b)


# ------------------------------------------------------------------ numpy
def inverse(m):
    """Inverse of a 2 x 2 or 3 x 3 matrix of terms."""
    (n, _), f = m
    if n == 2:
        a, b, c, d = f
        dt = sub(mul(a, d), mul(b, c))
        return (2, 2), [div(x, dt) for x in (d, neg(b), neg(c), a)]

    def minor(i, j):
        r = [f[p * 3 + q] for p in range(3) if p != i
             for q in range(3) if q != j]
        return sub(mul(r[0], r[3]), mul(r[1], r[2]))
    dt = N.ZERO
    for j in range(3):
        t = mul(f[j], minor(0, j))
        dt = add(dt, t if j % 2 == 0 else neg(t))
    out = []
    for i in range(3):
        for j in range(3):
            t = minor(j, i)
            out.append(div(t if (i + j) % 2 == 0 else neg(t), dt))
    return (3, 3), out


# what is left of a length above a multiple of the spacing
PARTS = ((0.001, 0.005), (0.01, 0.4), (0.6, 0.9), (0.995, 0.999))
WHOLE = {'floor': (0, 1), 'ceil': (-1, 0), 'trunc': (0, 1), 'int': (0, 1),
         'round': (-0.5, 0.5), 'rint': (-0.5, 0.5)}


def whole(name, x, st):
    """The number a positive term is rounded to, where the facts tell."""
    if not isinstance(x, Node):
        return None
    v = None
    for _, env in valuations(st.facts, [x], n=1):
        try:
            v = evalt(x, env)
        except NoValue:
            pass
    if v is None or not 0 < v < 1e6:
        return None
    near = round(v)
    lo, hi = WHOLE[name]
    for k in (near, near - 1, near + 1):
        a, b = (add(const(k), const(t)) for t in (lo, hi))
        if name == 'ceil':
            a, b = N.lt(a, x), N.le(x, b)
        elif lo == 0:
            a, b = N.le(a, x), N.lt(x, b)
        else:
            a, b = N.lt(a, x), N.lt(x, b)
        if N.prove(st.facts, a) and N.prove(st.facts, b):
            return const(k)
    return None


class Hooks:
    def __init__(self):
        self.angles = {}      # (dy, dx) -> angle
        self.floors = False   # roundings are decided by the facts

    def ext(self, I, path, args, kw, node, fr, st):
        n = path.split('.')[-1]
        if n == 'inv' and 'linalg' in path:
            m = mat.nd(I, args[0], st)
            if m is not None and m[0] in ((2, 2), (3, 3)):
                return mat.make(I, st, *inverse(m))
        if n in ('atan2', 'arctan2') and len(args) == 2:
            a, b = (I._sc(x, st) for x in args)
            for (p, q), r in self.angles.items():
                if isinstance(a, Node) and isinstance(b, Node) \
                        and N.equal(a, p, st.facts) \
                        and N.equal(b, q, st.facts):
                    return r
        if n == 'norm' and 'linalg' in path and len(args) == 1 and not kw:
            m = mat.nd(I, args[0], st)
            if m is not None and m[0] == (2,):
                for (p, q), r in getattr(self, 'norms', {}).items():
                    if all(N.equal(x, y, st.facts) for x, y in zip(
                            m[1], (p, q))):
                        return r
        if self.floors and n in WHOLE and len(args) == 1 and not kw:
            return whole(n, I._sc(args[0], st), st)
        return None

    def node_attr(self, I, o, name, node, fr, st):
        """Orientation of a ring of three points; split and Multi parts."""
        if shp.is_geo(o) and name == 'is_ccw' and o.args[0] == 'Ring' \
                and len(o.args[1]) == 4:
            (ax, ay), (bx, by), (cx, cy) = o.args[1][:3]
            return N.lt(N.ZERO, sub(mul(sub(bx, ax), sub(cy, ay)),
                                    mul(sub(by, ay), sub(cx, ax))))
        if shp.is_geo(o) and name == 'geoms' and o.args[:3] == (
                'Op', '?', 'split'):
            self.splits.append(o)
            return (shp.polygon('Q0'), shp.polygon('Q1'))
        return None

    splits: list = []


def affine_same(chk, rule, con, wh, got, want, st, text):
    """The geometry got is the geometry want."""
    if not shp.is_geo(got) or not shp.is_geo(want):
        chk.unknown(rule, con, repr(got)[:200])
        return
    if got is want:
        chk.ok(rule, con)
        return
    if got.args[0] != want.args[0]:
        chk.unknown(rule, con, N.show(got)[:200])
        return
    if got.args[0] == 'Point':
        p = zip(got.args[1:], want.args[1:])
    elif got.args[0] == 'Map':
        if got.args[1:3] != want.args[1:3]:
            if all(isinstance(x, str) for x in (got.args[2], want.args[2])):
                chk.violation(rule, con, wh, f'{text}: the shape of '
                              f'{got.args[2]} instead of {want.args[2]}')
            else:
                chk.unknown(rule, con, N.show(got)[:200])
            return
        p = zip(got.args[3], want.args[3])
    elif got.args[0] in ('Ring', 'LineString'):
        if len(got.args[1]) != len(want.args[1]):
            chk.violation(rule, con, wh, f'{text}: {len(got.args[1])} '
                          f'instead of {len(want.args[1])} points')
            return
        p = [(a, b) for x, y in zip(got.args[1], want.args[1])
             for a, b in zip(x, y)]
    elif got.args[0] == 'Polygon' and not got.args[2] and not want.args[2]:
        return affine_same(chk, rule, con, wh, shp.geo('Ring', got.args[1]),
                           shp.geo('Ring', want.args[1]), st, text)
    else:
        chk.unknown(rule, con, N.show(got)[:200])
        return
    for a, b in p:
        verdict(chk, rule, con, wh, a, b, st, text)


def same(chk, rule, con, wh, a, b, W, text):
    """The value a of an attribute is the value b."""
    st = W.st
    if isinstance(a, Ref) or isinstance(b, Ref):
        if a is b or isinstance(a, Ref) and isinstance(b, Ref) \
                and a.id == b.id:
            chk.ok(rule, con)
        elif isinstance(b, Ref) and (a is None or isinstance(a, Ref)):
            if isinstance(a, Ref) and type(W.h(a)).__name__ == 'HIte':
                chk.unknown(rule, con, 'conditional object')
            else:
                chk.violation(rule, con, wh, f'{text}: another object')
        else:
            chk.unknown(rule, con, f'{a!r} / {b!r}')
        return
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, bool) and isinstance(b, bool):
            if a == b:
                chk.ok(rule, con)
            else:
                chk.violation(rule, con, wh, f'{text}: {a} instead of {b}')
            return
        if isinstance(a, Node) and isinstance(b, bool):
            d = st.facts.decide(a)
            if d is b:
                chk.ok(rule, con)
                return
        chk.unknown(rule, con, f'{a!r} / {b!r}')
        return
    if (a is None or isinstance(a, (str, Node))) and (
            b is None or isinstance(b, str)):
        if a == b:
            chk.ok(rule, con)
        elif isinstance(a, Node):
            pre = a.args[1] if a.op == 'call' and a.args[0] == 'fstr' \
                else None
            if N.is_const(a) or isinstance(pre, str) and isinstance(
                    b, str) and not b.startswith(pre):
                chk.violation(rule, con, wh, f'{text}: {a!r} / {b!r}')
            else:
                chk.unknown(rule, con, f'{a!r} / {b!r}')
        else:
            chk.violation(rule, con, wh, f'{text}: {a!r} instead of {b!r}')
        return
    verdict(chk, rule, con, wh, a, b, st, text)


class Scene:
    def __init__(self, repo):
        self.hooks = Hooks()
        self.hooks.splits = []
        self.I = I = interp(repo, {'ext': self.hooks.ext,
                                   'node_attr': self.hooks.node_attr})
        self.W = W = World(I)
        self.laws = [law(W, t) for t in 'ABCD']
        self.mats = [material(W, lw, t) for lw, t in zip(self.laws, 'abcd')]
        self.SG, self.PG, self.CG = (I.get(f'{GEOM}:{n}') for n in (
            'SurfaceGeometry', 'PointGeometry', 'CompoundGeometry'))
        self.surf = [W.call(self.SG, shp.polygon(f'P{i}'), self.mats[i],
                            concrete=i == 0, name=f'surface {i}',
                            group_label=f'group {i}') for i in range(2)]
        self.bars = []
        for i in range(2):
            d = sym(f'db{i}')
            W.st.facts.assume(N.lt(N.ZERO, d), True)
            self.bars.append(W.call(self.PG, shp.geo(
                'Point', sym(f'yb{i}'), sym(f'zb{i}')), d, self.mats[2 + i],
                name=f'bar {i}', group_label=f'group {2 + i}'))
        self.comp = W.call(self.CG, W.lst(*self.surf, *self.bars))

    def shape(self, x):
        if self.W.h(x).cls.lookup('polygon')[0] is not None:
            return self.W.attr(x, 'polygon')
        return self.W.attr(x, 'point')

    def parts(self, x):
        W = self.W
        out = []
        for k in ('geometries', 'point_geometries'):
            v = W.attr(x, k)
            r = None if v is UNDEF else self.I.iterate(v, W.fr, W.st, None)
            if r is None:
                return None
            out += r
        return out


KEPT = {'s': ('material', 'density', 'concrete', 'name', 'group_label'),
        'p': ('material', 'density', 'diameter', 'area', 'name',
              'group_label')}


def kept(chk, S, con, wh, new, old, A, skip=(), give=None):
    """new is old moved by A (None: same place)."""
    W = S.W
    if not isinstance(new, Ref) or not hasattr(W.h(new), 'cls'):
        chk.unknown('kept', con, repr(new)[:200])
        return
    k = 's' if W.h(old).cls.lookup('polygon')[0] is not None else 'p'
    want = S.SG if k == 's' else S.PG
    if want not in W.h(new).cls.mro:
        chk.violation('kept', con, wh, 'a part of another kind')
        return
    for n in KEPT[k]:
        if n in skip:
            continue
        b = give[n] if give and n in give else W.attr(old, n)
        same(chk, 'kept', f'{con}: {n}', wh, W.attr(new, n), b, W,
             f'{n} of the part changes')
    g = S.shape(old)
    if A is not None and shp.is_geo(g):
        g = shp.transform(g, A)
    affine_same(chk, 'moved', con, wh, S.shape(new), g, W.st,
                'the part is not where it should be')


def run(chk, S, con, wh, obj, name, *a, **kw):
    W = S.W
    n0 = len(W.fr.exits)
    r = W.method(obj, name, *a, **kw)
    bad = [e for e in W.fr.exits[n0:] if e.kind == 'raise']
    if r is UNDEF:
        if bad and bad[0].value in ('AttributeError', 'NameError',
                                    'TypeError', 'UnboundLocalError'):
            chk.violation('kept', con, bad[0].where,
                          f'{name} always fails: {bad[0].value}')
        else:
            chk.unknown('kept', con, [(str(e.value), e.where) for e in bad])
    return r


def operations(chk, S):
    """Operations with their affine maps: (name, args, map)."""
    W, I = S.W, S.I
    dx, dy, an, px, py = (sym(n) for n in ('dx', 'dy', 'alpha', 'px', 'py'))
    axis, M = mirror_axis(S)
    deg = mul(an, const(__import__('math').pi / 180))
    return [
        ('translate', (dx, dy), {}, (N.ONE, N.ZERO, N.ZERO, N.ONE, dx, dy)),
        ('translate', (), {'dy': dy}, (N.ONE, N.ZERO, N.ZERO, N.ONE, N.ZERO,
                                       dy)),
        ('rotate', (an,), {}, shp.rotation(an, (N.ZERO, N.ZERO))),
        ('rotate', (an, (px, py)), {}, shp.rotation(an, (px, py))),
        ('rotate', (an,), {'point': (px, py), 'use_radians': False},
         shp.rotation(deg, (px, py))),
        ('mirror', (axis,), {}, M),
    ]


def mirror_axis(S):
    x1, y1, r, ph = (sym(n) for n in ('ax', 'ay', 'ar', 'phi'))
    S.W.st.facts.assume(N.lt(N.ZERO, r), True)
    c, s = N.call('cos', ph), N.call('sin', ph)
    S.hooks.angles[(mul(r, s), mul(r, c))] = ph
    axis = shp.geo('LineString', (
        (x1, y1), (add(x1, mul(r, c)), add(y1, mul(r, s)))))
    c2, s2 = sub(mul(c, c), mul(s, s)), mul(const(2), mul(s, c))
    M = (c2, s2, s2, neg(c2),
         sub(x1, add(mul(c2, x1), mul(s2, y1))),
         sub(y1, sub(mul(s2, x1), mul(c2, y1))))
    return axis, M


def match(chk, S, con, wh, new, old):
    """Pair the parts of two compounds, None if they do not correspond."""
    a, b = S.parts(new), S.parts(old)
    if a is None or b is None:
        chk.unknown('parts', con, 'parts not understood')
        return None

    def sort(xs):
        s = [x for x in xs if S.W.h(x).cls.lookup('polygon')[0] is not None]
        return s, [x for x in xs if x not in s]
    (sa, pa), (sb, pb) = sort(a), sort(b)
    if len(sa) != len(sb) or len(pa) != len(pb):
        chk.violation('parts', con, wh, f'{len(sa)} surfaces and {len(pa)} '
                      f'bars instead of {len(sb)} and {len(pb)}')
        return None
    chk.ok('parts', con)
    return list(zip(sa, sb)) + list(zip(pa, pb))


def transforms(repo, chk):
    S = Scene(repo)
    W, I = S.W, S.I
    objs = [('surface', S.surf[0]), ('bar', S.bars[0])]
    before = [flat(W, x) for _, x in objs] + [flat(W, S.comp)]
    for i, (name, a, kw, A) in enumerate(operations(chk, S)):
        for tag, x in objs:
            con = f'{tag} {name} {i}'
            wh = where(I, W.h(x).cls, name)
            r = run(chk, S, con, wh, x, name, *a, **kw)
            if r is not UNDEF:
                kept(chk, S, con, wh, r, x, A)
        con = f'compound {name} {i}'
        wh = where(I, S.CG, name)
        r = run(chk, S, con, wh, S.comp, name, *a, **kw)
        if r is not UNDEF:
            for p, q in match(chk, S, con, wh, r, S.comp) or ():
                kept(chk, S, f'{con}: {W.attr(q, "name")}', wh, p, q, A)
    # another material
    new = material(W, S.laws[3], 'n')
    for tag, x in objs:
        con = f'{tag} from_geometry'
        wh = where(I, W.h(x).cls, 'from_geometry')
        r = run(chk, S, con, wh, x, 'from_geometry', x, new)
        if r is not UNDEF:
            kept(chk, S, con, wh, r, x, None, ('concrete',),
                 {'material': new, 'density': W.attr(new, 'density')})
    con, wh = 'compound from_geometry', where(I, S.CG, 'from_geometry')
    r = run(chk, S, con, wh, S.comp, 'from_geometry', S.comp, new)
    if r is not UNDEF:
        for p, q in match(chk, S, con, wh, r, S.comp) or ():
            kept(chk, S, f'{con}: {W.attr(q, "name")}', wh, p, q, None,
                 ('concrete',), {'material': new,
                                 'density': W.attr(new, 'density')})
    # elastic material of the same stiffness
    r = run(chk, S, con, wh, S.comp, 'from_geometry', S.comp)
    if r is not UNDEF:
        for p, q in match(chk, S, con + ' elastic', wh, r, S.comp) or ():
            c2 = f'{con} elastic: {W.attr(q, "name")}'
            kept(chk, S, c2, wh, p, q, None, ('concrete', 'material'))
            E = I._sc(W.method(W.attr(W.attr(q, 'material'),
                                      'constitutive_law'),
                               'get_tangent', N.ZERO), W.st)
            u = sym('u')
            sg = I._sc(W.method(W.attr(W.attr(p, 'material'),
                                       'constitutive_law'),
                                'get_stress', u), W.st)
            f = W.st.facts.copy()
            verdict(chk, 'stiffness', c2, wh, sg, mul(E, u), W.st,
                    'the elastic material has another stiffness')
            W.st.facts = f
    after = [flat(W, x) for _, x in objs] + [flat(W, S.comp)]
    for (tag, x), p, q in zip(objs + [('compound', S.comp)], before, after):
        if p == q:
            chk.ok('unchanged', tag)
        else:
            chk.violation('unchanged', tag, where(I, W.h(x).cls, 'translate'),
                          'an operation changes the object it is applied to')
    chk.seen(I)


def combine(repo, chk):
    S = Scene(repo)
    W, I = S.W, S.I
    Cl = W.h(S.comp).cls
    # addition
    extra = W.call(S.SG, shp.polygon('P2'), S.mats[2], name='extra')
    cases = [('surface + bar', S.surf[0], S.bars[0]),
             ('surface + surface', S.surf[0], S.surf[1]),
             ('compound + surface', S.comp, extra),
             ('surface + compound', extra, S.comp),
             ('bar + surface', S.bars[0], S.surf[0])]

    def items(x):
        return S.parts(x) if Cl in W.h(x).cls.mro else [x]
    for con, a, b in cases:
        f, _ = W.h(a).cls.lookup('__add__')
        wh = f'{loc(f.module, f.node)} __add__'
        r = run(chk, S, con, wh, a, '__add__', b)
        if r is UNDEF:
            continue
        got = S.parts(r)
        if got is None:
            chk.unknown('parts', con, repr(r))
            continue
        want = items(a) + items(b)
        if len(got) != len(want):
            chk.violation('parts', con, wh, f'{len(got)} instead of '
                          f'{len(want)} parts')
            continue
        chk.ok('parts', con)
        names = {W.attr(x, 'name'): x for x in want}
        for p in got:
            q = names.get(W.attr(p, 'name'))
            if q is None:
                chk.violation('kept', con, wh, 'the name of a part changes')
            else:
                kept(chk, S, f'{con}: {W.attr(q, "name")}', wh, p, q, None)
    # subtraction
    def less(x, *others):
        g = S.shape(x)
        for o in others:
            g = shp.geo('Op', 'Polygon', 'difference', g, S.shape(o))
        return g
    for con, b, others in (
            ('surface - surface', S.surf[1], (S.surf[1],)),
            ('surface - bar', S.bars[0], ()),
            ('surface - compound', S.comp, tuple(S.surf))):
        wh = where(I, S.SG, '__sub__')
        r = run(chk, S, con, wh, S.surf[0], '__sub__', b)
        if r is UNDEF:
            continue
        x = S.surf[0]
        for n in KEPT['s']:
            same(chk, 'kept', f'{con}: {n}', wh, W.attr(r, n), W.attr(x, n),
                 W, f'{n} of the part changes')
        cut(chk, con, wh, S.shape(r), less(x, *others))
    wh = where(I, S.CG, '__sub__')
    for con, b, others in (('compound - surface', extra, (extra,)),
                           ('compound - bar', S.bars[0], ())):
        r = run(chk, S, con, wh, S.comp, '__sub__', b)
        if r is UNDEF:
            continue
        for p, q in match(chk, S, con, wh, r, S.comp) or ():
            c2 = f'{con}: {W.attr(q, "name")}'
            if S.PG in W.h(q).cls.mro:
                kept(chk, S, c2, wh, p, q, None)
                continue
            for n in KEPT['s']:
                same(chk, 'kept', f'{c2}: {n}', wh, W.attr(p, n),
                     W.attr(q, n), W, f'{n} of the part changes')
            cut(chk, c2, wh, S.shape(p), less(q, *others))
    # totals
    wh = where(I, S.CG, 'area')
    t = add(*(I._sc(W.attr(x, 'area'), W.st) for x in S.surf))
    verdict(chk, 'totals', 'area', wh, I._sc(W.attr(S.comp, 'area'), W.st),
            t, W.st, 'not the sum over the surfaces')
    for x, con in ((S.surf[0], 'surface'), (S.comp, 'compound')):
        wh = where(I, W.h(x).cls, 'calculate_extents')
        r = run(chk, S, con, wh, x, 'calculate_extents')
        r = None if r is UNDEF else I.iterate(r, W.fr, W.st, None)
        if r is None or len(r) != 4:
            chk.unknown('totals', con, repr(r))
            continue
        b = [[N.call(f'bound{k}', S.shape(y)) for k in range(4)]
             for y in (S.surf if con == 'compound' else [x])]
        f = N.Facts()
        for y in b:
            for v in y:
                f.set_range(v, N.Iv(-10**15, 10**15))
        keep, W.st.facts = W.st.facts, f
        for got, k, fn in zip(r, (0, 2, 1, 3), (N_min, N_max, N_min, N_max)):
            w = b[0][k]
            for y in b[1:]:
                w = fn(w, y[k])
            verdict(chk, 'totals', f'{con} extents {k}', wh, got, w, W.st,
                    'not the bounding box')
        W.st.facts = keep
    chk.seen(I)
    # reinforced concrete
    for fl in ((True, False), (False, True), (False, False)):
        S = Scene(repo)
        W, I = S.W, S.I
        su = [W.call(S.SG, shp.polygon(f'P{i}'), S.mats[i], concrete=f)
              for i, f in enumerate(fl)]
        wh = where(I, S.CG, 'reinforced_concrete')
        c = W.call(S.CG, W.lst(*su, *S.bars))
        for k in range(2):
            same(chk, 'flag', f'{fl}: concrete {k}', where(
                I, S.SG, 'concrete'), W.attr(su[k], 'concrete'), fl[k], W,
                'the flag given is not kept')
        for k in ('first', 'again'):
            same(chk, 'flag', f'{fl}: reinforced_concrete, {k}', wh,
                 W.attr(c, 'reinforced_concrete'), any(fl), W,
                 'not true exactly if a surface is concrete')
    # multi polygon
    S = Scene(repo)
    W, I = S.W, S.I
    mp = shp.geo('MultiPolygon', (shp.polygon('P0'), shp.polygon('P1')))
    wh = where(I, S.CG, '__init__')
    for con, m, w in (('one material', S.mats[0], [S.mats[0]] * 2),
                      ('materials', W.lst(*S.mats[:2]), S.mats[:2])):
        c = W.call(S.CG, mp, m)
        got = None if c is UNDEF else S.parts(c)
        if got is None:
            chk.unknown('parts', 'multi polygon ' + con, repr(c))
            continue
        if len(got) != 2:
            chk.violation('parts', 'multi polygon ' + con, wh,
                          f'{len(got)} instead of 2 parts')
            continue
        for i, x in enumerate(got):
            same(chk, 'kept', f'multi polygon {con} {i}', wh,
                 W.attr(x, 'material'), w[i], W, 'another material')
            affine_same(chk, 'moved', f'multi polygon {con} {i}', wh,
                        S.shape(x), shp.polygon(f'P{i}'), W.st, 'shape')
        n0 = len(W.fr.exits)
        for n in ('reinforced_concrete', 'name', 'group_label'):
            v = W.attr(c, n)
            if v is UNDEF:
                chk.violation('kept', f'multi polygon {con}: {n}', wh,
                              f'{n} is not available')
            else:
                chk.ok('kept', f'multi polygon {con}: {n}')
    chk.seen(I)


def flags(repo, chk):
    """A surface of a concrete material is concrete, whatever else is given;
    any other one if the caller says so."""
    from .matcheck import CONC, CONCRETES, REINF, REINFS, base_args
    for group, cn in [(CONC, c) for c in CONCRETES] + [
            (REINF, c) for c in REINFS]:
        kw, facts = base_args(group, cn)
        for given in ({}, {'name': 'slab'}, {'group_label': 'g'},
                      {'name': 'slab', 'group_label': 'g'},
                      {'concrete': True}, {'concrete': False},
                      {'concrete': True, 'name': 'slab'}):
            S = Scene(repo)
            W, I = S.W, S.I
            for c, t in facts:
                W.st.facts.assume(c, t)
            m = W.call(I.get(f'{group}:{cn}'), **kw)
            g = W.call(S.SG, shp.polygon('P0'), m, **given)
            want = group == CONC or given.get('concrete', False)
            con = f'{cn} {given}'
            same(chk, 'flag', con, where(I, S.SG, 'concrete'),
                 UNDEF if g is UNDEF else W.attr(g, 'concrete'), want, W,
                 'the surface is not concrete as its material is, or as '
                 'given')
            chk.seen(I)


def flatten(g):
    o = []
    while g.args[0] == 'Op' and g.args[2] == 'difference':
        o.append(g.args[4].id)
        g = g.args[3]
    return g.id, sorted(o)


def cut(chk, con, wh, got, want, conds=()):
    """got is want, whatever the order of the differences."""
    if isinstance(got, Node) and got.op == 'ite':
        c, a, b = got.args
        cut(chk, con, wh, a, want, conds + ((c, True),))
        cut(chk, con, wh, b, want, conds + ((c, False),))
        return
    if not shp.is_geo(got) or any(x.op == 'ite' for x in N.walk(got)):
        chk.unknown('cut', con, repr(got)[:200])
        return
    if flatten(got) == flatten(want):
        chk.ok('cut', con)
        return
    if any(x.op == 'geo' and x.args[0] == 'Op' and x.args[2] != 'difference'
           for x in N.walk(got)):
        chk.unknown('cut', con, repr(got)[:200])
        return
    if conds:
        # is the case possible for overlapping shapes?
        m, f = {}, N.Facts()
        base = [x for x in N.walk(want) if x.op == 'geo'
                and x.args[0] == 'Map']
        box = {}
        for x in base:
            box[x.id] = bs = [sym(f'b{x.id}_{k}') for k in range(4)]
            for k in range(4):
                m[N.call(f'bound{k}', x)] = bs[k]
            for k in (0, 1):
                f.assume(N.lt(bs[k], bs[k + 2]), True)
        for p in box.values():
            for q in box.values():
                for k in (0, 1):
                    if p is not q:
                        f.assume(N.lt(p[k], q[k + 2]), True)
        cs = [(N.subst(c, m), t) for c, t in conds]
        if any(x.op in ('call', 'truth', 'unk') for c, _ in cs
               for x in N.walk(c)):
            chk.unknown('cut', con, repr(conds)[:200])
            return
        from .refute import NoValue, evalt, sat, valuations
        if sat(cs, f) is None:
            chk.ok('cut', con)
            return
    chk.violation('cut', con, wh, f'{N.show(got)} instead of {N.show(want)}'
                  + (' in some cases' if conds else ''))


def bars_of(chk, S, con, wh, r, given):
    """The bars added to the parts given; None if not understood."""
    if r is UNDEF and S.W.exits:
        e = S.W.exits[-1]
        chk.violation('bars', con, e.where,
                      f'no bars are placed: {e.value}')
        return None
    got = S.parts(r) if r is not UNDEF and isinstance(r, Ref) else None
    if given and r in given:
        got = [r]
    if got is None:
        chk.unknown('bars', con, repr(r)[:200])
        return None
    W = S.W
    names = {W.attr(x, 'name'): x for x in given}
    new = []
    for p in got:
        q = names.pop(W.attr(p, 'name'), None)
        if q is None:
            new.append(p)
        else:
            kept(chk, S, f'{con}: {W.attr(q, "name")}', wh, p, q, None)
    if names:
        chk.violation('bars', con, wh, f'the parts {sorted(names)} of the '
                      'geometry are lost')
    return new


def no_raise(chk, S, con):
    """No exception for admissible input."""
    for e in S.W.exits:
        if e.value == 'NameError':
            continue
        g = guard_term(e.guard)
        if g is not None and opaque(g):
            chk.unknown('accepted', con, f'{e.value}: {g!r}'[:200])
        elif sat([] if g is None else [(g, True)], e.st.facts) is not None:
            chk.violation('accepted', con, e.where,
                          f'admissible input raises {e.value}')
        else:
            continue
        return
    chk.ok('accepted', con)


def refused(chk, S, con, wh, r):
    bad = [e for e in S.W.exits if e.value != 'ValueError']
    if r is UNDEF and not bad:
        chk.ok('bars', con)
    elif r is UNDEF:
        chk.violation('bars', con, bad[0].where,
                      f'{bad[0].value} instead of ValueError')
    else:
        chk.violation('bars', con, wh, 'bars are placed')


def check_bars(chk, S, con, wh, new, where_, d, m, label):
    W = S.W
    if len(new) != len(where_):
        chk.violation('bars', con, wh, f'{len(new)} instead of '
                      f'{len(where_)} bars')
        return
    for i, (b, (x, y)) in enumerate(zip(new, where_)):
        if S.PG not in W.h(b).cls.mro:
            chk.violation('bars', con, wh, 'not a bar')
            continue
        c = f'{con}: bar {i}'
        same(chk, 'bars', c, wh, W.attr(b, 'diameter'), d, W, 'diameter')
        same(chk, 'bars', c, wh, W.attr(b, 'material'), m, W, 'material')
        same(chk, 'bars', c, wh, W.attr(b, 'group_label'), label, W,
             'group label')
        verdict(chk, 'bars', c, wh, I_area(S, b), div(mul(const(
            __import__('math').pi), mul(d, d)), const(4)), W.st, 'area of the bar')
        affine_same(chk, 'bars', c, wh, S.shape(b), shp.geo('Point', x, y),
                    W.st, 'position of the bar')


def I_area(S, b):
    return S.I._sc(S.W.attr(b, 'area'), S.W.st)


def reinforcement(repo, chk):
    pi = __import__('math').pi
    x1, y1, L, ph, s, d = (sym(n) for n in ('ax', 'ay', 'len', 'phi', 's',
                                            'dia'))
    c, sn = N.call('cos', ph), N.call('sin', ph)
    MOD = f'{PKG}._reinforcement'

    def at(u):
        return add(x1, mul(u, c)), add(y1, mul(u, sn))

    def scene(*facts):
        S = Scene(repo)
        f = S.I.get(f'{MOD}:add_reinforcement_line')
        for v in (L, s, d) + facts:
            S.W.st.facts.assume(N.lt(N.ZERO, v) if v.op == 'sym' else v,
                                True)
        S.hooks.norms = {(mul(L, c), mul(L, sn)): L,
                         (neg(mul(L, c)), neg(mul(L, sn))): L}
        return S, S.W.call
    # one bar
    S, call = scene()
    f = S.I.get(f'{MOD}:add_reinforcement')
    wh = loc(f.module, f.node)
    for con, g in (('surface', S.surf[0]), ('compound', S.comp)):
        r = call(f, g, (x1, y1), d, S.mats[3], group_label='steel')
        given = [g] if con == 'surface' else S.parts(g)
        new = bars_of(chk, S, f'one bar, {con}', wh, r, given)
        if new is not None:
            check_bars(chk, S, f'one bar, {con}', wh, new, [(x1, y1)], d,
                       S.mats[3], 'steel')
    # bars on a line
    third = const(3)
    cases = []
    for n in (1, 2, 4):
        gap = div(L, const(n - 1)) if n > 1 else N.ZERO
        cases.append((f'{n} bars', {'n': const(n)}, [], None,
                      [mul(gap, const(i)) for i in range(n)], (True, True)))
    def some(pos, ends):
        return pos[0 if ends[0] else 1:len(pos) if ends[1] else -1]

    def room(length, lo, hi):
        """The length is between two multiples of the spacing."""
        lo, hi = const(lo), const(hi)
        q = div(length, s)
        return [N.lt(mul(lo, s), length), N.lt(length, mul(hi, s)),
                N.lt(lo, q), N.lt(q, hi)]
    flags = [(True, True), (False, True), (True, False), (False, False)]
    for fl in flags[1:]:
        for n in (2, 4):
            pos = [mul(div(L, const(n - 1)), const(i)) for i in range(n)]
            cases.append((f'{n} bars, ends {fl}', {'n': const(n)}, [], None,
                          some(pos, fl), fl))

    def middle(n):
        return [add(div(sub(L, mul(const(n - 1), s)), const(2)),
                    mul(s, const(i))) for i in range(n)]
    for n in (1, 2, 4):
        for fl in flags if n > 1 else flags[:1]:
            cases.append((f'{n} bars with spacing, ends {fl}', {
                'n': const(n), 's': s}, [N.le(mul(const(n - 1), s), L)],
                None, some(middle(n), fl), fl))
    for n in (1, 2, 4):
        for lo, hi in PARTS:
            for fl in flags if n > 1 else flags[:1]:
                cases.append((
                    f'spacing with {n} bars and {lo} left, ends {fl}',
                    {'s': s}, room(L, n - 1 + lo, n - 1 + hi), True,
                    some(middle(n), fl), fl))
    for con, kw, facts, fl, pos, ends in cases:
        S, call = scene(*facts)
        S.hooks.floors = fl
        f = S.I.get(f'{MOD}:add_reinforcement_line')
        wh = loc(f.module, f.node) + ' add_reinforcement_line'
        r = call(f, S.surf[0], (x1, y1), at(L), d, S.mats[3],
                 first=ends[0], last=ends[1], group_label='steel', **kw)
        no_raise(chk, S, f'line: {con}')
        new = bars_of(chk, S, f'line: {con}', wh, r, [S.surf[0]])
        if new is not None:
            check_bars(chk, S, f'line: {con}', wh, new,
                       [at(p) for p in pos], d, S.mats[3], 'steel')
        chk.seen(S.I)
    # no room: an error
    for con, kw in (('no room', {'n': const(4), 's': s}), ('nothing given', {})):
        S, call = scene(N.lt(L, mul(const(3), s)))
        f = S.I.get(f'{MOD}:add_reinforcement_line')
        wh = loc(f.module, f.node) + ' add_reinforcement_line'
        r = call(f, S.surf[0], (x1, y1), at(L), d, S.mats[3], **kw)
        refused(chk, S, 'line: ' + con, wh, r)
    # bars on a circle
    R, a0, a1 = sym('R'), sym('a0'), sym('a1')

    def on(a):
        return (add(x1, mul(R, N.call('cos', a))),
                add(y1, mul(R, N.call('sin', a))))
    two = const(2 * pi)
    span = sub(a1, a0)
    arc = [N.lt(N.ZERO, span), N.lt(mul(R, span), mul(R, const(6)))]
    cases = []
    for n in (1, 3, 4):
        cases.append((f'{n} bars, whole', {'n': const(n)}, [], None,
                      [mul(div(two, const(n)), const(i)) for i in range(n)],
                      (True, True)))
    for n in (2, 4):
        for fl in flags:
            pos = [add(a0, mul(div(span, const(n - 1)), const(i)))
                   for i in range(n)]
            cases.append((f'{n} bars on an arc, ends {fl}', {
                'n': const(n), 'start_angle': a0, 'stop_angle': a1}, arc,
                None, some(pos, fl), fl))
    sa = div(s, R)

    def middle(n):
        return [add(add(a0, div(sub(span, mul(const(n - 1), sa)), const(2))),
                    mul(sa, const(i))) for i in range(n)]
    for n in (1, 2, 4):
        for fl in flags if n > 1 else flags[:1]:
            cases.append((f'{n} bars with spacing on an arc, ends {fl}', {
                'n': const(n), 's': s, 'start_angle': a0, 'stop_angle': a1},
                arc + [N.lt(mul(const(n - 1), s), mul(R, span))], None,
                some(middle(n), fl), fl))
            for lo, hi in PARTS:
                cases.append((
                    f'spacing on an arc with {n} bars and {lo} left, ends '
                    f'{fl}', {'s': s, 'start_angle': a0, 'stop_angle': a1},
                    arc + room(mul(R, span), n - 1 + lo, n - 1 + hi), True,
                    some(middle(n), fl), fl))
    # around the whole circle
    mid = [add(div(sub(two, mul(const(4), sa)), const(2)), mul(sa, const(i)))
           for i in range(4)]
    cases.append(('4 bars with spacing, whole', {'n': const(4), 's': s},
                  [N.lt(mul(const(4), s), mul(R, two))], None, mid,
                  (True, True)))
    mid = [add(div(sub(two, mul(const(3), sa)), const(2)), mul(sa, const(i)))
           for i in range(4)]
    # the tolerance of the code for a spacing that fits is far below this
    for lo, hi in (
            (3 + a, 3 + b) for a, b in PARTS):
        for fl in flags:
            cases.append((f'spacing {lo}, whole, ends {fl}', {'s': s}, room(
                mul(R, two), lo, hi) + [N.lt(N.ONE, s)], True,
                some(mid, fl), fl))
    cases.append(('spacing that fits, whole', {'s': div(mul(R, two),
                                                        const(4))},
                  [], True, [mul(div(two, const(4)), const(i))
                             for i in range(4)], (True, True)))
    for con, facts in (
            ('stop before start', [N.lt(a1, a0)]),
            ('no arc', []),
            ('more than a turn', [N.lt(const(6.3), span)]),
            ('no room', arc + [N.lt(mul(R, span), mul(const(3), s))]),
            ('nothing given', arc)):
        for kw in ({'n': const(4), 's': s}, {'n': const(4)}, {'s': s}, {}):
            if con == 'no room' and len(kw) < 2 or (
                    con == 'nothing given') != (not kw):
                continue
            S, call = scene(R, *facts)
            f = S.I.get(f'{MOD}:add_reinforcement_circle')
            wh = loc(f.module, f.node) + ' add_reinforcement_circle'
            r = call(f, S.surf[0], (x1, y1), R, d, S.mats[3], start_angle=a0,
                     stop_angle=a0 if con == 'no arc' else a1, **kw)
            refused(chk, S, f'circle: {con} {"".join(kw)}', wh, r)
    for con, kw, facts, fl, pos, ends in cases:
        S, call = scene(R, *facts)
        S.hooks.floors = fl
        f = S.I.get(f'{MOD}:add_reinforcement_circle')
        wh = loc(f.module, f.node) + ' add_reinforcement_circle'
        r = call(f, S.surf[0], (x1, y1), R, d, S.mats[3],
                 first=ends[0], last=ends[1], group_label='steel', **kw)
        no_raise(chk, S, f'circle: {con}')
        new = bars_of(chk, S, f'circle: {con}', wh, r, [S.surf[0]])
        if new is not None:
            check_bars(chk, S, f'circle: {con}', wh, new,
                       [on(p) for p in pos], d, S.mats[3], 'steel')
        chk.seen(S.I)


def shapes(repo, chk):
    S = Scene(repo)
    W, I = S.W, S.I
    w, h, ox, oy, d = (sym(n) for n in ('w', 'h', 'ox', 'oy', 'dia'))
    for v in (w, h, d):
        W.st.facts.assume(N.lt(N.ZERO, v), True)
    C = I.get(f'{PKG}._rectangular:RectangularGeometry')
    wh = where(I, C, '__init__')
    for con, kw, (x, y) in (('origin', {'origin': (ox, oy)}, (ox, oy)),
                            ('default', {}, (N.ZERO, N.ZERO))):
        g = W.call(C, w, h, S.mats[0], concrete=True, name='r',
                   group_label='g', **kw)
        if g is UNDEF:
            chk.unknown('shape', 'rectangle', con)
            continue
        p = S.shape(g)
        hw, hh = div(w, const(2)), div(h, const(2))
        want = {(i, j): (add(x, mul(const(i), hw)), add(y, mul(const(j), hh)))
                for i in (-1, 1) for j in (-1, 1)}
        corners(chk, S, f'rectangle {con}', wh, p, want)
        for n, v in (('width', w), ('height', h), ('name', 'r'),
                     ('group_label', 'g'), ('concrete', True),
                     ('material', S.mats[0])):
            same(chk, 'shape', f'rectangle {con}: {n}', wh, W.attr(g, n), v,
                 W, f'{n} is not the one given')
    C = I.get(f'{PKG}._circular:CircularGeometry')
    wh = where(I, C, '__init__')
    for con, kw, (x, y) in (('origin', {'origin': (ox, oy)}, (ox, oy)),
                            ('default', {}, (N.ZERO, N.ZERO))):
        g = W.call(C, d, S.mats[0], concrete=True, name='r',
                   group_label='g', n_points=const(40), **kw)
        if g is UNDEF:
            chk.unknown('shape', 'circle', con)
            continue
        p = S.shape(g)
        if shp.is_geo(p) and p.args[0] == 'Op' and p.args[2] == 'buffer':
            affine_same(chk, 'shape', f'circle {con}', wh, p.args[3],
                        shp.geo('Point', x, y), W.st, 'centre')
            verdict(chk, 'shape', f'circle {con}', wh, p.args[4], div(
                d, const(2)), W.st, 'radius')
        else:
            chk.unknown('shape', f'circle {con}', repr(p)[:200])
        for n, v in (('radius', div(d, const(2))), ('diameter', d),
                     ('name', 'r'), ('group_label', 'g'), ('concrete', True),
                     ('material', S.mats[0])):
            same(chk, 'shape', f'circle {con}: {n}', wh, W.attr(g, n), v, W,
                 f'{n} is not the one given')
    chk.seen(I)


def corners(chk, S, con, wh, p, want):
    """A ring through the four corners, in order around the rectangle."""
    if not shp.is_geo(p) or p.args[0] != 'Polygon' or p.args[2]:
        chk.unknown('shape', con, repr(p)[:200])
        return
    pts = p.args[1][:-1]
    order = []
    for q in pts:
        k = [k for k, c in want.items() if all(
            N.equal(a, b, S.W.st.facts) for a, b in zip(q, c))]
        order.append(k[0] if k else None)
    if None in order:
        q = pts[order.index(None)]
        for a in (0, 1):
            ws = [v[a] for v in want.values()]
            if not any(N.equal(q[a], v, S.W.st.facts) for v in ws):
                verdict(chk, 'shape', con, wh, q[a], ws[0], S.W.st,
                        'not a corner of the rectangle')
                return
        chk.unknown('shape', con, repr(q)[:200])
        return
    good = len(order) == 4 and len(set(order)) == 4 and all(
        (a[0] == b[0]) != (a[1] == b[1]) for a, b in zip(
            order, order[1:] + order[:1]))
    if good:
        chk.ok('shape', con)
    else:
        chk.violation('shape', con, wh, f'the corners are {order}')


def splitting(repo, chk):
    # the line through a point
    x, y, th = sym('px'), sym('py'), sym('theta')
    c, s = N.call('cos', th), N.call('sin', th)
    small = const(1e-8)
    for con, facts in (('inclined', [N.lt(small, N.fabs(c))]),
                       ('near-vertical', [N.le(N.fabs(c), small),
                                          N.lt(const(0.5), N.fabs(s))])):
        S = Scene(repo)
        W, I = S.W, S.I
        for a in facts:
            W.st.facts.assume(a, True)
        box = tuple(sym(f'b{i}') for i in range(4))
        for i in (0, 1):
            W.st.facts.assume(N.lt(box[i], box[i + 2]), True)
        f = I.get(f'{GEOM}:create_line_point_angle')
        wh = loc(f.module, f.node) + ' create_line_point_angle'
        g = W.call(f, (x, y), th, box)
        if g is UNDEF or not shp.is_geo(g) or g.args[0] != 'LineString' \
                or len(g.args[1]) != 2:
            chk.unknown('line', con, repr(g)[:200])
            continue
        (xa, ya), (xb, yb) = g.args[1]
        for k, (p, q) in enumerate(g.args[1]):
            verdict(chk, 'line', f'{con}: through the point {k}', wh,
                    sub(mul(sub(p, x), s), mul(sub(q, y), c)), N.ZERO, W.st,
                    'the line does not pass through the point at the angle')
        k = 0 if con == 'inclined' else 1
        a, b = ((xa, xb), (ya, yb))[k]
        for nm, lo, hi in (('start', a, box[k]), ('end', box[k + 2], b)):
            cc = f'{con}: {nm}'
            d = W.st.facts.decide(N.lt(lo, hi))
            if d is True:
                chk.ok('line', cc)
            else:
                from .refute import NoValue, evalt, sat, valuations
                fb = N.Facts()
                for i in (0, 1):
                    fb.assume(N.lt(box[i], box[i + 2]), True)
                own = all(v in box for q in (lo, hi) for v in N.walk(q)
                          if v.op == 'sym')
                w = sat([(N.lt(lo, hi), False)], fb if own else
                        W.st.facts)
                if w is None:
                    chk.unknown('line', cc, f'{lo!r} {hi!r}')
                else:
                    chk.violation('line', cc, wh, 'the line does not cross '
                                  'the whole bounding box')
        chk.seen(I)
    # parts above and below a line
    xa, ya, xb, yb = (sym(n) for n in ('xa', 'ya', 'xb', 'yb'))
    line = shp.geo('LineString', ((xa, ya), (xb, yb)))

    def side(p):
        cx, cy = shp.centroid(p)
        return sub(mul(sub(xb, xa), sub(cy, ya)),
                   mul(sub(yb, ya), sub(cx, xa)))
    Q = [shp.polygon('Q0'), shp.polygon('Q1')]
    for up in ((True, False), (False, True), (True, True), (False, False)):
        for hit in (True, False):
            S = Scene(repo)
            W, I = S.W, S.I
            parts = Q if hit else [S.shape(S.surf[0])]
            for p, u in zip(parts, up):
                W.st.facts.assume(N.lt(N.ZERO, side(p)) if u else N.lt(
                    side(p), N.ZERO), True)
            t = N.mk('truth', N.call('intersects', line,
                                     S.shape(S.surf[0])))
            W.st.facts.assume(t, hit)
            con = f'{"cut" if hit else "not cut"} {up}'
            wh = where(I, S.SG, 'split')
            r = W.method(S.surf[0], 'split', line)
            r = None if r is UNDEF else I.iterate(r, W.fr, W.st, None)
            ls = [I.iterate(v, W.fr, W.st, None) for v in r] if r else []
            if len(ls) != 2 or None in ls:
                chk.unknown('split', con, repr(r)[:200])
                continue
            for i, nm in ((0, 'above'), (1, 'below')):
                w = [p for p, u in zip(parts, up) if u == (i == 0)]
                if [v.id if isinstance(v, Node) else 0 for v in ls[i]] == [
                        v.id for v in w]:
                    chk.ok('split', f'{con} {nm}')
                elif all(shp.is_geo(v) for v in ls[i]) and set(
                        v.id for v in ls[i]) != set(v.id for v in w):
                    chk.violation('split', f'{con} {nm}', wh,
                                  f'the parts {nm} the line are '
                                  f'{[N.show(v) for v in ls[i]]}')
                else:
                    chk.unknown('split', f'{con} {nm}', repr(ls[i])[:200])
            chk.seen(I)


def c16(repo, chk):
    reinforcement(repo, chk)
    shapes(repo, chk)
    splitting(repo, chk)
    flags(repo, chk)
    transforms(repo, chk)
    combine(repo, chk)
    chk.minimum = 100
