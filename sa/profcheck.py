"""Rules over the steel profiles (C24)."""

from __future__ import annotations

import math
import re
from fractions import Fraction

from . import linear, shp
from . import nodes as N
from .geocheck import N_max, affine_same
from .grosscheck import MOMENTS, eig, moved, principal_of
from .intcheck import interp
from .interp import HDict, Ref, UNDEF
from .lawcheck import verdict
from .marincheck import moment_hook
from .models import moment
from .nodes import Node, add, const, div, mul, neg, power, sub, sym
from .repo import AnalysisBroken, loc
from .util import World, flat

PKG = 'structuralcodes.geometry.profiles'
PNA_Y, PNA_Z = sym('pna_y'), sym('pna_z')
BOX = tuple(sym(f'box{i}') for i in range(4))
P = shp.polygon('P')
# the parts of P above and below its two plastic neutral axes
PARTS = {'y': ('ya', 'yb', 'yc'), 'z': ('za', 'zb', 'zc')}
UP = {'ya': True, 'yb': True, 'yc': False, 'za': True, 'zb': False,
      'zc': False}
CUT = sym('level')
QUARTER = {0: (1, 0), 90: (0, 1), 180: (-1, 0), 270: (0, -1)}


def corners(name, k=4):
    return [(sym(f'{name}y{i}'), sym(f'{name}z{i}')) for i in range(k)]


def axis_image(A):
    """Level of the horizontal plastic axis of the image of P under A."""
    d, e, yo = A[2], A[3], A[5]
    if N.same(d, N.ZERO):
        return add(mul(e, PNA_Y), yo), 'y'
    if N.same(e, N.ZERO):
        return add(mul(d, PNA_Z), yo), 'z'
    return None


class Prof:
    """One interpreter with the model of a profile's polygon."""

    def __init__(self, repo, pna=True, delta=False, creators=True,
                 swap=False, box=None):
        self.lines, self.made = [], []
        self.asked = 0
        self.exact = None
        self.pna, self.delta, self.creators = pna, delta, creators
        self.I = I = interp(repo, {'call': self.call, 'ext': self.ext,
                                   'node_attr': self.node_attr})
        I.eig_used, I.eig_swap = False, swap
        self.W = W = World(I)
        self.box = b = BOX if box is None else tuple(const(x) for x in box)
        for x, y in ((b[0], b[2]), (b[1], b[3]), (b[1], PNA_Y),
                     (PNA_Y, b[3]), (b[0], PNA_Z), (PNA_Z, b[2]),
                     (b[0], N.ZERO), (N.ZERO, b[2]), (b[1], N.ZERO),
                     (N.ZERO, b[3])):
            W.st.facts.assume(N.lt(x, y), True)

    # ------------------------------------------------------------- hooks
    def call(self, I, f, args, kw, node, fr, st):
        if f.name == 'marin_integration':
            return moment_hook(I, f, args, kw, node, fr, st)
        if self.creators and f.name.startswith('_create_') and (
                f.module.name.startswith(PKG)) and f.cls is None:
            names = [a.arg for a in f.node.args.args]
            b = dict(zip(names, args))
            b.update(kw)
            b = {k: I._sc(v, st) for k, v in b.items()}
            key = (f.name, tuple(sorted((k, N.show(v) if isinstance(v, Node)
                                         else repr(v))
                                        for k, v in b.items())))
            self.made.append((f.name, b, loc(fr.module, node)))
            return [shp.polygon(repr(key))]
        if self.pna and f.name == '_find_plastic_neutral_axis_y':
            g = self.subject(args, st)
            r = axis_image(g.args[3]) if g is not None else None
            self.asked += r is not None
            return [r[0]] if r else [N.fresh('axis')]
        if self.delta and f.name == '_find_delta_area_above_minus_below':
            names = [a.arg for a in f.node.args.args]
            b = dict(zip(names, args))
            b.update(kw)
            if self.subject(args[:1], st) is P and 'z' in b:
                z = I._sc(b['z'], st)
                if self.exact is not None:
                    return [mul(const(1000), sub(const(self.exact), z))]
                F = N.call('excess', z)
                st.facts.assume(N.lt(N.ZERO, F), True)
                return [N.ite(N.lt(z, PNA_Y), F, N.ite(
                    N.lt(PNA_Y, z), neg(F), N.ZERO))]
        return None

    def subject(self, args, st):
        """The polygon a helper works on."""
        for a in args[1:]:
            if shp.is_geo(a):
                return a if a.args[0] == 'Map' else None
        if args and isinstance(args[0], Ref):
            g = self.I.h(st, args[0]).fields.get('_polygon')
            if shp.is_geo(g) and g.args[0] == 'Map' and g.args[2] == 'P':
                return g
        return None

    def ext(self, I, path, args, kw, node, fr, st):
        r = eig(I, path, args, kw, node, fr, st)
        if r is not None or not path.startswith('shapely'):
            return r
        n = path.split('.')[-1]
        if n == 'rotate':
            g = args[0] if args else kw.get('geom')
            a = list(args[1:])
            an = I._sc(a[0] if a else kw.get('angle'), st)
            o = a[1] if len(a) > 1 else kw.get('origin', 'center')
            rad = a[2] if len(a) > 2 else kw.get('use_radians', False)
            if shp.is_geo(g) and N.finite(an):
                v = N.cval(an)
                v = v * 180 / Fraction(math.pi) if rad else v
                q = round(float(v)) % 360
                if q in QUARTER and abs(v - round(float(v))) < 1e-9:
                    c, s = (const(x) for x in QUARTER[q])
                    o = I.iterate(o, fr, st, node) if not isinstance(
                        o, str) and not shp.is_geo(o) else None
                    if o is not None:
                        x, y = (I._sc(t, st) for t in o[:2])
                        return shp.transform(g, (
                            c, neg(s), s, c,
                            sub(x, sub(mul(c, x), mul(s, y))),
                            sub(y, add(mul(s, x), mul(c, y)))))
        if n == 'split' and len(args) == 2:
            return self.split(args[0], args[1], st, loc(fr.module, node))
        return None

    def split(self, g, line, st, wh):
        if not (shp.is_geo(g) and g.args[0] == 'Map' and g.args[2] == 'P'
                and shp.is_geo(line) and line.args[0] == 'LineString'
                and len(line.args[1]) == 2):
            return None
        (xa, ya), (xb, yb) = line.args[1]
        self.lines.append((g, line, st, wh))
        A = g.args[3]
        w = axis_image(A)
        if w is not None and N.equal(ya, w[0], st.facts) and N.equal(
                yb, w[0], st.facts):
            return shp.geo('MultiPolygon', tuple(shp.geo(
                'Map', 'Polygon', t, A) for t in PARTS[w[1]]))
        if A == shp.ID and N.same(ya, CUT) and N.same(yb, CUT):
            return shp.geo('MultiPolygon', tuple(shp.polygon(t)
                                                 for t in PARTS['y']))
        return None

    def node_attr(self, I, o, name, node, fr, st):
        if not shp.is_geo(o):
            return None
        if name == 'exterior' and o.args[0] == 'Map':
            return shp.geo('Ring', shp.ring(
                shp.app(o.args[3], p) for p in corners(o.args[2])))
        if name == 'bounds' and o.args[0] == 'Map' and o.args[2] == 'P':
            A = o.args[3]
            out = []
            for r, t in (((A[0], A[1]), A[4]), ((A[2], A[3]), A[5])):
                nz = [i for i in (0, 1) if not N.same(r[i], N.ZERO)]
                if len(nz) != 1 or not N.finite(r[nz[0]]):
                    return None
                i, k = nz[0], r[nz[0]]
                v = [add(mul(k, self.box[i]), t),
                     add(mul(k, self.box[i + 2]), t)]
                out.append(v if N.cval(k) > 0 else v[::-1])
            return (out[0][0], out[1][0], out[0][1], out[1][1])
        if name == 'is_ccw' and o.args[0] == 'Ring' and len(o.args[1]) == 4:
            (ax, ay), (bx, by), (cx, cy) = o.args[1][:3]
            return N.lt(N.ZERO, sub(mul(sub(bx, ax), sub(cy, ay)),
                                    mul(sub(by, ay), sub(cx, ax))))
        return None

    # ----------------------------------------------------------- profiles
    def profile(self, cls):
        """An instance with the model polygon."""
        name = next(iter(table(self, cls)))
        o = self.W.call(cls, name)
        if not isinstance(o, Ref):
            raise AnalysisBroken(f'{cls.name}({name}) fails')
        self.W.h(o).fields['_polygon'] = P
        return o


def table(S, cls):
    t = S.W.attr(cls, 'parameters')
    o = S.W.h(t) if isinstance(t, Ref) else None
    if not isinstance(o, HDict) or not o.items:
        raise AnalysisBroken(f'no table of {cls.name}')
    out = {}
    for k, v in o.items.items():
        d = S.W.h(v) if isinstance(v, Ref) else None
        if not isinstance(d, HDict):
            raise AnalysisBroken(f'table of {cls.name}: {k}')
        out[k] = dict(d.items)
    return out


def classes(S, repo):
    """The profile classes of the package."""
    from .interp import Cls
    base = S.I.get(f'{PKG}._base_profile:BaseProfile')
    out = []
    import ast
    for name, m in sorted(repo.modules.items()):
        if not name.startswith(PKG + '.'):
            continue
        for x in m.tree.body:
            if isinstance(x, ast.ClassDef):
                c = S.I.get(f'{name}:{x.name}')
                if isinstance(c, Cls) and base in c.mro and c is not base:
                    out.append(c)
    return base, out


def at(cls, name):
    f, o = cls.lookup(name)
    if f is None or not hasattr(f, 'node'):
        return loc(cls.module, cls.node)
    return f'{loc(f.module, f.node)} {cls.name}.{name}'


def eq(a, b):
    return a is b or (isinstance(a, Node) and isinstance(b, Node) and
                      N.same(a, b))


# ------------------------------------------------------- designations
SLOPES = {'IPN': lambda d: Fraction(14, 100),
          'UPN': lambda d: Fraction(8, 100) if d['h'] <= 300 else
          Fraction(5, 100),
          'U': lambda d: Fraction(8, 100)}
REACH = {'UPN': lambda d: d['b'] / 2 if d['h'] <= 300 else
         (d['b'] - d['tw']) / 2,
         'U': lambda d: d['b'] / 2}


def fails(W, n0):
    """What is raised since the exits were n0."""
    return [e.value for e in W.exits[n0:]]


def designations(repo, chk, S, cls):
    W, I = S.W, S.I
    T = table(S, cls)
    before = flat(W, W.attr(cls, 'parameters'))
    made = {}
    for name, d in T.items():
        con = f'{cls.name} {name}'
        n0 = len(W.exits)
        o = W.call(cls, name)
        g = W.method(cls, 'get_polygon', name)
        if not isinstance(o, Ref) or not shp.is_geo(g):
            ex = fails(W, n0)
            (chk.violation('designation', con, at(cls, '__init__'),
                           f'fails: {ex}') if ex else
             chk.unknown('designation', con, f'{o!r} {g!r}'))
            continue
        p = W.attr(o, 'polygon')
        if not shp.is_geo(p):
            chk.unknown('designation', con, repr(p))
        elif p is g:
            chk.ok('designation', f'{con} polygon')
        else:
            chk.violation('designation', con, at(cls, 'get_polygon'),
                          'get_polygon does not give the polygon of the '
                          f'profile: {N.show(g)} / {N.show(p)}'[:300])
        made[name] = p
        for k, v in d.items():
            f, _ = cls.lookup(k)
            if f is None:
                continue
            verdict(chk, 'designation', f'{con} {k}', at(cls, k),
                    I._sc(W.attr(o, k), W.st), I._sc(v, W.st), W.st,
                    f'{k} is not the one of the table')
    # what the shapes are made of
    for (fn, b, wh), name in zip(S.made, [n for n in T for _ in (0, 1)]):
        d = T[name]
        num = {k: N.cval(I._sc(v, W.st)) for k, v in d.items()}
        want = dict(num)
        if 't' in num:
            want['t1'] = want['t2'] = num['t']
        if cls.name in SLOPES:
            want['slope'] = SLOPES[cls.name](num)
        if cls.name in REACH:
            want['u'] = REACH[cls.name](num)
        for k, v in b.items():
            con = f'{cls.name} {name}: {k} of the shape'
            if k not in want:
                chk.unknown('shape', con, f'{fn}({k}=)')
            elif not N.finite(v):
                chk.unknown('shape', con, repr(v))
            elif abs(N.cval(v) - want[k]) <= 1e-9 * max(1, abs(want[k])):
                chk.ok('shape', con)
            else:
                chk.violation('shape', con, wh, f'made with {k} = '
                              f'{float(N.cval(v)):g} instead of '
                              f'{float(want[k]):g}')
    # numbers instead of names
    given = 0
    for name in T:
        m = re.fullmatch(re.escape(cls.name) + r'(\d+)', name)
        if m is None:
            continue
        for kind in (int, float):
            v = const(int(m[1]))
            I.opts['numbers'] = kind
            n0 = len(W.exits)
            g = W.method(cls, 'get_polygon', v)
            o = W.call(cls, v)
            p = W.attr(o, 'polygon') if isinstance(o, Ref) else None
            if not given and fails(W, n0) == ['ValueError'] * 2:
                break       # names only
            given += 1
            con = f'{cls.name}({kind(int(m[1]))})'
            if g is made.get(name) and p is g:
                chk.ok('number', con)
            elif shp.is_geo(g) and shp.is_geo(p):
                chk.violation('number', con, at(cls, '__init__'),
                              f'not the profile {name}')
            elif fails(W, n0):
                chk.violation('number', con, at(cls, '__init__'),
                              f'fails: {fails(W, n0)}')
            else:
                chk.unknown('number', con, f'{g!r} {p!r}')
        if not given:
            break
    # unknown names
    for what, f in (('profile', lambda: W.call(cls, 'no such profile')),
                    ('get_polygon', lambda: W.method(
                        cls, 'get_polygon', 'no such profile'))):
        n0 = len(W.exits)
        r = f()
        con = f'{cls.name}: {what} of an unknown name'
        if r is UNDEF and fails(W, n0) == ['ValueError']:
            chk.ok('unknown name', con)
        elif r is UNDEF or isinstance(r, Ref) or shp.is_geo(r):
            chk.violation('unknown name', con, at(cls, '__init__'),
                          f'{fails(W, n0) or "a result"} instead of a '
                          'ValueError')
        else:
            chk.unknown('unknown name', con, repr(r))
    r = W.method(cls, 'profiles')
    names = r
    if isinstance(r, Ref):
        names = getattr(W.h(r), 'items', None)
        names = list(names) if isinstance(names, (tuple, list, dict)) else None
    if names is None:
        chk.unknown('names', cls.name, repr(r))
    elif list(names) == list(T):
        chk.ok('names', cls.name)
    elif set(names) == set(T) and len(names) == len(T):
        chk.ok('names', cls.name)
    else:
        chk.violation('names', cls.name, at(cls, 'profiles'),
                      'not the names of the table')
    if flat(W, W.attr(cls, 'parameters')) == before:
        chk.ok('table kept', cls.name)
    else:
        chk.violation('table kept', cls.name, at(cls, 'get_polygon'),
                      'the table changes')
    data(chk, S, cls, T)


# -------------------------------------------------------- table data
def data(chk, S, cls, T):
    """The table agrees with its own designations."""
    wh = at(cls, 'parameters')
    series = {}
    for name, d in T.items():
        v = {k: float(N.cval(S.I._sc(x, S.W.st))) for k, x in d.items()}
        con = f'{cls.name} {name}'
        bad = [k for k, x in v.items() if x <= 0]
        if 'tw' in v and not 2 * v['tf'] < v['h']:
            bad.append('tf')
        if 'tw' in v and not v['tw'] < v['b']:
            bad.append('tw')
        num = [float(x) for x in re.findall(r'[\d.]+', name)]
        if cls.name in ('L', 'LI', 'U'):
            size = [v['h'], v['b']] + ([v['t']] if 't' in v else [])
            if num != size:
                bad.append('size')
        elif cls.name in ('IPE', 'IPN', 'UPE', 'UPN'):
            if num != [v['h']]:
                bad.append('h')
        elif 'x' in name and 'r' in v and cls.name not in ('UPE',):
            A = (2 * v['b'] * v['tf'] + (v['h'] - 2 * v['tf']) * v['tw']
                 + (4 - math.pi) * v['r'] ** 2)
            if abs(A * 7.85e-3 / num[-1] - 1) > 0.035:
                bad.append('mass')
        if bad:
            chk.violation('data', con, wh, 'the dimensions disagree with the '
                          f'designation: {", ".join(bad)}')
        else:
            chk.ok('data', con)
        if 'x' in name and cls.name != 'U':
            k = (v['h'], v['b']) if 't' in v else name.rsplit('x', 1)[0]
            series.setdefault(k, []).append(
                (name, tuple(v[r] for r in ('r', 'r1', 'r2') if r in v)))
    for k, l in series.items():
        n = {}
        for name, r in l:
            n.setdefault(r, []).append(name)
        con = f'{cls.name} series {k}'
        if len(n) == 1:
            chk.ok('data', con)
        else:
            odd = min(n.items(), key=lambda x: len(x[1]))
            chk.violation('data', con, wh, f'{odd[1]} with radius {odd[0]} '
                          'differ from the other profiles of the series')


# -------------------------------------------------- section properties
def expected(name):
    """The property from the vertices of the polygon."""
    R = shp.ring(corners('P'))
    if name == 'A':
        return moment(R, 0, 0)
    if name == 'Iy':
        return moment(R, 0, 2)
    if name == 'Iz':
        return moment(R, 2, 0)
    if name == 'Iyz':
        return moment(R, 1, 1)
    if name in ('Wely', 'Welz'):
        i = 1 if name == 'Wely' else 0
        far = N_max(N.fabs(BOX[i]), N.fabs(BOX[i + 2]))
        return div(expected('Iy' if i else 'Iz'), far)
    if name in ('iy', 'iz'):
        return power(div(expected('I' + name[1]), expected('A')),
                     const(Fraction(1, 2)))
    ax = name[-1]           # Wply, Wplz: first moments of the parts
    tot = N.ZERO
    for t in PARTS[ax]:
        if ax == 'y':
            pts = [(y, sub(z, PNA_Y)) for y, z in corners(t)]
            m = moment(shp.ring(pts), 0, 1)
        else:
            pts = [(sub(y, PNA_Z), z) for y, z in corners(t)]
            m = moment(shp.ring(pts), 1, 0)
        tot = add(tot, N.fabs(m))
    return tot


SIMPLE = ('A', 'Iy', 'Iz', 'Iyz', 'Wely', 'Welz', 'iy', 'iz', 'Wply', 'Wplz')
TEXT = {'A': 'not the area', 'Iy': 'not the second moment of the area',
        'Iz': 'not the second moment of the area',
        'Iyz': 'not the product moment of the area',
        'Wely': 'not the moment over the largest distance',
        'Welz': 'not the moment over the largest distance',
        'iy': 'not the radius of gyration', 'iz': 'not the radius of '
        'gyration', 'Wply': 'not the first moments of the two halves',
        'Wplz': 'not the first moments of the two halves'}


def ok_value(v):
    return isinstance(v, Node) and not any(
        x.op in ('unk', 'maybe_undef') for x in N.walk(v))


def properties(repo, chk, pth, label):
    S = Prof(repo)
    W, I = S.W, S.I
    cls = I.get(pth)
    alone = {}
    for n in SIMPLE:
        o = S.profile(cls)
        k = len(S.lines)
        n0 = len(W.exits)
        v = I._sc(W.attr(o, n), W.st)
        con = f'{label}.{n}'
        alone[n] = v
        if not isinstance(v, Node):
            ex = fails(W, n0)
            if v is UNDEF and ex and set(ex) <= {
                    'AttributeError', 'NameError', 'TypeError',
                    'UnboundLocalError'}:
                chk.violation('property', con, at(cls, n), f'fails: {ex}')
            else:
                chk.unknown('property', con, repr(v))
            continue
        value(chk, S, con, at(cls, n), n, v)
        spans(chk, S, con, S.lines[k:])
        if S.asked:
            halves(chk, con, S.lines[k:])
        S.asked = 0
        kept(chk, S, con, at(cls, n), o)
    chk.seen(I)
    # any order of the queries, on one object
    for order in (SIMPLE, SIMPLE[::-1]):
        o = S.profile(cls)
        for n in order:
            v = I._sc(W.attr(o, n), W.st)
            con = f'{label}.{n} after ' + ('others' if order is SIMPLE else
                                           'later ones')
            w = alone[n]
            again = I._sc(W.attr(o, n), W.st)
            for c, x in ((con, v), (con + ' again', again)):
                if eq(x, w):
                    chk.ok('history', c)
                elif isinstance(x, Node) and isinstance(w, Node):
                    verdict(chk, 'history', c, at(cls, n), x, w, W.st,
                            'the answer depends on earlier queries')
                else:
                    chk.unknown('history', c, f'{x!r} {w!r}')
        kept(chk, S, f'{label} after all queries', at(cls, '__init__'), o)


def image_of(ring):
    """(name, A, winding) if the ring is the image of known corners."""
    t = {x.args[0] for p in ring for c in p for x in N.walk(c)
         if x.op == 'sym'}
    t = {m[1] for m in (re.fullmatch(r'(P|[yz][abc])[yz]\d', x)
                        for x in t) if m}
    if len(t) != 1:
        return None
    t = t.pop()
    c = corners(t, len(ring))
    y, z = c[0]
    k = next((i for i, p in enumerate(ring) if any(
        x in (y, z) for q in p for x in N.walk(q))), None)
    if k is None:
        return None
    A = []
    for q in ring[k]:
        a, b = N.diff(q, y), N.diff(q, z)
        A.append((a, b, sub(q, add(mul(a, y), mul(b, z)))))
    A = (A[0][0], A[0][1], A[1][0], A[1][1], A[0][2], A[1][2])
    r = ring[k:] + ring[:k]
    for w, o in ((1, c), (-1, c[:1] + c[:0:-1])):
        if all(N.nf_equal(u, v) for p, q in zip(r, o) for u, v in zip(
                p, shp.app(A, q))):
            return t, A, w
    return None


INDEX = {(0, 0): 0, (1, 0): 1, (0, 1): 2, (2, 0): 3, (1, 1): 4, (0, 2): 5}


def base_form(v):
    """Area moments written by those of the corners as they are (ccw)."""
    to = {}
    for x in N.walk(v):
        if x.op != 'call' or x.args[0] != 'M':
            continue
        r = image_of(tuple(x.args[1]))
        i = INDEX.get((int(N.cval(x.args[2])), int(N.cval(x.args[3]))))
        if r is None or i is None:
            continue
        t, A, w = r
        ar = N.call('area', t)
        b = [ar, mul(ar, N.call('cx', t)), mul(ar, N.call('cy', t))] + [
            N.call(m, t) for m in MOMENTS[3:]]
        d = shp.det(A)
        if not N.finite(d):
            continue
        m = moved(A, b)[i]
        to[x] = m if (N.cval(d) > 0) is (w > 0) else neg(m)
    return N.subst(v, to) if to else v


def value(chk, S, con, wh, n, v):
    v, w = base_form(v), base_form(expected(n))
    verdict(chk, 'property', con, wh, v, w, S.W.st, TEXT[n])


def kept(chk, S, con, wh, o):
    p = S.W.h(o).fields.get('_polygon')
    if not shp.is_geo(p):
        chk.unknown('polygon kept', con, repr(p))
    else:
        affine_same(chk, 'polygon kept', con, wh, p, P, S.W.st,
                    'the polygon of the profile changes')


def spans(chk, S, con, lines):
    """A cutting line crosses the whole polygon."""
    for k, (g, ln, st, wh) in enumerate(lines):
        (xa, ya), (xb, yb) = ln.args[1]
        b = S.I.getattr(g, 'bounds', S.W.fr, st, None)
        c = N.and_(N.lt(xa, b[0]), N.lt(b[2], xb))
        if isinstance(c, bool):
            c = N.const(c)
        cc = f'{con}: line {k}'
        if linear.prove(cases(st.facts, c), c):
            chk.ok('cut', cc)
        else:
            verdict(chk, 'cut', cc, wh, N.ite(c, N.ONE, N.ZERO),
                    N.ONE, st, 'the cut may not reach across the profile')
        verdict(chk, 'cut', f'{con}: line {k} level', wh, ya, yb, st,
                'the cut is not parallel to the axis')


def halves(chk, con, lines):
    """The plastic modulus is taken from the halves."""
    for k, (g, ln, st, wh) in enumerate(lines):
        w = axis_image(g.args[3])
        if w is not None:
            verdict(chk, 'cut', f'{con}: line {k} at the axis', wh,
                    ln.args[1][0][1], w[0], st,
                    'the cut is not at the plastic neutral axis')


def cases(facts, t):
    """The facts with what is known of every maximum and minimum in t."""
    f = facts.copy()
    for x in N.walk(t):
        if x.op in ('max', 'min'):
            for a in x.args:
                f.assume(N.le(a, x) if x.op == 'max' else N.le(x, a), True)
    return f


def principals(repo, chk, pth, label):
    for swap in (False, True):
        S = Prof(repo, swap=swap)
        W, I = S.W, S.I
        cls = I.get(pth)
        for order in (('Icsi', 'Ieta', 'theta'), ('theta', 'Ieta', 'Icsi')):
            o = S.profile(cls)
            g = {n: I._sc(W.attr(o, n), W.st) for n in order}
            d = {'iyy_c': expected('Iy'), 'izz_c': expected('Iz'),
                 'iyz_c': expected('Iyz'), 'i11': g['Icsi'],
                 'i22': g['Ieta'], 'theta': g['theta']}
            principal_of(chk, W, d, '', at(cls, 'theta'),
                         f'{label} {order[0]} first{" swapped" * swap}')
        if not I.eig_used:
            break


# ------------------------------------------------ plastic neutral axis
def neutral_axis(repo, chk, pth, label):
    # the difference of the areas
    S = Prof(repo, pna=False)
    W, I = S.W, S.I
    cls = I.get(pth)
    wh = at(cls, '_find_plastic_neutral_axis_y')
    if cls.lookup('_find_plastic_neutral_axis_y')[0] is None:
        chk.unknown('axis', label, 'no such method')
        return
    st = W.st
    for t, up in UP.items():
        if t[0] != 'y':
            continue
        st.facts.assume(N.lt(CUT, N.call('cy', t)) if up else N.lt(
            N.call('cy', t), CUT), True)
        st.facts.assume(N.lt(N.ZERO, N.call('area', t)), True)
    st.facts.assume(N.lt(BOX[1], CUT), True)
    st.facts.assume(N.lt(CUT, BOX[3]), True)
    o = S.profile(cls)
    con = f'{label}: areas above and below'
    if cls.lookup('_find_delta_area_above_minus_below')[0] is None:
        chk.unknown('axis', con, 'no such method')
    else:
        v = I._sc(W.method(o, '_find_delta_area_above_minus_below', z=CUT),
                  W.st)
        chk.seen(I)
        if not isinstance(v, Node):
            chk.unknown('axis', con, f'{v!r} {fails(W, 0)}')
        else:
            w = N.ZERO
            for t in PARTS['y']:
                a = N.call('area', t)
                w = add(w, a) if UP[t] else sub(w, a)
            # the line reaches across the polygon (checked below)
            f = W.st.facts.copy()
            for x in [x for x in N.walk(v) if x.op == 'truth']:
                f.assume(x, True)
            v = f.simplify(v)
            st = W.st.copy()
            st.facts = f = N.Facts()
            to = {N.call('area', t): sym(f'area {t}') for t in PARTS['y']}
            for x in to.values():
                f.assume(N.lt(N.ZERO, x), True)
            verdict(chk, 'axis', con, wh, N.subst(v, to), N.subst(w, to), st,
                    'not the area above less the area below')
        spans(chk, S, con, S.lines)
    # the search
    S = Prof(repo, pna=False, delta=True)
    W, I = S.W, S.I
    cls = I.get(pth)
    I.opts['induct'] = True
    I.opts['anchors'] = [PNA_Y]
    o = S.profile(cls)
    z = I._sc(W.method(o, '_find_plastic_neutral_axis_y'), W.st)
    chk.seen(I)
    con = f'{label}: axis found'
    if not isinstance(z, Node):
        chk.unknown('axis', con, f'{z!r} {fails(W, 0)}')
        return
    height = sub(BOX[3], BOX[1])
    off = N.fabs(sub(z, PNA_Y))
    goal = N.or_(N.le(off, mul(const(1e-6), height)),
                 N.le(N.call('excess', z), const(1e-6)))
    if linear.prove(W.st.facts, goal):
        chk.ok('axis', con)
        return
    for x in (Fraction(37, 100), Fraction(-3, 10), Fraction(777, 1000)):
        S = Prof(repo, pna=False, delta=True, box=(-1, -1, 1, 1))
        S.exact = x
        o = S.profile(S.I.get(pth))
        v = S.I._sc(S.W.method(o, '_find_plastic_neutral_axis_y'), S.W.st)
        if N.finite(v) and abs(N.cval(v) - x) > 1e-5:
            chk.violation('axis', con, wh, 'for a profile between -1 and 1 '
                          f'halved at {float(x)} the axis found is '
                          f'{float(N.cval(v))}')
            return
    chk.unknown('axis', con, N.show(z)[:300])


def c24(repo, chk):
    S = Prof(repo)
    base, cl = classes(S, repo)
    if len(cl) < 10:
        raise AnalysisBroken(f'{len(cl)} profile classes')
    own = {n for c in base.mro for n in getattr(c, 'ns', ())} - {'__init__'}
    impl = {}
    for c in cl:
        S = Prof(repo)
        guard(chk, c.name, lambda: designations(
            repo, chk, S, S.I.get(path(c))))
        # each distinct implementation of the properties
        impl.setdefault(tuple(c.lookup(n)[1].name for n in sorted(own)), c)
    for c in impl.values():
        for f in (properties, principals, neutral_axis):
            guard(chk, c.name, lambda: f(repo, chk, path(c), c.name))
    chk.minimum = 1000


def guard(chk, con, f):
    try:
        f()
    except AnalysisBroken:
        raise
    except Exception as e:          # noqa: BLE001
        chk.unknown('analysis', con, f'{type(e).__name__}: {e}')


def path(c):
    return f'{c.module.name}:{c.name}'
