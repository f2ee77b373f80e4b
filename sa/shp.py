"""A model of shapely: geometries as terms, affine maps made explicit.

A geometry is a Node of op 'geo':
  geo('Point', x, y)                 geo('LineString', ((x, y), ...))
  geo('Ring', ((x, y), ...))         closed ring of a polygon
  geo('Polygon', ring, holes)        rings are tuples of points, closed
  geo('Map', kind, base, A)          the base geometry under the affine map
                                     A = (a, b, d, e, xoff, yoff)
  geo('MultiPolygon', parts), geo('MultiLineString', parts)
  geo('Op', kind, name, args...)     result of any other operation
"""

from __future__ import annotations

from . import nodes as N
from .nodes import Node, add, mul, neg, sub

ID = (N.ONE, N.ZERO, N.ZERO, N.ONE, N.ZERO, N.ZERO)
KINDS = ('Point', 'LineString', 'Ring', 'Polygon', 'MultiPolygon',
         'MultiLineString')


def geo(*a):
    return N.mk('geo', *a)


def is_geo(v):
    return isinstance(v, Node) and v.op == 'geo'


def kind(g):
    k = g.args[0]
    if k in ('Map', 'Op'):
        return g.args[1]
    return k


def polygon(name):
    """A symbolic polygon."""
    return geo('Map', 'Polygon', name, ID)


def ring(pts):
    pts = tuple(pts)
    if pts and pts[0] != pts[-1]:
        pts = pts + (pts[0],)
    return pts


def poly(pts, holes=()):
    return geo('Polygon', ring(pts), tuple(ring(h) for h in holes))


def app(A, p):
    a, b, d, e, xo, yo = A
    x, y = p
    return (add(add(mul(a, x), mul(b, y)), xo),
            add(add(mul(d, x), mul(e, y)), yo))


def compose(A, B):
    """A after B."""
    a, b, d, e, xo, yo = A
    a2, b2, d2, e2, xo2, yo2 = B
    x, y = app(A, (xo2, yo2))
    return (add(mul(a, a2), mul(b, d2)), add(mul(a, b2), mul(b, e2)),
            add(mul(d, a2), mul(e, d2)), add(mul(d, b2), mul(e, e2)), x, y)


def transform(g, A):
    k = g.args[0]
    if k == 'Point':
        return geo('Point', *app(A, g.args[1:]))
    if k in ('LineString', 'Ring'):
        return geo(k, tuple(app(A, p) for p in g.args[1]))
    if k == 'Polygon':
        return geo('Polygon', tuple(app(A, p) for p in g.args[1]), tuple(
            tuple(app(A, p) for p in h) for h in g.args[2]))
    if k in ('MultiPolygon', 'MultiLineString'):
        return geo(k, tuple(transform(p, A) for p in g.args[1]))
    if k == 'Map':
        return geo('Map', g.args[1], g.args[2], compose(A, g.args[3]))
    return geo('Map', kind(g), g, A)


def rotation(angle, origin):
    if N.nf(angle)[0] == {}:
        c, s = N.ONE, N.ZERO
    else:
        c, s = N.call('cos', angle), N.call('sin', angle)
    x, y = origin
    # p -> o + R (p - o)
    return (c, neg(s), s, c,
            sub(x, sub(mul(c, x), mul(s, y))),
            sub(y, add(mul(s, x), mul(c, y))))


def det(A):
    return sub(mul(A[0], A[3]), mul(A[1], A[2]))


def centroid(g):
    if g.args[0] == 'Polygon' and not g.args[2]:
        g = geo('Ring', g.args[1])
    if g.args[0] == 'Map':
        b = g.args[2]
        return app(g.args[3], (N.call('cx', b), N.call('cy', b)))
    if g.args[0] == 'Point':
        return g.args[1:]
    return N.call('cx', g), N.call('cy', g)


def area(g):
    if g.args[0] == 'Map':
        return mul(N.fabs(det(g.args[3])), N.call('area', g.args[2]))
    return N.call('area', g)


def pts_of(g):
    return g.args[1] if g.args[0] in ('LineString', 'Ring') else (
        (g.args[1:],) if g.args[0] == 'Point' else None)


class Shapely:
    """Hooks that give meaning to shapely calls (chain other hooks)."""

    def __init__(self, hooks=None):
        self.own = hooks or {}

    def table(self):
        t = dict(self.own)
        for n in ('ext', 'node_attr', 'node_call', 'isinstance',
                  'node_item', 'node_iter', 'node_binop'):
            t[n] = self._chain(n)
        return t

    def _chain(self, n):
        mine = getattr(self, n)
        other = self.own.get(n)

        def f(*a):
            if other is not None:
                r = other(*a)
                if r is not None:
                    return r
            return mine(*a)
        return f

    # ---------------------------------------------------------------- hooks
    def isinstance(self, I, v, c, st):
        if not is_geo(v):
            return None
        if not isinstance(c, str):
            return False
        n = c.split('.')[-1]
        k = {'Ring': 'LinearRing'}.get(kind(v), kind(v))
        if c.startswith('shapely'):
            if k == '?':
                return N.mk('isinst', v, n)
            if n == 'BaseGeometry' or k == n:
                return True
            return n == 'LineString' and k == 'LinearRing'
        return False

    def node_binop(self, I, op, a, b, node, fr, st):
        n = {'Sub': 'difference', 'BitAnd': 'intersection',
             'BitOr': 'union', 'BitXor': 'symmetric_difference'}.get(op)
        if n and is_geo(a) and is_geo(b):
            return geo('Op', kind(a), n, a, b)
        return None

    def node_iter(self, I, v, st):
        if v.op == 'coords':
            return v.args[0]
        return None

    def node_item(self, I, o, k, node, fr, st):
        if o.op == 'coords':
            return I.getitem(o.args[0], k, fr, st, node)
        return None

    def node_attr(self, I, o, name, node, fr, st):
        if o.op == 'coords':
            if name == 'xy':
                return (tuple(p[0] for p in o.args[0]),
                        tuple(p[1] for p in o.args[0]))
            return None
        if o.op != 'geo':
            return None
        k = o.args[0]
        kd = kind(o)
        if kd == 'Point' and k == 'Point' and name in ('x', 'y'):
            return o.args[1 if name == 'x' else 2]
        if name == 'coords' and pts_of(o) is not None:
            return N.mk('coords', tuple(pts_of(o)))
        if name == 'xy' and pts_of(o) is not None:
            p = pts_of(o)
            return tuple(q[0] for q in p), tuple(q[1] for q in p)
        if name == 'centroid':
            return geo('Point', *centroid(o))
        if name == 'area':
            return area(o)
        if name == 'bounds':
            if k == 'Point':
                return o.args[1:] + o.args[1:]
            return tuple(N.call(f'bound{i}', o) for i in range(4))
        if k == 'Polygon':
            if name == 'exterior':
                return geo('Ring', o.args[1])
            if name == 'interiors':
                return tuple(geo('Ring', h) for h in o.args[2])
            if name == 'is_empty':
                return len(o.args[1]) == 0
        if kd in ('Polygon', 'Ring') and name in ('exterior',):
            return geo('Op', 'Ring', name, o)
        if name in ('is_empty', 'is_ccw', 'is_valid'):
            return N.mk('truth', N.call(name, o))
        if name == 'length':
            return N.call('length', o)
        if name == 'geoms':
            if k in ('MultiPolygon', 'MultiLineString'):
                return o.args[1]
            return N.call('geoms', o)
        if name == 'convex_hull':
            return geo('Op', 'Polygon', name, o)
        if name == 'geom_type':
            return kd
        return N.mk('attr', o, name)

    def node_call(self, I, o, name, args, kw, node, fr, st):
        if not is_geo(o):
            return None
        fz = tuple(I.fz(args, kw, st))
        if name in ('representative_point', 'point_on_surface'):
            return geo('Point', N.call('inx', o), N.call('iny', o))
        if name in ('intersection', 'difference', 'union', 'buffer',
                    'simplify'):
            return geo('Op', '?' if name == 'intersection' else 'Polygon',
                       name, o, *fz)
        if name in ('intersects', 'contains', 'within', 'equals', 'touches'):
            return N.mk('truth', N.call(name, o, *fz))
        return N.call('.' + name, o, *fz)

    def points(self, I, v, st):
        its = I.iterate(v, None, st, None)
        if its is None:
            return None
        out = []
        for p in its:
            if is_geo(p) and p.args[0] == 'Point':
                out.append(p.args[1:])
                continue
            q = I.iterate(p, None, st, None)
            if q is None or len(q) < 2:
                return None
            out.append(tuple(I._sc(x, st) for x in q[:2]))
        return tuple(out)

    def ext(self, I, path, args, kw, node, fr, st):
        root = path.split('.')[0]
        if root != 'shapely':
            return None
        n = path.split('.')[-1]
        if n == 'Point':
            a = args
            if len(a) == 1:
                if is_geo(a[0]):
                    return a[0]
                a = I.iterate(a[0], fr, st, node)
            if a is not None and len(a) >= 2:
                return geo('Point', I._sc(a[0], st), I._sc(a[1], st))
        elif n in ('LineString', 'LinearRing'):
            p = self.points(I, args[0], st) if args else None
            if p is not None:
                return geo('LineString', p) if n == 'LineString' else geo(
                    'Ring', ring(p))
            return geo('Op', 'LineString' if n == 'LineString' else 'Ring',
                       n, *I.fz(args, kw, st))
        elif n == 'Polygon':
            if args and is_geo(args[0]) and args[0].args[0] == 'Ring':
                p = args[0].args[1]
            else:
                p = self.points(I, args[0], st) if args else None
            hs = args[1] if len(args) > 1 else kw.get('holes')
            hl = I.iterate(hs, fr, st, node) if hs is not None else []
            if p is not None and hl is not None:
                hh = [self.points(I, h, st) if not is_geo(h) else h.args[1]
                      for h in hl]
                if all(h is not None for h in hh):
                    return poly(p, hh)
            return geo('Op', 'Polygon', n, *I.fz(args, kw, st))
        elif n in ('MultiPolygon', 'MultiLineString'):
            if args and is_geo(args[0]) and kind(args[0]) == n:
                return args[0]
            its = I.iterate(args[0], fr, st, node) if args else None
            if its is not None:
                return geo(n, tuple(x if is_geo(x) else I.freeze(x, st)
                                    for x in its))
            return geo('Op', n, n, *I.fz(args, kw, st))
        elif n == 'orient':
            return args[0]
        elif n == 'unary_union':
            its = I.iterate(args[0], fr, st, node)
            if its is not None:
                return geo('Op', '?', n, *[I.freeze(x, st) for x in its])
            return geo('Op', '?', n, *I.fz(args, kw, st))
        elif n == 'split':
            return geo('Op', '?', n, *I.fz(args, kw, st))
        elif 'affinity' in path:
            r = self.affine(I, n, args, kw, fr, st, node)
            if r is not None:
                return r
            return geo('Op', kind(args[0]) if args and is_geo(args[0])
                       else '?', n, *I.fz(args, kw, st))
        return None

    def affine(self, I, n, args, kw, fr, st, node):
        g = args[0] if args else kw.get('geom')
        if not is_geo(g):
            return None
        a = list(args[1:])

        def arg(i, name, dflt):
            return a[i] if i < len(a) else kw.get(name, dflt)
        if n == 'translate':
            x = I._sc(arg(0, 'xoff', N.ZERO), st)
            y = I._sc(arg(1, 'yoff', N.ZERO), st)
            return transform(g, (N.ONE, N.ZERO, N.ZERO, N.ONE, x, y))
        if n == 'rotate':
            an = I._sc(arg(0, 'angle', N.ZERO), st)
            o = arg(1, 'origin', 'center')
            rad = arg(2, 'use_radians', False)
            if isinstance(rad, Node):
                return I.split(fr, st, I.truth(rad, st), lambda s, t:
                               self.affine(I, n, [g, an, o, t], {}, fr, s,
                                           node))
            if not isinstance(rad, bool):
                return None
            if not rad:
                an = mul(an, N.const(__import__("math").pi / 180))
            if isinstance(o, str):
                if o == 'centroid':
                    o = centroid(g)
                else:
                    o = (N.call('bbcx', g), N.call('bbcy', g))
            elif is_geo(o):
                if o.args[0] != 'Point':
                    return None
                o = o.args[1:]
            else:
                o = I.iterate(o, fr, st, node)
                if o is None or len(o) < 2:
                    return None
                o = tuple(I._sc(x, st) for x in o[:2])
            return transform(g, rotation(an, o))
        if n == 'affine_transform':
            m = I.iterate(arg(0, 'matrix', None), fr, st, node)
            if m is None or len(m) != 6:
                return None
            return transform(g, tuple(I._sc(x, st) for x in m))
        return None
