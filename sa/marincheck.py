"""Marin integrator: resultants, strips, and area moments (C10, C21)."""

from __future__ import annotations

from fractions import Fraction
from math import comb

from . import models, shp
from . import nodes as N
from .interp import Ref, UNDEF, as_int
from .intcheck import (INT, STRAIN, as_matrix, bar_area, eps_at, interp, run, section_world, where)
from .lawcheck import verdict
from .nodes import Node, add, const, div, mul, neg, power, sub, sym
from .repo import loc
from .refute import sat
from .util import World, flat, leaves


# ------------------------------------------------------------- area moments
def moment(ring, m, n):
    """Integral of y^m z^n over the polygon: Green's theorem, edge by edge.

    int y^m z^n dA = 1/(m+1) * closed int y^(m+1) z^n dz (ccw ring).
    """
    tot = N.ZERO
    for (ya, za), (yb, zb) in zip(ring, ring[1:]):
        dy, dz = sub(yb, ya), sub(zb, za)
        edge = N.ZERO
        for i in range(m + 2):
            for j in range(n + 1):
                c = Fraction(comb(m + 1, i) * comb(n, j), i + j + 1)
                t = mul(const(c), mul(
                    mul(power(ya, const(m + 1 - i)), power(dy, const(i))),
                    mul(power(za, const(n - j)), power(dz, const(j)))))
                edge = add(edge, t)
        tot = add(tot, mul(edge, dz))
    return div(tot, const(m + 1))


def moments(repo, chk):
    """marin_integration equals the exact integral of y^m z^n."""
    I = interp(repo)
    f = I.get('structuralcodes.core._marin_integration:marin_integration')
    wh = f'{loc(f.module, f.node)} marin_integration'
    for nv in (3, 4):
        for m in range(4):
            for n in range(5):
                if nv == 4 and m + n > 3 or m + n > 5:
                    continue
                W = World(I)
                pts = [(sym(f'y{i}'), sym(f'z{i}')) for i in range(nv)]
                ring = tuple(pts) + (pts[0],)
                v = W.call(f, W.lst(*[p[0] for p in ring]),
                           W.lst(*[p[1] for p in ring]), const(m), const(n))
                con = f'marin_integration {nv} vertices m={m} n={n}'
                if v is UNDEF:
                    chk.unknown('area-moment', con, 'no value')
                    continue
                verdict(chk, 'area-moment', con, wh, v, moment(ring, m, n),
                        W.st, 'not the integral of y^m z^n over the polygon')
    chk.seen(I)


# ------------------------------------------------------------- strips
def is_hull(g):
    return (shp.is_geo(g) and g.args[0] == 'Op' and
            g.args[2] == 'convex_hull' and shp.is_geo(g.args[3]) and
            g.args[3].args[0] == 'MultiLineString')


def strip_hook(log):
    """Polygon parts between two lines are polygons with unknown vertices."""
    def node_call(I, o, name, args, kw, node, fr, st):
        if name != 'intersection' or not shp.is_geo(o) or not args:
            return None
        if not is_hull(args[0]):
            return None
        key = (o, args[0])
        ks = [x[0] for x in log]
        if key in ks:
            k = ks.index(key)
        else:
            k = len(log)
            log.append((key, o, args[0].args[3].args[1]))
        # shapely returns cut polygons in either orientation
        ps = [reverse(part(k)) if k % 2 else part(k)]
        if k % 4 == 2:      # a concave surface falls into several parts
            return shp.geo('MultiPolygon', (ps[0], part(100 + k),
                                            part(200 + k)))
        return ps[0]
    return node_call


def moment_hook(I, f, args, kw, node, fr, st):
    """Area moments stay atoms (what they are is checked separately)."""
    if f.name != 'marin_integration' or kw or len(args) != 4:
        return None
    y, z = (I.iterate(a, fr, st, node) for a in args[:2])
    m, n = (as_int(a) for a in args[2:])
    if None in (y, z, m, n) or len(y) != len(z) or len(y) < 2:
        return None
    pts = [(I._sc(a, st), I._sc(b, st)) for a, b in zip(y, z)]
    if pts[0] != pts[-1] or not all(isinstance(q, Node) for p in pts
                                    for q in p):
        return None
    return [models.moment(pts, m, n)]


def part(k):
    """Known part of a cut surface, exterior ccw and hole cw."""
    P = lambda t, n: [(sym(f'{t}y{k}_{i}'), sym(f'{t}z{k}_{i}'))
                      for i in range(n)]
    return shp.poly(P('s', 3), [P('h', 3)])


def reverse(g):
    return shp.geo('Polygon', g.args[1][::-1],
                   tuple(h[::-1] for h in g.args[2]))


def ccw(ring):
    """Is a model ring wound counterclockwise?"""
    idx, kinds = [], set()
    for y, z in ring[:-1]:
        t = {x.args[0] for x in N.walk(y) if x.op == 'sym' and
             x.args[0][:2] in ('sy', 'hy', 'py', 'qy')}
        if len(t) != 1:
            return None
        t = t.pop()
        kinds.add(t[0])
        idx.append(int(t.split('_')[1]))
    if len(kinds) != 1 or len(idx) != 3:
        return None
    k = idx.index(0)
    straight = idx[k:] + idx[:k] == [0, 1, 2]
    return straight == (kinds.pop() in 'sp')


def orient_ext(I, path, args, kw, node, fr, st):
    """shapely.geometry.polygon.orient on model polygons."""
    if not path.startswith('shapely') or path.split('.')[-1] != 'orient':
        return None
    g = args[0]
    sg = args[1] if len(args) > 1 else kw.get('sign', N.ONE)
    if not shp.is_geo(g) or g.args[0] != 'Polygon' or not N.finite(sg):
        return None
    up = N.cval(sg) >= 0
    rings = []
    for r, w in [(g.args[1], up)] + [(h, not up) for h in g.args[2]]:
        c = ccw(r)
        if c is None:
            return None
        rings.append(r if c == w else r[::-1])
    return shp.geo('Polygon', rings[0], tuple(rings[1:]))


def ccw_attr(I, o, name, node, fr, st):
    """Rings of our model polygons: exterior ccw, interior cw."""
    if name == 'is_ccw' and shp.is_geo(o) and o.args[0] == 'Ring':
        return ccw(o.args[1])
    if name == 'is_empty' and shp.is_geo(o):
        return False
    return None


def rot(alpha_cs, p):
    c, s = alpha_cs
    return sub(mul(c, p[0]), mul(s, p[1])), add(mul(s, p[0]), mul(c, p[1]))


def frame():
    """chi and the rotation from the bending frame to the section frame."""
    e0, e1, e2 = STRAIN
    chi = power(add(mul(e1, e1), mul(e2, e2)), const(Fraction(1, 2)))
    return chi, (div(e1, chi), div(e2, chi))


def poly_moment(g, m, n):
    """Holes are wound the other way, so their moments subtract."""
    t = models.moment(g.args[1], m, n)
    for h in g.args[2]:
        t = add(t, models.moment(h, m, n))
    return t


def surface_terms(g, cs, coefs, order):
    """Integrals of sigma * y'^a z'^b over g for a+b <= order (bending
    frame, sigma = sum coefs[k] z'^k)."""
    out = {}
    for a in range(order + 1):
        for b in range(order + 1 - a):
            t = N.ZERO
            for k, c in enumerate(coefs):
                t = add(t, mul(c, poly_moment(g, a, b + k)))
            out[a, b] = t
    return out


def expected_stress(surfaces, bars, fn, cs):
    """surfaces: (polygon in the bending frame, coefficients)."""
    c, s = cs
    n = my = mz = N.ZERO
    for g, co in surfaces:
        q = surface_terms(g, cs, co, 1)
        n = add(n, q[0, 0])
        # y = c y' - s z',  z = s y' + c z'
        my = add(my, add(mul(s, q[1, 0]), mul(c, q[0, 1])))
        mz = sub(mz, sub(mul(c, q[1, 0]), mul(s, q[0, 1])))
    for t, y, z, d in bars:
        F = mul(N.call(fn, t, eps_at(y, z)), bar_area(d))
        n, my, mz = add(n, F), add(my, mul(F, z)), sub(mz, mul(F, y))
    return n, my, mz


def expected_stiffness(surfaces, bars, fn, cs):
    c, s = cs
    K = [[N.ZERO] * 3 for _ in range(3)]

    def acc(i, j, v):
        K[i][j] = add(K[i][j], v)
    # basis (1, z, -y) in terms of (1, y', z')
    basis = ({(0, 0): N.ONE}, {(1, 0): s, (0, 1): c},
             {(1, 0): neg(c), (0, 1): s})
    for g, co in surfaces:
        q = surface_terms(g, cs, co, 2)
        for i in range(3):
            for j in range(3):
                t = N.ZERO
                for (a, b), u in basis[i].items():
                    for (a2, b2), v in basis[j].items():
                        t = add(t, mul(mul(u, v), q[a + a2, b + b2]))
                acc(i, j, t)
    for t, y, z, d in bars:
        M = mul(N.call(fn, t, eps_at(y, z)), bar_area(d))
        b = (N.ONE, z, neg(y))
        for i in range(3):
            for j in range(3):
                acc(i, j, mul(M, mul(b[i], b[j])))
    return K


def compare(chk, W, rule, con, wh, v, integrate, want, ex):
    if v is UNDEF:
        if ex:
            chk.violation(rule, con, wh, f'only raises {ex[0].value}')
        else:
            chk.unknown(rule, con, 'no result')
        return None
    if not isinstance(v, tuple):
        chk.unknown(rule, con, repr(v))
        return None
    if integrate == 'stress':
        if len(v) != 4:
            chk.unknown(rule, con, repr(v))
            return None
        for n, a, b in zip(('N', 'My', 'Mz'), v, want):
            verdict(chk, rule, f'{con} {n}', wh, a, b, W.st,
                    f'{n} is not the resultant of the stresses of all parts')
        return v[3]
    K = as_matrix(W, v[0])
    if K is None:
        chk.unknown(rule, con, repr(v[0]))
        return v[-1]
    for i in range(3):
        for j in range(3):
            verdict(chk, rule, f'{con} K[{i},{j}]', wh, K[i][j], want[i][j],
                    W.st, f'stiffness [{i},{j}] is not the derivative of '
                    'the resultants')
    return v[-1]


def lines_of(g):
    """((x1, y1), (x2, y2)) of a two-point line."""
    if shp.is_geo(g) and g.args[0] == 'LineString' and len(g.args[1]) == 2:
        return g.args[1]
    return None


def tag_of(pol):
    """The law of the surface a cut polygon belongs to."""
    if pol.args[0] == 'Map' and pol.args[2] in ('P0', 'P1'):
        return 'AC'[int(pol.args[2][1])]
    return None


def range_of(W, tag, lines, chi, dflt):
    """The range whose limits the two cutting lines are placed at."""
    ls = [lines_of(x) for x in lines]
    if len(ls) != 2 or None in ls:
        return dflt
    got = [l[0][1] for l in ls]
    for p in range(models.RANGES):
        want = [div(sub(models.limits(tag, i), STRAIN[0]), chi)
                for i in (p, p + 1)]
        for w in (want, want[::-1]):
            if all(N.equal(x, y, W.st.facts) for x, y in zip(got, w)):
                return p
    return dflt


def strips(chk, W, con, wh, cuts, chi):
    """Each strip is bounded where the strain meets the limits."""
    e0 = STRAIN[0]
    for k, tag, p, pol, lines in cuts:
        c = f'{con} law {tag} range {p}'
        ls = [lines_of(x) for x in lines]
        if len(ls) != 2 or None in ls:
            chk.unknown('strip', c, repr(lines))
            continue
        want = [div(sub(models.limits(tag, i), e0), chi) for i in (p, p + 1)]
        got = []
        for (x1, y1), (x2, y2) in ls:
            # horizontal line over the whole width
            verdict(chk, 'strip-horizontal', c, wh, y1, y2, W.st,
                    'the cutting line is not parallel to the neutral axis')
            got.append(y1)
            lo, hi = N.call('bound0', pol), N.call('bound2', pol)
            for d, cc in (('left', N.le(x1, lo)), ('right', N.le(hi, x2))):
                r = W.st.facts.decide(cc)
                if r is True:
                    chk.ok('strip-width', f'{c} {d}')
                    continue
                f = W.st.facts.copy()
                f.assume(N.lt(lo, hi), True)
                w = sat([(cc, False)], f)
                if w is None:
                    chk.unknown('strip-width', f'{c} {d}', repr(cc))
                else:
                    chk.violation('strip-width', f'{c} {d}', wh,
                                  'the cutting line does not span the '
                                  'polygon')
        for nm, f in (('sum', add), ('product', mul)):
            verdict(chk, 'strip', f'{c} {nm}', wh, f(*got), f(*want), W.st,
                    'the strip is not bounded where the strain equals the '
                    'limits of the range')


def number(W, log, chi):
    """(log index, law, range, polygon, lines) of the first pass of cuts."""
    cuts, seen = [], set()
    for k, (key, pol, lines) in enumerate(log):
        tag = tag_of(pol)
        n = len([1 for c in cuts if c[3] is pol])
        p = range_of(W, tag, lines, chi, n) if tag else n
        cuts.append((k, tag, p, pol, lines))
    return cuts


QUADRANTS = ((1, 1), (1, -1), (-1, 1), (-1, -1), (1, 0), (-1, 0), (0, 1),
             (0, -1))


def sided(x, s):
    if s == 0:
        return (N.cmp_('eq', x, N.ZERO), True)
    return (N.lt(N.ZERO, x) if s > 0 else N.lt(x, N.ZERO), True)


def bending(repo, chk, integrate, fn, cf, quad):
    log = []
    I = interp(repo, {'node_call': strip_hook(log), 'call': moment_hook,
                      'ext': orient_ext,
                      'node_attr': ccw_attr})
    cls = I.get(f'{INT}:MarinIntegrator')
    wh = where(I, cls, f'integrate_{integrate}')
    sw = where(I, cls, '_process_surface_geometries')
    e0, e1, e2 = STRAIN
    W, g, bars = section_world(I, assume=[sided(e1, quad[0]),
                                          sided(e2, quad[1])])
    itg = W.call(cls)
    v, ex = run(W, itg, g, integrate)
    chi, cs = frame()
    sg = '-0+'
    con = (f'MarinIntegrator {integrate} bending ky{sg[quad[0] + 1]}'
           f' kz{sg[quad[1] + 1]}')
    cuts = number(W, log, chi)
    got = {}
    for k, tag, p, pol, lines in cuts:
        got.setdefault(tag, []).append(p)
    if None in got:
        chk.unknown('bending-frame', con, 'a cut polygon is not a surface')
    if not log:
        chk.unknown('all-ranges', con, 'no strips seen')
        return
    if got == {t: list(range(models.RANGES)) for t in 'AC'} or all(
            sorted(got.get(t, ())) == list(range(models.RANGES))
            for t in 'AC'):
        chk.ok('all-ranges', con)
    else:
        chk.violation('all-ranges', con, sw,
                      f'ranges of strain integrated per law: {got}, each '
                      f'law has {models.RANGES}')
    # the polygons cut are the surfaces in the bending frame
    A = (cs[0], cs[1], neg(cs[1]), cs[0], N.ZERO, N.ZERO)
    for pol in dict.fromkeys(c[3] for c in cuts):
        if tag_of(pol) is None:
            continue
        for x, y in zip(pol.args[3], A):
            verdict(chk, 'bending-frame', f'{con} {pol.args[2]}', wh, x, y,
                    W.st, 'the surface is not rotated into the frame of the '
                    'curvature')
    surf = [(part(j), [models.coef(cf, tag, p, q, e0, chi)
                       for q in range(models.ORDER)])
            for k, tag, p, pol, lines in cuts if tag
            for j in ([k, 100 + k, 200 + k] if k % 4 == 2 else [k])]
    want = (expected_stress if integrate == 'stress' else
            expected_stiffness)(surf, bars, fn, cs)
    data = compare(chk, W, 'resultant', con, wh, v, integrate, want, ex)
    strips(chk, W, con, sw, cuts, chi)
    # the data are those of the unrotated section, and reusable
    if isinstance(data, Ref):
        v2, ex2 = run(W, itg, g, integrate, integration_data=data)
        compare(chk, W, 'reused-data', con + ' reused', wh, v2,
                integrate, want, ex2)
        a, b = flat(W, data), flat(W, v2[-1]) if isinstance(
            v2, tuple) else None
        rows = a[1:] if isinstance(a, tuple) else ()
        if isinstance(b, tuple) and len(b) == len(a):
            for x, y in zip(a[1:], b[1:]):
                for p, q in leaves(x[:3], y[:3]) or [(x, y)]:
                    verdict(chk, 'data-frame', con, wh, p, q, W.st,
                            'integration data change when reused')
        byl = {}
        for t, y, z, d in bars:
            byl.setdefault(t, []).append((y, z, bar_area(d)))
        if len(rows) == len(byl):
            for row, (t, want_) in zip(rows, byl.items()):
                for j, nm in enumerate(('y', 'z', 'area')):
                    col = row[j]
                    col = list(col[1:]) if isinstance(col, tuple) else [
                        col]
                    if len(col) != len(want_):
                        chk.unknown('data-frame', con, repr(col))
                        continue
                    for p, q in zip(col, want_):
                        verdict(chk, 'data-frame', f'{con} {nm}', wh, p,
                                q[j], W.st, 'integration data returned '
                                'are not in the frame of the section')
        else:
            chk.unknown('data-frame', con, repr(a)[:200])
    elif data is not None:
        chk.unknown('data-frame', con, repr(data))
    chk.seen(I)


def marin(repo, chk):
    moments(repo, chk)
    for integrate, fn, cf in (('stress', 'sig', 'm'),
                              ('modulus', 'tan', 't')):
        for quad in QUADRANTS:
            bending(repo, chk, integrate, fn, cf, quad)
        uniform(repo, chk, integrate, fn, cf)


def uniform(repo, chk, integrate, fn, cf):
    """No curvature: the whole surface at one strain."""
    e0 = STRAIN[0]
    I = interp(repo, {'node_call': strip_hook([]), 'call': moment_hook,
                      'ext': orient_ext,
                      'node_attr': ccw_attr})
    P = lambda t, k: [(sym(f'{t}y{k}_{i}'), sym(f'{t}z{k}_{i}'))
                      for i in range(3)]
    polys = (shp.poly(P('p', 0), [P('q', 0)]), shp.poly(P('p', 1)))
    given = (reverse(polys[0]), polys[1])
    W, g, bars = section_world(I, polys=given)
    cls = I.get(f'{INT}:MarinIntegrator')
    wh = where(I, cls, f'integrate_{integrate}')
    itg = W.call(cls)
    n0 = len(W.fr.exits)
    v = W.method(itg, 'integrate_strain_response_on_geometry', g,
                 W.lst(e0, N.ZERO, N.ZERO), integrate)
    ex = [e for e in W.fr.exits[n0:] if e.kind == 'raise']
    cs0 = (N.ONE, N.ZERO)
    surf = [(p, [models.coef(cf + 'u', t, 0, 0, e0, N.ZERO)])
            for p, t in zip(polys, 'AC')]
    want = (expected_stress if integrate == 'stress' else
            expected_stiffness)(surf, [], fn, cs0)
    if integrate == 'stress':
        want = list(want)
    for t, y, z, d in bars:
        M = mul(N.call(fn, t, e0), bar_area(d))
        b = (N.ONE, z, neg(y))
        for i in range(3):
            if integrate == 'stress':
                want[i] = add(want[i], mul(M, b[i]))
            else:
                for j in range(3):
                    want[i][j] = add(want[i][j], mul(M, mul(b[i], b[j])))
    compare(chk, W, 'resultant-uniform',
            f'MarinIntegrator {integrate} uniform', wh, v, integrate,
            want, ex)
    chk.seen(I)
