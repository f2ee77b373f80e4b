"""Rules over the section integrators (C10)."""

from __future__ import annotations

import re

from . import models, shp
from . import nodes as N
from .interp import HDict, HList, Interp, Ref, UNDEF
from .lawcheck import verdict
from .nodes import Node, add, const, div, mul, neg, power, sub, sym
from .repo import loc
from .util import World, flat

INT = 'structuralcodes.sections.section_integrators'
GEOM = 'structuralcodes.geometry'


def interp(repo, hooks=None):
    models.install(repo)
    own = dict(hooks or {})
    prev = own.get('ext')

    def ext(I, path, args, kw, node, fr, st):
        if prev is not None:
            r = prev(I, path, args, kw, node, fr, st)
            if r is not None:
                return r
        return models.ext(I, path, args, kw, node, fr, st)
    own['ext'] = ext
    I = Interp(repo, hooks=shp.Shapely(own).table())
    return I


def law(W, tag):
    return W.call(W.I.get('sa_model:ModelLaw'), tag)


def material(W, lw, tag):
    return W.call(W.I.get('sa_model:ModelMaterial'), lw, sym('rho_' + tag))


def where(I, cls, name):
    f, o = cls.lookup(name)
    if f is None:
        return loc(cls.module, cls.node)
    return f'{loc(f.module, f.node)} {cls.name}.{name}'


def section_world(I, assume=(), polys=None):
    """Two surfaces and three bars; law 'B' is shared by two bars."""
    W = World(I, assume=assume)
    A, B, C = (law(W, t) for t in 'ABC')
    mA, mB, mC = (material(W, l, t) for l, t in zip((A, B, C), 'abc'))
    polys = polys or (shp.polygon('P0'), shp.polygon('P1'))
    SG, PG, CG = (I.get(f'{GEOM}:{n}') for n in (
        'SurfaceGeometry', 'PointGeometry', 'CompoundGeometry'))
    s0 = W.call(SG, polys[0], mA)
    s1 = W.call(SG, polys[1], mC)
    pts = []
    bars = []
    for i, (m, t) in enumerate(((mB, 'B'), (mC, 'C'), (mB, 'B'))):
        x, y, d = sym(f'yb{i}'), sym(f'zb{i}'), sym(f'db{i}')
        pts.append(W.call(PG, shp.geo('Point', x, y), d, m))
        bars.append((t, x, y, d))
    g = W.call(CG, W.lst(s0, s1, *pts))
    return W, g, bars


def bar_area(d):
    import math
    return div(mul(const(math.pi), power(d, const(2))), const(4))


# ---------------------------------------------------------------- fiber
NV = 4
TRIS = ((0, 1, 2), (3, 2, 1))


def mesh_hook(log):
    def ext(I, path, args, kw, node, fr, st):
        if path != 'triangle.triangulate':
            return None
        k = len([x for x in log if x[0] == 'mesh'])
        tri = args[0]
        log.append(('mesh', I.freeze(tri, st), args[1:], dict(kw), tri))
        V = tuple((N.sym(f'vy{k}_{i}'), N.sym(f'vz{k}_{i}'))
                  for i in range(NV))
        return I.alloc(st, HDict({
            'vertices': I.alloc(st, HList(V)),
            'triangles': I.alloc(st, HList(tuple(
                tuple(const(j) for j in t) for t in TRIS)))}))
    return ext


def fibres(k):
    """(y, z, area) of the triangles of mesh k."""
    out = []
    for t in TRIS:
        p = [(N.sym(f'vy{k}_{i}'), N.sym(f'vz{k}_{i}')) for i in t]
        y = div(add(add(p[0][0], p[1][0]), p[2][0]), const(3))
        z = div(add(add(p[0][1], p[1][1]), p[2][1]), const(3))
        cr = sub(mul(sub(p[1][0], p[0][0]), sub(p[2][1], p[0][1])),
                 mul(sub(p[2][0], p[0][0]), sub(p[1][1], p[0][1])))
        out.append((y, z, mul(N.fabs(cr), const(0.5))))
    return out


STRAIN = (sym('e0'), sym('e1'), sym('e2'))


def eps_at(y, z, s=STRAIN):
    """Strain of a plane section: axial + ky*z - kz*y."""
    return sub(add(s[0], mul(s[1], z)), mul(s[2], y))


def resultants(parts):
    """(N, My, Mz) of forces F at (y, z)."""
    n = my = mz = N.ZERO
    for y, z, F in parts:
        n = add(n, F)
        my = add(my, mul(F, z))
        mz = sub(mz, mul(F, y))
    return n, my, mz


def stiffness(parts):
    """Jacobian of the resultants for tangent forces M at (y, z)."""
    B = lambda y, z: (N.ONE, z, neg(y))
    K = [[N.ZERO] * 3 for _ in range(3)]
    for y, z, M in parts:
        b = B(y, z)
        for i in range(3):
            for j in range(3):
                K[i][j] = add(K[i][j], mul(M, mul(b[i], b[j])))
    return K


def fiber_parts(bars, fn):
    parts = []
    for k, t in enumerate('AC'):
        for y, z, a in fibres(k):
            parts.append((y, z, mul(N.call(fn, t, eps_at(y, z)), a)))
    for t, y, z, d in bars:
        parts.append((y, z, mul(N.call(fn, t, eps_at(y, z)), bar_area(d))))
    return parts


def as_matrix(W, v):
    from . import mat
    x = mat.nd(W.I, v, W.st)
    if x is None or x[0] != (3, 3):
        return None
    return [list(x[1][3 * i:3 * i + 3]) for i in range(3)]


def run(W, itg, g, integrate, **kw):
    n0 = len(W.fr.exits)
    v = W.method(itg, 'integrate_strain_response_on_geometry', g,
                 W.lst(*STRAIN), integrate, **kw)
    return v, [e for e in W.fr.exits[n0:] if e.kind == 'raise']


def check_result(chk, W, rule, con, wh, v, parts, integrate, ex):
    if v is UNDEF or not isinstance(v, tuple):
        if v is UNDEF and ex:
            chk.violation(rule, con, wh, f'only raises {ex[0].value}')
        else:
            chk.unknown(rule, con, repr(v))
        return None
    if integrate == 'stress':
        if len(v) != 4:
            chk.violation(rule, con, wh, f'{len(v)} results instead of the '
                          'three forces and the integration data')
            return None
        for n, a, b in zip(('N', 'My', 'Mz'), v, resultants(parts)):
            verdict(chk, rule, f'{con} {n}', wh, a, b, W.st,
                    f'{n} is not the resultant of the stresses of all parts')
        return v[3]
    K = as_matrix(W, v[0])
    if K is None:
        chk.unknown(rule, con, repr(v[0]))
        return v[-1]
    E = stiffness(parts)
    for i in range(3):
        for j in range(3):
            verdict(chk, rule, f'{con} K[{i},{j}]', wh, K[i][j], E[i][j],
                    W.st, f'stiffness [{i},{j}] is not the derivative of '
                    'the resultants')
    return v[-1]


def fiber(repo, chk):
    for integrate, fn in (('stress', 'sig'), ('modulus', 'tan')):
        log = []
        I = interp(repo, {'ext': mesh_hook(log)})
        cls = I.get(f'{INT}:FiberIntegrator')
        W, g, bars = section_world(I)
        itg = W.call(cls)
        wh = where(I, cls, f'integrate_{integrate}')
        con = f'FiberIntegrator {integrate}'
        ms = sym('mesh')
        v, ex = run(W, itg, g, integrate, mesh_size=ms)
        parts = fiber_parts(bars, fn)
        data = check_result(chk, W, 'resultant', con, wh, v, parts,
                            integrate, ex)
        # the mesh of each surface
        tw = where(I, cls, 'triangulate')
        for k, (tri, a, kw) in enumerate([x[1:4] for x in log][:2]):
            rule, c = 'mesh-request', f'{con} surface {k}'
            txt = repr(a)
            want = mul(N.call('area', f'P{k}'), ms)
            hit = [x for x in N.walk(tuple(a)) if isinstance(x, Node)
                   and N.nf_equal(x, want)] if a else []
            if hit:
                chk.ok(rule, c)
            else:
                chk.unknown(rule, c, txt)
        # the same data used again give the same response
        if data is not None and isinstance(data, Ref):
            v2, ex2 = run(W, itg, g, integrate, integration_data=data)
            d2 = check_result(chk, W, 'reused-data', con + ' reused', wh, v2,
                              parts, integrate, ex2)
            if d2 is data:
                chk.ok('data-returned', con)
            elif isinstance(d2, Ref):
                a, b = flat(W, d2), flat(W, data)
                if a == b:
                    chk.ok('data-returned', con)
                else:
                    chk.violation('data-returned', con, wh,
                                  'integration data given are not the ones '
                                  'returned')
            else:
                chk.unknown('data-returned', con, repr(d2))
        chk.seen(I)


def mesh_input(repo, chk):
    """Boundary, holes and hole points handed to the mesh generator."""
    P = lambda t, n: [(sym(f'{t}y{i}'), sym(f'{t}z{i}')) for i in range(n)]
    ext_, holes = P('e', 4), (P('h', 4), P('k', 5))
    log = []
    I = interp(repo, {'ext': mesh_hook(log)})
    cls = I.get(f'{INT}:FiberIntegrator')
    W, g, bars = section_world(I, polys=(shp.poly(ext_, holes),
                                         shp.polygon('P1')))
    run(W, W.call(cls), g, 'stress', mesh_size=const(0.01))
    wh = where(I, cls, 'prepare_triangulation')
    rule, con = 'mesh-input', 'polygon with two holes'
    d = None
    if log and isinstance(log[0][4], Ref):
        o = W.h(log[0][4])
        d = o.items if isinstance(o, HDict) else None
    if d is None:
        chk.unknown(rule, con, repr(log[:1]))
        return
    from . import mat
    from .interp import as_int

    def arr(k):
        v = d.get(k)
        return None if v is None else mat.nd(I, v, W.st)
    V, S, H = arr('vertices'), arr('segments'), arr('holes')
    if V is None or S is None or len(V[0]) != 2 or len(S[0]) != 2:
        chk.unknown(rule, con, f'{V} {S}')
        return
    pts = [tuple(V[1][2 * i:2 * i + 2]) for i in range(V[0][0])]
    seg = [(as_int(S[1][2 * i]), as_int(S[1][2 * i + 1]))
           for i in range(S[0][0])]
    if any(i is None or j is None for i, j in seg):
        chk.unknown(rule, con, repr(S))
        return
    bad = [x for s in seg for x in s if not 0 <= x < len(pts)]
    if bad:
        chk.violation(rule, con, wh, f'segments refer to vertices {bad} of '
                      f'{len(pts)}')
        return
    edges = {frozenset((pts[i], pts[j])) for i, j in seg}
    for nm, r in (('boundary', ext_), ('hole 0', holes[0]),
                  ('hole 1', holes[1])):
        want = {frozenset((a, b)) for a, b in zip(r, r[1:] + r[:1])}
        if want <= edges:
            chk.ok(rule, f'{con}: edges of the {nm}')
        else:
            chk.violation(rule, f'{con}: edges of the {nm}', wh,
                          f'{len(want - edges)} edges of the {nm} are not '
                          'given to the mesh generator')
        edges -= want
    if edges:
        chk.violation(rule, f'{con}: extra edges', wh, repr(list(edges)[:2]))
    else:
        chk.ok(rule, f'{con}: extra edges')
    n = 0 if H is None else H[0][0] if len(H[0]) == 2 else None
    if n is None:
        chk.unknown(rule, f'{con}: holes', repr(H))
        return
    if n != len(holes):
        chk.violation(rule, f'{con}: holes', wh, f'{n} points are given for '
                      'two holes')
        return
    # a point is inside its hole whatever the shape of the hole
    for k, r in enumerate(holes):
        c = f'{con}: point of hole {k}'
        p = tuple(H[1][2 * k:2 * k + 2])
        inside = shp.poly(r)
        if p == (N.call('inx', inside), N.call('iny', inside)):
            chk.ok('hole-point', c)
        elif any(x.op == 'call' and x.args[0] in ('cx', 'cy', 'bbcx', 'bbcy')
                 for x in N.walk(p)) or all(
                     x.op in ('sym', 'add', 'mul', 'div', 'neg', 'const')
                     for x in N.walk(p)):
            chk.violation('hole-point', c, wh, 'the point is not inside of a '
                          f'non-convex hole: {N.show(p[0])}')
        else:
            chk.unknown('hole-point', c, repr(p))
    chk.seen(I)


def bad_kind(repo, chk):
    for cn in ('FiberIntegrator', 'MarinIntegrator'):
        log = []
        I = interp(repo, {'ext': mesh_hook(log)})
        cls = I.get(f'{INT}:{cn}')
        W, g, bars = section_world(I)
        itg = W.call(cls)
        wh = where(I, cls, 'integrate_strain_response_on_geometry')
        v, ex = run(W, itg, g, 'something else', mesh_size=const(0.01))
        con = f'{cn} unknown integrate'
        if v is UNDEF and any(str(e.value) == 'ValueError' for e in ex):
            chk.ok('unknown-kind', con)
        elif v is UNDEF:
            chk.unknown('unknown-kind', con, [str(e.value) for e in ex])
        else:
            chk.violation('unknown-kind', con, wh, 'no ValueError for an '
                          'unknown kind of integration')
        chk.seen(I)
    # mesh size
    for lo in (True, False):
        log = []
        I = interp(repo, {'ext': mesh_hook(log)})
        cls = I.get(f'{INT}:FiberIntegrator')
        ms = sym('mesh')
        W, g, bars = section_world(I, assume=[
            (N.le(ms, N.ZERO) if lo else N.lt(N.ONE, ms), True)])
        itg = W.call(cls)
        v, ex = run(W, itg, g, 'stress', mesh_size=ms)
        con = f'mesh_size {"<= 0" if lo else "> 1"}'
        if v is UNDEF and any(str(e.value) == 'ValueError' for e in ex):
            chk.ok('mesh-size', con)
        elif v is UNDEF:
            chk.unknown('mesh-size', con, [str(e.value) for e in ex])
        else:
            chk.violation('mesh-size', con, where(I, cls, 'triangulate'),
                          'a mesh size outside (0, 1] is accepted')


POSITIONAL = re.compile(r'[<>=^+ ]*0?\d*(\.\d+)?[fF]')


def mesh_options(repo, chk):
    """The options of the mesh generator carry p and the maximum area."""
    log = []
    I = interp(repo, {'ext': mesh_hook(log)})
    cls = I.get(f'{INT}:FiberIntegrator')
    ms = sym('mesh')
    W, g, bars = section_world(I, assume=[(N.lt(N.ZERO, ms), True),
                                          (N.le(ms, N.ONE), True)])
    run(W, W.call(cls), g, 'stress', mesh_size=ms)
    wh = where(I, cls, 'triangulate')
    calls = [x for x in log if x[0] == 'mesh']
    surfaces = [x for x in I.iterate(W.attr(g, 'geometries'), W.fr, W.st,
                                     None)]
    if len(calls) != len(surfaces):
        chk.unknown('mesh-options', 'calls', len(calls))
        return
    for k, (_, _, args, kw, _) in enumerate(calls):
        con = f'surface {k}'
        o = args[0] if args else kw.get('opts')
        if isinstance(o, str):
            ps = [o]
        elif isinstance(o, Node) and o.op == 'call' and o.args[0] == 'fstr':
            ps = list(o.args[1:])
        else:
            chk.unknown('mesh-options', con, repr(o)[:200])
            continue
        txt = ''.join(p if isinstance(p, str) else '\0' for p in ps)
        vals = [p for p in ps if not isinstance(p, str)]
        if 'p' in txt:
            chk.ok('mesh-options', f'{con}: p')
        else:
            chk.violation('mesh-options', f'{con}: p', wh, 'without option p '
                          'the boundary and the holes are ignored: '
                          + txt.replace('\0', '<value>'))
        m = re.search('a\0', txt)
        if m is None:
            if re.search(r'a[\d.]', txt) or vals:
                chk.unknown('mesh-area', con, repr(txt))
            else:
                chk.violation('mesh-area', con, wh, 'the maximum area is not '
                              f'given to the mesh generator: {txt!r}')
            continue
        v = vals[txt[:m.start()].count('\0')]
        spec = ''
        while True:
            if isinstance(v, tuple) and v and v[0] == 'fmt':
                spec, v = v[2] or spec, v[1]
            elif isinstance(v, Node) and v.op == 'call' and v.args[0] in (
                    'fstr',) and len(v.args) == 2:
                v = v.args[1]
            else:
                break
        name = v.args[0] if isinstance(v, Node) and v.op == 'call' else ''
        if str(name).endswith('format_float_positional'):
            pos, v = True, v.args[1]
        elif POSITIONAL.fullmatch(spec):
            pos = True
        elif isinstance(v, Node) and (
                v.op in ('sym', 'mul', 'add', 'div', 'const')
                or str(name) in ('area', 'str', 'builtins.str')):
            pos = False
            if str(name) in ('str', 'builtins.str'):
                v = v.args[1]
        else:
            chk.unknown('mesh-area', con, repr(v)[:200])
            continue
        if pos:
            chk.ok('mesh-area', f'{con}: notation')
        else:
            chk.violation('mesh-area', f'{con}: notation', wh, 'an area below '
                          '1e-4 is written in scientific notation, which the '
                          'mesh generator does not read')
        s = W.attr(surfaces[k], 'area')
        verdict(chk, 'mesh-area', f'{con}: value', wh, v, mul(s, ms), W.st,
                'the maximum area of a triangle is not the mesh size times '
                'the area of the surface')
    chk.seen(I)


def c10(repo, chk):
    mesh_options(repo, chk)
    fiber(repo, chk)
    mesh_input(repo, chk)
    bad_kind(repo, chk)
    from . import marincheck
    marincheck.marin(repo, chk)
    chk.minimum = 60
