"""Rules over the gross properties of a section (C20)."""

from __future__ import annotations

import math

from . import mat, shp
from . import nodes as N
from .intcheck import interp, law, material, where
from .interp import HArr, HList, Ref, UNDEF
from .lawcheck import KNOWN_CALLS, verdict
from .nodes import Node, add, const, div, mul, neg, sub, sym
from .refute import INTERPRETED, NoValue, evalt, refute, valuations
from .seccheck import GEN, GEOM, MESH
from .util import World

MOMENTS = ('area', 'ay', 'az', 'ayy', 'ayz', 'azz')


def base_moments(b):
    return [N.call(f, b) for f in MOMENTS]


def moved(A, m):
    """Area moments of the image under the affine map A."""
    a, b, d, e, x, y = A
    k = N.fabs(shp.det(A))
    m0, my, mz, myy, myz, mzz = m

    def lin(p, q, c):
        return add(add(mul(p, my), mul(q, mz)), mul(c, m0))

    def quad(p, q, c, r, s, t):
        # integral of (p y + q z + c) (r y + s z + t)
        out = mul(mul(p, r), myy)
        out = add(out, mul(add(mul(p, s), mul(q, r)), myz))
        out = add(out, mul(mul(q, s), mzz))
        out = add(out, mul(add(mul(p, t), mul(c, r)), my))
        out = add(out, mul(add(mul(q, t), mul(c, s)), mz))
        return add(out, mul(mul(c, t), m0))
    r = [m0, lin(a, b, x), lin(d, e, y), quad(a, b, x, a, b, x),
         quad(a, b, x, d, e, y), quad(d, e, y, d, e, y)]
    return [mul(k, v) for v in r]


def point_moments(y, z, A):
    return [A, mul(A, y), mul(A, z), mul(A, mul(y, y)), mul(A, mul(y, z)),
            mul(A, mul(z, z))]


def part_moments(I, x, st, fr):
    """(moments, law) of a surface or a bar, or None."""
    o = I.h(st, x)
    p = I.getattr(x, 'polygon', fr, st, None) if o.cls.lookup(
        'polygon')[0] is not None else None
    m = I.getattr(x, 'material', fr, st, None)
    lw = I.getattr(m, 'constitutive_law', fr, st, None)
    if p is not None:
        if not shp.is_geo(p) or p.args[0] != 'Map':
            return None
        return moved(p.args[3], base_moments(p.args[2])), lw
    q = I.getattr(x, '_point', fr, st, None)
    if not shp.is_geo(q) or q.args[0] != 'Point':
        return None
    return point_moments(*q.args[1:], I._sc(I.getattr(
        x, 'area', fr, st, None), st)), lw


def integrator(I, f, args, kw, node, fr, st):
    """Summary of the integrators (C10) on linear elastic laws."""
    names = [a.arg for a in f.node.args.args]
    b = dict(zip(names, args))
    b.update(kw)
    geo = b.get('geo')
    s = I.iterate(b.get('strain'), fr, st, node)
    e0, ky, kz = (I._sc(x, st) for x in s[:3])
    gfr = I.entry_frame(st, I.h(st, geo).cls.module)
    out = [N.ZERO] * 3
    for k in ('geometries', 'point_geometries'):
        for x in I.iterate(I.getattr(geo, k, gfr, st, None), gfr, st, None):
            r = part_moments(I, x, st, gfr)
            if r is None:
                return None
            m, lw = r
            get = I.getattr(lw, 'get_stress', gfr, st, None)
            u = sym('u')
            sg = I._sc(I.call(get, [u], {}, gfr, st, None), st)
            E = N.diff(sg, u) if isinstance(sg, Node) else None
            if E is None or any(y is u for y in N.walk(E)) or not N.nf_equal(
                    sg, mul(E, u)):
                E = N.call('nonlinear', lw.id if isinstance(lw, Ref) else 0,
                           e0, ky, kz)
            area, y, z, yy, yz, zz = m

            def integral(a, by, bz):
                return mul(E, sub(add(mul(e0, a), mul(ky, bz)), mul(kz, by)))
            out[0] = add(out[0], integral(area, y, z))
            out[1] = add(out[1], integral(z, yz, zz))
            out[2] = sub(out[2], integral(y, yy, yz))
    return out


# eigenvalues of a symmetric 2 x 2 matrix, ascending, with the vectors
def _eig(a, b, c, d):
    b = (b + c) / 2
    h, r = (a + d) / 2, math.hypot((a - d) / 2, b)
    if r < 1e-9 * (abs(a) + abs(d)):
        raise NoValue
    t = math.atan2(2 * b, a - d) / 2
    return (h - r, h + r), ((-math.sin(t), math.cos(t)),
                            (math.cos(t), math.sin(t)))


for _i in range(2):
    INTERPRETED[f'eigv{_i}'] = lambda *m, i=_i: _eig(*m)[0][i]
    for _j in range(2):
        INTERPRETED[f'eigm{_j}{_i}'] = (
            lambda *m, i=_i, j=_j: _eig(*m)[1][i][j])


def eig(I, path, args, kw, node, fr, st):
    n = path.split('.')[-1]
    if path not in ('numpy.linalg.eigh', 'scipy.linalg.eigh',
                    'numpy.linalg.eigvalsh', 'numpy.linalg.eig'):
        return None
    m = mat.nd(I, args[0], st)
    if m is None or m[0] != (2, 2):
        return None
    # apart from isotropic sections; eig gives the values in any order
    order = [0, 1]
    if n == 'eig':
        I.eig_used = True
        if I.eig_swap:
            order = [1, 0]
    v = [N.call(f'eigv{i}', *m[1]) for i in (0, 1)]
    st.facts.assume(N.lt(*v), True)
    v = [v[i] for i in order]
    vals = I.alloc(st, HArr(None, tuple(v)))
    if n == 'eigvalsh':
        return vals
    vec = mat.make(I, st, (2, 2), [N.call(f'eigm{j}{i}', *m[1])
                                   for j in range(2) for i in order])
    return (vals, vec)


class Gross:
    def __init__(self, repo, kind='fiber', swap=False):
        self.calls = []
        self.bad = []
        self.I = I = interp(repo, {'call': self.call, 'ext': eig})
        I.eig_used, I.eig_swap = False, swap
        self.W = W = World(I)
        laws = [law(W, t) for t in 'ABCD']
        self.rho = [sym(f'rho_{t}') for t in 'abcd']
        mats = [material(W, lw, t) for lw, t in zip(laws, 'abcd')]
        SG, PG, CG = (I.get(f'{GEOM}:{n}') for n in (
            'SurfaceGeometry', 'PointGeometry', 'CompoundGeometry'))
        self.surf = [W.call(SG, shp.polygon(f'P{i}'), mats[i],
                            group_label=f'group {i}', concrete=i == 0)
                     for i in range(2)]
        self.bars = [W.call(PG, shp.geo('Point', sym(f'yb{i}'),
                                        sym(f'zb{i}')), sym(f'db{i}'),
                            mats[2 + i], group_label=f'group {2 + i}') for i in range(2)]
        geo = W.call(CG, W.lst(*self.surf, *self.bars))
        self.sec = W.call(I.get(f'{GEN}:GenericSection'), geo,
                          integrator=kind, mesh_size=MESH)
        self.moms = [base_moments(f'P{i}') for i in range(2)] + [
            point_moments(sym(f'yb{i}'), sym(f'zb{i}'), I._sc(W.attr(
                b, 'area'), W.st)) for i, b in enumerate(self.bars)]
        self.E = [I._sc(W.method(lw, 'get_tangent', N.ZERO), W.st)
                  for lw in laws]
        for v in self.E + self.rho:
            W.st.facts.assume(N.lt(N.ZERO, v), True)
        for i in range(2):
            W.st.facts.assume(N.lt(N.ZERO, N.call('area', f'P{i}')), True)
        self.marks = []

    def mark(self, t):
        """The term with the verified nodes replaced by their names."""
        return N.subst(t, dict(self.marks)) if isinstance(t, Node) else t

    def call(self, I, f, args, kw, node, fr, st):
        if f.name != 'integrate_strain_response_on_geometry':
            return None
        names = [a.arg for a in f.node.args.args]
        b = dict(zip(names, args))
        b.update(kw)
        r = integrator(I, f, args, kw, node, fr, st)
        geo, data = b.get('geo'), b.get('integration_data')
        if r is None:
            self.bad.append('geometry not understood')
            return [N.fresh('response')]
        tok = N.call('data', geo.id)
        if data is not None and data is not tok:
            self.calls.append((node, fr))
        if data is None and b.get('mesh_size') is not MESH:
            self.calls.append((node, fr))
        return [(*r, tok)]


def wanted(G):
    """Name -> independently written term."""
    def total(i, ws=None, parts=range(4)):
        t = N.ZERO
        for p in parts:
            w = N.ONE if ws is None else ws[p]
            t = add(t, mul(w, G.moms[p][i]))
        return t
    S, B = (0, 1), (2, 3)
    w = {'area': total(0, parts=S), 'area_reinforcement': total(0, parts=B),
         'ea': total(0, G.E),
         'mass': mul(const(1e-9), total(0, G.rho))}
    ea = w['ea']
    cy, cz = div(total(1, G.E), ea), div(total(2, G.E), ea)
    w['cy'], w['cz'] = cy, cz
    for e, ws in (('', None), ('e_', G.E)):
        w[e + 'sy'], w[e + 'sz'] = total(2, ws), total(1, ws)
        w[e + 'iyy'], w[e + 'izz'] = total(5, ws), total(3, ws)
        w[e + 'iyz'] = total(4, ws)
        A, sy, sz = total(0, ws), total(2, ws), total(1, ws)
        # parallel axes, about the elastic centroid
        w[e + 'iyy_c'] = add(sub(total(5, ws), mul(const(2), mul(cz, sy))),
                             mul(A, mul(cz, cz)))
        w[e + 'izz_c'] = add(sub(total(3, ws), mul(const(2), mul(cy, sz))),
                             mul(A, mul(cy, cy)))
        w[e + 'iyz_c'] = add(sub(sub(total(4, ws), mul(cy, sy)),
                                 mul(cz, sz)), mul(A, mul(cy, cz)))
    return w


def principal(chk, G, gp, e, wh, con):
    I, W = G.I, G.W
    o = W.h(gp).fields
    g = {k: I._sc(o.get(e + k), W.st)
         for k in ('iyy_c', 'izz_c', 'iyz_c', 'i11', 'i22', 'theta')}
    principal_of(chk, W, g, e, wh, con)


def principal_of(chk, W, g, e, wh, con):
    """The principal moments and the angle of the moments in g."""
    if any(not isinstance(v, Node) for v in g.values()):
        chk.unknown('principal', con, repr(g)[:200])
        return
    m = (g['iyy_c'], g['iyz_c'], g['iyz_c'], g['izz_c'])
    hi, lo = N.call('eigv1', *m), N.call('eigv0', *m)
    v0, v1 = N.call('eigm01', *m), N.call('eigm11', *m)
    ac = N.call('acos', N.fabs(v0))
    th = N.ite(N.lt(N.ZERO, mul(v0, v1)), N.call('mod', sub(
        const(math.pi), ac), const(math.pi)), ac)
    verdict(chk, 'principal', f'{con}: {e}i11', wh, g['i11'], hi, W.st,
            'not the largest moment about an axis through the centroid')
    verdict(chk, 'principal', f'{con}: {e}i22', wh, g['i22'], lo, W.st,
            'not the smallest moment about an axis through the centroid')
    c2 = f'{con}: {e}theta'
    if N.equal(g['theta'], th, W.st.facts):
        chk.ok('principal', c2)
        return
    # the moment about the axis at the angle theta is the largest
    nm = {v: sym('I' + k) for k, v in zip(('yy', 'yz', 'zz'),
                                          (m[0], m[1], m[3]))}
    t, hi = N.subst(g['theta'], nm), N.subst(hi, nm)
    m = [nm[x] for x in m]
    c, s = N.call('cos', t), N.call('sin', t)
    at = sub(add(mul(m[0], mul(c, c)), mul(m[3], mul(s, s))),
             mul(const(2), mul(m[1], mul(s, c))))
    f = N.Facts()
    for x in (m[0], m[3]):
        f.assume(N.lt(N.ZERO, x), True)
    f.assume(N.lt(mul(m[1], m[1]), mul(m[0], m[3])), True)
    w = refute(at, hi, f, tol=1e-4)
    if w is None or any(x.op == 'unk' or x.op == 'call' and x.args[0] not in
                        KNOWN for x in N.walk(t)):
        chk.unknown('principal', c2, N.show(t)[:200])
    else:
        chk.violation('principal', c2, wh, 'the moment about the axis at '
                      'this angle is not the principal moment, e.g. at '
                      + ', '.join(f'{k}={v:.3g}' for k, v in sorted(
                          w[0].items())[:6]))


KNOWN_CALLS.update(MOMENTS)
KNOWN_CALLS.update(('nonlinear', 'data', 'acos', 'mod', 'tan'))
KNOWN_CALLS.update(f'eigv{i}' for i in range(2))
KNOWN_CALLS.update(f'eigm{i}{j}' for i in range(2) for j in range(2))
KNOWN = KNOWN_CALLS
INTERPRETED.setdefault('mod', lambda a, b: a % b)


def c20(repo, chk):
    todo = ['fiber']
    while todo:
        kind = todo.pop()
        G = Gross(repo, 'fiber', kind != 'fiber')
        I, W = G.I, G.W
        n0 = len(W.fr.exits)
        gp = W.attr(G.sec, 'gross_properties')
        cls = I.get(f'{GEN}:GenericSectionCalculator')
        wh = where(I, cls, '_calculate_gross_section_properties')
        chk.seen(I)
        for b in G.bad:
            chk.unknown('gross', kind, b)
        bad = W.fr.exits[n0:]
        if gp is UNDEF:
            chk.unknown('gross', kind, [(str(e.value), e.where) for e in bad])
            continue
        for e in bad:
            if e.value == 'AttributeError':
                chk.violation('gross', f'{kind}: failure', e.where,
                              f'gross properties may fail: {e.value}')
            elif e.value != 'RuntimeError':
                chk.unknown('gross', kind, (str(e.value), e.where))
        if I.eig_used and kind == 'fiber':
            todo.append('other order of eigenvalues')
        o = W.h(gp)
        for k, v in wanted(G).items():
            got = o.fields.get(k, UNDEF)
            if got is UNDEF:
                chk.violation('gross', f'{kind}: {k}', wh, 'not reported')
                continue
            got = I._sc(got, W.st)
            verdict(chk, 'gross', f'{kind}: {k}', wh, G.mark(got), G.mark(v),
                    W.st, f'{k} is not the sum over the parts of the section')
            if k in ('cy', 'cz') and N.equal(got, v, W.st.facts):
                for t in {got, v}:
                    G.marks.append((t, sym('y0' if k == 'cy' else 'z0')))
        for e in ('', 'e_'):
            principal(chk, G, gp, e, wh, kind)
        for node, fr in G.calls:
            chk.violation('other-data', f'{kind}: {fr.func.name}', wh,
                          'integration data of another geometry or another '
                          'mesh size are used')
        if not G.calls:
            chk.ok('other-data', kind)
    chk.minimum = 10
