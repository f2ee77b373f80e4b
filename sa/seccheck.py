"""Rules over the section calculators (C09, C17, C18, C19)."""

from __future__ import annotations

import math

from . import mat, models, shp
from . import nodes as N
from .intcheck import bar_area, interp, law, material, where
from .interp import HArr, HInst, HList, Interp, Ref, UNDEF, as_int
from .lawcheck import KNOWN_CALLS, verdict
from .nodes import Node, add, const, div, mul, neg, sub, sym
from .repo import AnalysisBroken, loc
from .refute import INTERPRETED, NoValue, evalt, has_unk
from .util import World, flat, raise_term

GEN = 'structuralcodes.sections._generic'
GEOM = 'structuralcodes.geometry'
RESP = ('Nsec', 'Mysec', 'Mzsec')
THETA = sym('theta')
MESH = sym('mesh')


def response(e0, ky, kz):
    """Response of the section to a strain in the section frame."""
    return tuple(N.call(f, e0, ky, kz) for f in RESP)


def slv(K, b):
    """Solution of a system of three equations (uninterpreted)."""
    return [N.call(f'slv{i}', *K, *b) for i in range(3)]


def linalg(I, path, args, kw, node, fr, st):
    """The linear solvers the strain profile is computed with."""
    n = path.split('.')[-1]
    if not path.startswith(('numpy.linalg.', 'scipy.linalg.')):
        return None
    if n == 'lu_factor':
        k = mat.nd(I, args[0], st)
        if k is None:
            return None
        return (mat.make(I, st, *k), sym('piv'))
    if n in ('lu_solve', 'solve'):
        a = args[0]
        if n == 'lu_solve':
            a = I.iterate(a, fr, st, node)
            if a is None:
                return None
            a = a[0]
        K, b = mat.nd(I, a, st), mat.nd(I, args[1], st)
        if K is None or b is None or K[0] != (3, 3) or len(b[1]) != 3:
            return None
        return mat.make(I, st, b[0], slv(K[1], b[1]))
    if n == 'norm' and len(args) == 1 and not kw:
        v = mat.nd(I, args[0], st)
        if v is None:
            return None
        return norm(v[1])
    return None


def norm(v):
    t = N.ZERO
    for x in v:
        t = add(t, mul(x, x))
    return N.call('sqrt', t)


def matvec(A, x, y):
    return add(mul(A[0], x), mul(A[1], y)), add(mul(A[2], x), mul(A[3], y))


class Calls:
    """Summary of integrate_strain_response_on_geometry.

    The resultants are uninterpreted functions of the strain expressed in
    the frame of the section; integration data carry the positions of the
    parts in the frame of the geometry they were made from.
    """

    def __init__(self, with_data=True):
        self.log = []
        self.with_data = with_data
        self.calc = None

    def hook(self, I, f, args, kw, node, fr, st):
        if f.name != 'integrate_strain_response_on_geometry':
            return None
        names = [a.arg for a in f.node.args.args]
        b = dict(zip(names, args))
        b.update(kw)
        geo, strain = b.get('geo'), b.get('strain')
        kind = b.get('integrate', 'stress')
        G = parts(I, geo, st)
        s = I.iterate(strain, fr, st, node)
        if G is None or s is None or len(s) < 3:
            self.log.append((None, repr((G, s)), node, fr, None))
            return [N.fresh('resp')]
        e0, ky, kz = (I._sc(x, st) for x in s[:3])
        A = G['A']
        # rotations: the inverse is the transpose
        qy, qz = matvec((A[0], A[2], A[1], A[3]), ky, kz)
        data = b.get('integration_data')
        self.log.append(dict(node=node, module=fr.module, geo=G, data=data,
                             mesh=b.get('mesh_size', UNDEF), kind=kind,
                             st=st, func=fr.func, data_val=flat_data(
                                 I, data, st)))
        if data is None:
            data = make_data(I, G, st) if self.with_data else None
        if kind == 'modulus':
            K = [N.call(f'K{i}{j}', e0, qy, qz) for i in range(3)
                 for j in range(3)]
            return [(mat.make(I, st, (3, 3), K), data)]
        n, my, mz = response(e0, qy, qz)
        a, c = matvec(A, my, mz)
        return [(n, a, c, data)]


def parts(I, geo, st):
    """The affine map of the first surface and the positions of all parts."""
    if not isinstance(geo, Ref):
        return None
    o = I.h(st, geo)
    if not isinstance(o, HInst):
        return None
    fr = I.entry_frame(st, o.cls.module)
    pos, A = [], None
    for k in ('geometries', 'point_geometries'):
        v = I.getattr(geo, k, fr, st, None)
        its = I.iterate(v, fr, st, None)
        if its is None:
            return None
        for x in its:
            g = I.getattr(x, 'polygon' if k == 'geometries' else '_point',
                          fr, st, None)
            if not shp.is_geo(g):
                return None
            if k == 'geometries':
                if g.args[0] != 'Map':
                    return None
                if A is None:
                    A = g.args[3]
            pos.append(shp.centroid(g))
    if A is None:
        return None
    return {'A': A, 'pos': pos}


def make_data(I, G, st):
    rows = []
    for y, z in G['pos']:
        rows.append((I.alloc(st, HArr(None, (y,))),
                     I.alloc(st, HArr(None, (z,))),
                     I.alloc(st, HArr(None, (sym('dA'),))), sym('law')))
    return I.alloc(st, HList(tuple(rows)))


def nd_gated(I, v, st):
    """Items of an array, or of one of two arrays."""
    if isinstance(v, Node) and v.op == 'ite' and any(
            isinstance(x, Ref) for x in N.walk(v)):
        d = st.facts.decide(v.args[0])
        if d is not None:
            return nd_gated(I, v.args[1 if d else 2], st)
        a, b = (nd_gated(I, x, st) for x in v.args[1:])
        if a is None or b is None or a[0] != b[0]:
            return None
        return a[0], [N.ite(v.args[0], p, q) for p, q in zip(a[1], b[1])]
    return mat.nd(I, v, st)


class Alt:
    """Data that depend on a condition."""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def none(self):
        return any(x is None or isinstance(x, Alt) and x.none()
                   for x in (self.a, self.b))


def flat_data(I, data, st):
    """Positions held by integration data, None, or '?'."""
    if data is None:
        return None
    if isinstance(data, Node) and data.op == 'ite':
        d = st.facts.decide(data.args[0])
        if d is not None:
            return flat_data(I, data.args[1 if d else 2], st)
        return Alt(data.args[0], flat_data(I, data.args[1], st),
                   flat_data(I, data.args[2], st))
    try:
        rows = I.iterate(data, None, st, None)
    except Exception:      # noqa: BLE001  not a list
        rows = None
    if rows is None:
        return '?'
    out = []
    for r in rows:
        q = I.iterate(r, None, st, None)
        if q is None or len(q) != 4:
            return '?'
        y, z = nd_gated(I, q[0], st), nd_gated(I, q[1], st)
        if y is None or z is None or len(y[1]) != 1:
            return '?'
        out.append((y[1][0], z[1][0]))
    return out


BAL = ('y_top', 'y_bot', 'eb0', 'ebk')


def summaries(names, made=None):
    """Stand-ins for solver methods; each is verified on its own."""
    made = made if made is not None else []

    def call(I, f, args, kw, node, fr, st):
        if f.cls is None or f.name not in names:
            return None
        if f.cls.name not in ('GenericSectionCalculator',):
            return None
        k = len(made)
        made.append((f.name, args, kw, node))
        self_ = args[0]
        if f.name == 'get_balanced_failure_strain':
            y = kw.get('yielding', args[2] if len(args) > 2 else False)
            t = 'y' if y is True else 'u'
            v = [sym(f'{b}_{t}') for b in BAL]
            return [(v[0], v[1], I.alloc(st, HList((v[2], v[3], N.ZERO))))]
        if f.name == 'check_axial_load':
            I.exit(fr, 'raise', 'ValueError', st.copy(), node)
            return [None]
        # equilibrium solvers
        geom = args[1] if len(args) > 1 else kw.get('geom')
        o = I.h(st, self_)
        d = o.fields.get('integration_data')
        G = parts(I, geom, st)
        made[-1] = (f.name, args, kw, node, G, flat_data(I, d, st), st)
        I.exit(fr, 'raise', 'ValueError', st.copy(), node)
        if d is None and G is not None:
            fl = dict(o.fields)
            fl['integration_data'] = make_data(I, G, st)
            st.heap[self_.id] = HInst(o.cls, fl, o.lazy)
        e = sym(f'ea{k}')
        if f.name == 'find_equilibrium_fixed_curvature':
            c = args[3] if len(args) > 3 else kw.get('curv')
            return [(e, I._sc(c, st), N.ZERO)]
        return [I.alloc(st, HList((e, sym(f'chi{k}'), N.ZERO)))]
    return call


SOLVERS = ('find_equilibrium_fixed_pivot', 'find_equilibrium_fixed_curvature')


class SecWorld:
    def __init__(self, repo, have_data, names, assume=(), hooks=None,
                 integrator='fiber', stress_hook=True):
        self.calls = Calls()
        self.made = []
        summ = summaries(names, self.made)
        hs = dict(hooks or {})
        ext = hs.pop('call', None)

        def call(I, f, args, kw, node, fr, st):
            if ext is not None:
                r = ext(I, f, args, kw, node, fr, st)
                if r is not None:
                    return r
            r = self.calls.hook(I, f, args, kw, node, fr, st) \
                if stress_hook else None
            return r if r is not None else summ(I, f, args, kw, node, fr, st)
        hs['call'] = call
        hs['ext'] = linalg
        self.I = I = interp(repo, hs)
        self.W = W = World(I, assume=assume)
        A, B = law(W, 'A'), law(W, 'B')
        mA, mB = material(W, A, 'a'), material(W, B, 'b')
        SG, PG, CG = (I.get(f'{GEOM}:{n}') for n in (
            'SurfaceGeometry', 'PointGeometry', 'CompoundGeometry'))
        s0 = W.call(SG, shp.polygon('P0'), mA)
        self.bars = []
        for i in range(2):
            y, z, d = sym(f'yb{i}'), sym(f'zb{i}'), sym(f'db{i}')
            self.bars.append(W.call(PG, shp.geo('Point', y, z), d, mB))
        self.geo = W.call(CG, W.lst(s0, *self.bars))
        self.sec = W.call(I.get(f'{GEN}:GenericSection'), self.geo,
                          integrator=integrator, mesh_size=MESH)
        self.calc = W.attr(self.sec, 'section_calculator')
        if not isinstance(self.calc, Ref):
            raise AnalysisBroken('no section calculator')
        self.home = parts(I, self.geo, W.st)
        if self.home is None:
            raise AnalysisBroken('section geometry not understood')
        if have_data:
            self.set_data(W.st, make_data(I, self.home, W.st))
        self.cls = I.get(f'{GEN}:GenericSectionCalculator')

    def set_data(self, st, v):
        o = self.I.h(st, self.calc)
        f = dict(o.fields)
        f['integration_data'] = v
        st.heap[self.calc.id] = HInst(o.cls, f, o.lazy)

    def data(self, st):
        o = self.I.h(st, self.calc)
        v = o.fields.get('integration_data', UNDEF)
        return flat_data(self.I, v, st)

    def run(self, name, *a, **kw):
        n0 = len(self.W.fr.exits)
        v = self.W.method(self.calc, name, *a, **kw)
        return v, [e for e in self.W.fr.exits[n0:] if e.kind == 'raise']


def same_frame(chk, rule, con, wh, data, G, st, text):
    """Positions of the data equal those of the geometry."""
    if isinstance(data, Alt):
        for t, d in ((True, data.a), (False, data.b)):
            f = st.copy()
            if f.facts.assume(data.c, t) and not f.facts.bad \
                    and d is not None:
                same_frame(chk, rule, con, wh, d, G, f, text)
        return
    if data == '?' or not isinstance(data, list):
        chk.unknown(rule, con, repr(data)[:200])
        return
    if len(data) != len(G['pos']):
        chk.unknown(rule, con, 'data of another number of parts')
        return
    for (a, b), (c, d) in zip(data, G['pos']):
        verdict(chk, rule, con, wh, a, c, st, text)
        verdict(chk, rule, con, wh, b, d, st, text)


def check_calls(chk, S, con):
    """Rules at each call of the integrator."""
    for c in S.calls.log:
        if not isinstance(c, dict):
            chk.unknown('data-frame', con, c[1])
            continue
        q = c['func'].name if c['func'] is not None else '?'
        wh = f'{loc(c["module"], c["node"])} {q}'
        cc = f'{con}: {q} line {c["node"].lineno if 0 else ""}'.rstrip(
            ' line')
        may_be_none = c['data'] is None or isinstance(
            c['data_val'], Alt) and c['data_val'].none()
        if may_be_none:
            if c['mesh'] is UNDEF:
                chk.violation('mesh-size', cc, wh, 'the section may be '
                              'discretised here, but not with the mesh size '
                              'of the calculator')
            else:
                verdict(chk, 'mesh-size', cc, wh, c['mesh'], MESH,
                        S.W.st, 'the mesh size is not the one of the '
                        'calculator')
        if c['data'] is not None:
            same_frame(chk, 'data-frame', cc, wh, c['data_val'], c['geo'],
                       c['st'], 'integration data are not in the frame of '
                       'the geometry')
    for m in S.made:
        if m[0] in SOLVERS:
            cc = f'{con}: call of {m[0]}'
            if m[4] is None:
                chk.unknown('data-frame', cc, 'geometry not understood')
            elif m[5] is not None:
                same_frame(chk, 'data-frame', cc, cc, m[5], m[4], m[6],
                           'integration data are not in the frame of the '
                           'geometry')


def check_exit(chk, S, con, wh, v, ex):
    if v is not UNDEF:
        d = S.data(S.W.st)
        if d is None:
            chk.ok('data-restored', f'{con}: return')
        else:
            same_frame(chk, 'data-restored', f'{con}: return', wh, d, S.home,
                       S.W.st, 'after the call the stored integration data '
                       'are not in the frame of the section')
    for e in ex:
        d = S.data(e.st)
        cc = f'{con}: raise {e.value}'
        if d is None:
            chk.ok('data-restored', cc)
        else:
            same_frame(chk, 'data-restored', cc, e.where or wh, d, S.home,
                       e.st, 'after the exception the stored integration '
                       'data are not in the frame of the section')


NUM = dict(num_1=1, num_2=2, num_3=2, num_4=2, num_5=1, num_6=2)


def nums():
    d = {k: const(v) for k, v in NUM.items()}
    d.update({f'type_{i}': 'linear' for i in range(1, 7)})
    return d


def public_runs(repo):
    """(label, method, args, kwargs, summarised methods)."""
    K = ('get_balanced_failure_strain', 'check_axial_load')
    th, n = THETA, sym('n')
    yield 'calculate_limit_axial_load', 'calculate_limit_axial_load', (), {}, K
    yield ('calculate_bending_strength', 'calculate_bending_strength',
           (th, n), {}, K + SOLVERS)
    yield ('calculate_moment_curvature(chi=None)',
           'calculate_moment_curvature', (th, n),
           dict(num_pre_yield=const(2), num_post_yield=const(1)),
           K + SOLVERS)
    yield ('calculate_moment_curvature(chi given)',
           'calculate_moment_curvature', (th, n), 'chi', K + SOLVERS)
    for k in ('stress', 'modulus'):
        yield (f'integrate_strain_profile({k})', 'integrate_strain_profile',
               'strain', {'integrate': k}, K)
    for c in (False, True):
        yield (f'calculate_nm_interaction_domain(complete={c})',
               'calculate_nm_interaction_domain', (th,),
               dict(complete_domain=c, **nums()), K)
    yield ('calculate_nmm_interaction_domain',
           'calculate_nmm_interaction_domain', (),
           dict(num_theta=const(2), **nums()), K)
    yield ('calculate_mm_interaction_domain',
           'calculate_mm_interaction_domain', (n,),
           dict(num_theta=const(2)), K + SOLVERS)
    yield ('calculate_strain_profile', 'calculate_strain_profile',
           (n, sym('my'), sym('mz')), dict(max_iter=const(1)), K)
    yield ('find_equilibrium_fixed_curvature',
           'find_equilibrium_fixed_curvature', 'curv', {}, K)
    yield ('find_equilibrium_fixed_pivot', 'find_equilibrium_fixed_pivot',
           'pivot', {}, K)


def do_run(repo, have_data, spec):
    label, name, args, kw, names = spec
    S = SecWorld(repo, have_data, [x for x in names if x != name])
    S.I.opts['induct'] = name != 'calculate_strain_profile'
    if args == 'strain':
        args = (S.W.lst(*(sym(f'e{i}') for i in range(3))),)
    elif args == 'curv':
        args = (S.geo, sym('n'), sym('curv'), sym('e0'))
    elif args == 'pivot':
        args = (S.geo, sym('n'))
    if kw == 'chi':
        kw = dict(chi=S.W.lst(sym('k0'), sym('k1')))
    v, ex = S.run(name, *args, **kw)
    return S, v, ex


def c09(repo, chk):
    for spec in public_runs(repo):
        for have in (False, True):
            S, v, ex = do_run(repo, have, spec)
            con = f'{spec[0]} data {"given" if have else "absent"}'
            wh = where(S.I, S.cls, spec[1])
            if v is UNDEF and all(e.value not in ('ValueError',)
                                  for e in ex):
                chk.unknown('run', con, [str(e.value) for e in ex])
            if not S.calls.log and not S.made:
                chk.unknown('run', con, 'no call of the integrator')
            check_calls(chk, S, con)
            check_exit(chk, S, con, wh, v, ex)
            chk.seen(S.I)
    chk.minimum = 60


# --------------------------------------------------------------- C19
TOL = const(0.01)


class Solver:
    """A run of an equilibrium solver on a response N = n + Dn(strain)."""

    def __init__(self, repo, name, **opts):
        self.rets, self.evals, self.name = [], [], name
        self.S = S = SecWorld(
            repo, False, ['get_balanced_failure_strain'],
            hooks={'call': self.call, 'returns': self.returns},
            stress_hook=False)
        self.I = S.I
        S.I.opts.update(opts)
        a = (S.geo, sym('n'))
        if name == 'find_equilibrium_fixed_curvature':
            a += (sym('curv'), sym('e0'))
        self.v, self.exits = S.run(name, *a)

    def call(self, I, f, args, kw, node, fr, st):
        if f.name != 'integrate_strain_response_on_geometry':
            return None
        b = dict(zip([a.arg for a in f.node.args.args], args))
        b.update(kw)
        s = I.iterate(b.get('strain'), fr, st, node)
        if s is None or len(s) < 3:
            return [N.fresh('response')]
        e = [I._sc(x, st) for x in s[:3]]
        d = N.call('Dn', *e)
        self.evals.append(d)
        return [(add(sym('n'), d), N.call('My', *e), N.call('Mz', *e), None)]

    def returns(self, I, f, rets):
        if f.name != self.name:
            return
        for r in rets:
            self.rets.append((r.value, r.st.copy(), r.where))

    def strains(self):
        """(strain, state, where) of every return."""
        for v, st, w in self.rets:
            s = self.I.iterate(v, self.S.W.fr, st, None)
            if s is None or len(s) != 3:
                yield None, st, w
            else:
                yield [self.I._sc(x, st) for x in s], st, w


def shapes(rng):
    """Axial responses near the root c of the strain a at curvature 0."""
    c, s = rng.uniform(-1, 1), rng.choice([1, 3, 10, 30]) * rng.choice(
        [1, 1, 1, -1])
    q = rng.uniform(-0.02, 0.02)
    kind, w = rng.randrange(6), rng.choice([3e-3, 0.3]) * rng.random()
    f = (lambda a, k: s * (a - c) + q * k,
         lambda a, k: 0.05 * s * (a - c) + 0.5 * (k + 0.5),
         lambda a, k: 0.2 * math.tanh(s * (a - c)),
         lambda a, k: min(0.0, s * (a - c)),
         lambda a, k: q + 0.5 * s * k,
         lambda a, k: -0.1 if a + 0.3 * k < c else (
             0.0 if a + 0.3 * k < c + w else 0.1))[kind]
    return kind, c, f


def witness(S, goal, st, cuts, extra=(), tries=6000):
    """An axial response and inputs that violate the goal, or None."""
    import random
    rng = random.Random(7)
    guard = list(st.guard)
    syms = {x.args[0]: x for t in [goal, *[c for c, _ in guard], *extra]
            for x in N.walk(t) if x.op == 'sym'}
    bad = [goal, *[c for c, _ in guard]]
    if any(has_unk(t) for t in bad):
        return None
    try:
        for _ in range(tries):
            kind, c, f = shapes(rng)
            INTERPRETED['Dn'] = lambda a, k, z, f=f: f(a, k)
            env = {x: rng.uniform(-1, 1) for x in syms.values()}
            for nm, x in syms.items():
                if nm.startswith('y_top'):
                    env[x] = rng.uniform(0.1, 1)
                elif nm.startswith('y_bot'):
                    env[x] = -rng.uniform(0.1, 1)
                elif nm == 'n':
                    env[x] *= rng.choice([1, 1e3, 1e6])
                elif nm == 'e0':
                    env[x] = c + rng.uniform(-3e-3, 3e-3)
            env = {x.id: v for x, v in env.items()}
            memo = {}
            try:
                if all(bool(evalt(c, env, memo)) == t for c, t in guard) \
                        and not evalt(goal, env, memo) \
                        and all(bool(evalt(c, env, memo)) for c in extra) \
                        and not any(all(bool(evalt(c, env, memo)) == t
                                        for c, t in g) for g in cuts):
                    return {nm: round(env[x.id], 4)
                            for nm, x in sorted(syms.items())}, kind
            except NoValue:
                continue
    finally:
        INTERPRETED.pop('Dn', None)
    return None


def scales(t, tainted, tries=60):
    """Does a term change if all responses get larger by a factor?"""
    import random
    rng = random.Random(3)
    free = {x for x in N.walk(t) if x.op in ('sym', 'unk')}
    try:
        for _ in range(tries):
            f = shapes(rng)[2]
            lam = 10.0 ** rng.randrange(-6, 7)
            env = {x.id: rng.uniform(-1, 1) * 10 ** rng.choice([0, -2, -4])
                   for x in free}
            vals = []
            for s in (1.0, lam):
                INTERPRETED['Dn'] = lambda a, k, z: s * f(a, k)
                e = {x.id: env[x.id] * (s if x in tainted else 1.0)
                     for x in free}
                try:
                    vals.append(evalt(t, e, {}))
                except NoValue:
                    break
            if len(vals) == 2 and (vals[0] != vals[1] if isinstance(
                    vals[0], bool) else abs(vals[0] - vals[1]) > 1e-9 * max(
                    abs(x) for x in vals)):
                return True
    finally:
        INTERPRETED.pop('Dn', None)
    return False


def unmeasured(P):
    """No condition in or after a loop depends on how large the responses
    found in it are (and there are such loops)."""
    phis, conds = P.I.opts['phis'], P.I.opts['conds']
    if not phis:
        return False
    tainted, more = set(), True
    while more:
        more = False
        for p, vals in phis:
            if p not in tainted and any(isinstance(v, Node) and scales(
                    v, tainted) for v in vals):
                tainted.add(p)
                more = True
    inner = {p for p, _ in phis}
    return not any(scales(c, tainted) for c in dict.fromkeys(conds)
                   if any(x in inner or x.op == 'unk' for x in N.walk(c)))


def kept(name, s):
    """What the solver must not change: (found, required) pairs."""
    if name == 'find_equilibrium_fixed_curvature':
        return [(s[1], sym('curv')), (s[2], N.ZERO)]
    y_n, y_p, e0, k = (sym(f'{b}_u') for b in BAL)
    # in equilibrium with more tension than the balanced failure the
    # tension side stays at its limit, otherwise the compression side
    y = N.ite(N.lt(N.call('Dn', e0, k, N.ZERO), N.ZERO), y_p, y_n)
    return [(add(s[0], mul(s[1], y)), add(e0, mul(k, y))), (s[2], N.ZERO)]


PASSES = {'find_equilibrium_fixed_pivot': 3,
          'find_equilibrium_fixed_curvature': 3}


def c19_solver(repo, chk, name):
    P = Solver(repo, name, induct=True, conds=[], phis=[])
    chk.seen(P.I)
    wh = where(P.I, P.S.cls, name)
    open_ = []
    moved = False
    for k, (s, st, w) in enumerate(P.strains()):
        con = f'{name}: return {k}'
        if s is None:
            chk.unknown('balanced', con, 'result not understood')
            continue
        if not all(N.equal(a, b, st.facts) for a, b in kept(name, s)):
            moved = True
        goal = N.le(N.fabs(N.call('Dn', *s)), TOL)
        if N.prove(st.facts, goal):
            chk.ok('balanced', con)
        else:
            open_.append(con)
    for e in P.exits:
        if e.value not in ('ValueError',):
            if e.st.facts.bad or N.prove(e.st.facts, const(False)):
                continue
            open_.append(f'{name}: {e.value}')
    if not moved:
        chk.ok('kept', name)
    if not open_:
        chk.ok('straddle', name)
        if not moved:
            return
    # not proved: histories with few passes, to tell a defect from a loss
    # of precision
    U = Solver(repo, name, passes=PASSES[name],
               limit=PASSES[name])
    found = False
    cuts = list(U.I.cuts)
    strad = N.le(mul(U.evals[0], U.evals[1]), N.ZERO) if len(U.evals) > 1 \
        else None
    items = []
    for k, (s, st, w) in enumerate(U.strains()):
        if s is not None:
            if moved:
                for a, b in kept(name, s):
                    verdict(chk, 'kept', f'{name}: returned strain', w, a, b,
                            st, 'the strain at the pivot is not the one of '
                            'the failure' if 'pivot' in name else
                            'the curvature is not the given one')
            items.append((f'{name}: returned strain', st, w, N.le(
                N.fabs(N.call('Dn', *s)), const(0.0101)),
                'returns a strain that is not in equilibrium with n'))
    for e in U.exits:
        if e.value != 'ValueError':
            items.append((f'{name}: exception', e.st, e.where, const(False),
                          f'fails with {e.value}'))
    raised = [tuple(e.st.guard) for e in U.exits]
    ends = raised + [tuple(st.guard) for _, st, *_ in items]
    for con, st, w, goal, text in items:
        # the history must not end elsewhere
        U.I.cuts = cuts + [
            g for g in (raised if 'exception' in con else ends)
            if g != tuple(st.guard)]
        if name == 'find_equilibrium_fixed_pivot' and strad is not None:
            for extra, rule in (([strad], 'balanced'),
                                ([N.not_(strad)], 'straddle')):
                r = witness(U.S, goal, st, U.I.cuts, extra)
                if r:
                    found = True
                    chk.violation(rule, con, w, f'{text}, e.g. for response '
                                  f'shape {r[1]} at {r[0]}')
        else:
            r = witness(U.S, goal, st, U.I.cuts)
            if r:
                found = True
                chk.violation('balanced', con, w, f'{text}, e.g. for '
                              f'response shape {r[1]} at {r[0]}')
    if not found and open_ and unmeasured(P):
        found = True
        chk.violation('balanced', f'{name}: end of the search', wh,
                      'no condition of the search depends on how large the '
                      'unbalance is, so that a strain that is not in '
                      'equilibrium is returned (as where the response jumps)')
    if not found:
        for con in open_:
            chk.unknown('balanced', con, 'not proved')


def c19(repo, chk):
    for name in SOLVERS:
        c19_solver(repo, chk, name)
    for initial in (False, True):
        for k in (1, 2, 3):
            c19_profile(repo, chk, initial, k)
    chk.minimum = 3


def c19_profile(repo, chk, initial, iters):
    """The strain profile is the Newton iterate that converged."""
    loads = (sym('n'), sym('my'), sym('mz'))
    tol = sym('tol')
    S = SecWorld(repo, False, [], assume=[(N.lt(N.ZERO, tol), True)])
    g0 = len(S.W.st.guard)
    v, ex = S.run('calculate_strain_profile', *loads, initial=initial,
                  max_iter=const(iters), tol=tol)
    S.I and chk.seen(S.I)
    wh = where(S.I, S.cls, 'calculate_strain_profile')
    con = f'calculate_strain_profile(initial={initial}, max_iter={iters})'
    x = [N.ZERO] * 3
    its = []
    for _ in range(iters):
        at = [N.ZERO] * 3 if initial else x
        K = [N.call(f'K{i}{j}', *at) for i in range(3) for j in range(3)]
        b = [sub(p, r) for p, r in zip(loads, response(*x))]
        d = slv(K, b)
        x = [add(p, q) for p, q in zip(x, d)]
        its.append((x, N.lt(norm(d), tol)))
    fail = None
    for _, c in its:
        fail = N.not_(c) if fail is None else N.and_(fail, N.not_(c))
    bad = [e for e in ex if e.value != 'StopIteration']
    if bad:
        chk.unknown('converged', con, [str(e.value) for e in bad])
        return
    r = raise_term(ex, g0)
    cc = f'{con}: raise'
    if r is None:
        chk.violation('converged', cc, wh, 'no StopIteration when the '
                      'iteration does not converge')
    elif r is True:
        chk.violation('converged', cc, wh, 'StopIteration even if the '
                      'iteration converged')
    else:
        verdict(chk, 'converged', cc, wh, N.ite(r, N.ONE, N.ZERO),
                N.ite(fail, N.ONE, N.ZERO), S.W.fr and World(S.I).st,
                'StopIteration is not raised exactly if no iteration '
                'converged')
    if v is UNDEF:
        return
    got = S.I.iterate(v, S.W.fr, S.W.st, None)
    if got is None or len(got) != 3:
        chk.unknown('converged', con, repr(v))
        return
    want = its[-1][0]
    for xs, c in reversed(its[:-1]):
        want = [N.ite(c, p, q) for p, q in zip(xs, want)]
    for i in range(3):
        verdict(chk, 'converged', f'{con}: strain[{i}]', wh,
                S.I._sc(got[i], S.W.st), want[i], S.W.st, 'the strain is not '
                'the first iterate that satisfies the convergence test')


KNOWN_CALLS.update(RESP)
KNOWN_CALLS.update(f'slv{i}' for i in range(3))
KNOWN_CALLS.update(f'K{i}{j}' for i in range(3) for j in range(3))
