"""Rules over failure strains, reported responses and domains (C17, C18)."""

from __future__ import annotations

import itertools

from . import mat, models, shp
from . import nodes as N
from .intcheck import where
from .interp import HArr, Ref, UNDEF
from .lawcheck import KNOWN_CALLS, verdict
from .nodes import Node, add, const, div, mul, neg, sub, sym
from .seccheck import (GEOM, SOLVERS, SecWorld, THETA, matvec, parts,
                       response)
from .util import World

BAL = 'get_balanced_failure_strain'
CALC = 'GenericSectionCalculator'


def arg(f, args, kw, name, default=None):
    names = [a.arg for a in f.node.args.args]
    b = dict(zip(names, args))
    b.update(kw)
    return b.get(name, default)


class Balanced:
    """Stand-in for the balanced failure: symbols per frame and limit."""

    def __init__(self):
        self.frames = []          # A of each frame
        self.geos = []
        self.log = []

    def index(self, A):
        for i, B in enumerate(self.frames):
            if all(a is b for a, b in zip(A, B)):
                return i
        self.frames.append(A)
        return len(self.frames) - 1

    @staticmethod
    def syms(i, t):
        return tuple(sym(f'{n}{i}_{t}') for n in (
            'y_top', 'y_bot', 'ebt', 'ebb'))

    def line(self, i, t):
        """(y_n, y_p, e0, k) of the strain line through the two limits."""
        yn, yp, en, ep = self.syms(i, t)
        k = div(sub(en, ep), sub(yn, yp))
        return yn, yp, en, ep, k

    def hook(self, I, f, args, kw, node, fr, st):
        if f.name != BAL or f.cls is None:
            return None
        g = arg(f, args, kw, 'geom')
        G = parts(I, g, st)
        y = arg(f, args, kw, 'yielding', False)
        if G is None or not isinstance(y, bool):
            return None
        i = self.index(G['A'])
        if i == len(self.geos):
            self.geos.append((g, st.copy()))
        t = 'y' if y else 'u'
        self.log.append((i, t, node))
        yn, yp, en, ep, k = self.line(i, t)
        # en and ep are the strains at the two ends of the line
        e0 = sym(f'e0{i}_{t}')
        kk = sym(f'k{i}_{t}')
        return [(yn, yp, I.alloc(st, mat_list(e0, kk)))]

    def eps(self, i, t):
        """(y_n, y_p, strain at y_n, strain at y_p)."""
        yn, yp = self.syms(i, t)[:2]
        e0, k = sym(f'e0{i}_{t}'), sym(f'k{i}_{t}')
        return yn, yp, add(e0, mul(k, yn)), add(e0, mul(k, yp))


def mat_list(*x):
    from .interp import HList
    return HList(tuple(x) + (N.ZERO,))


def assumptions(frames=3):
    """Tension positive, compression negative, top above bottom."""
    out = []
    for i in range(frames):
        for t in 'uy':
            yn, yp, en, ep = Balanced().eps(i, t)
            out += [(N.lt(yp, yn), True), (N.lt(en, N.ZERO), True),
                    (N.lt(N.ZERO, ep), True)]
    return out


class Dom(SecWorld):
    def __init__(self, repo, have=False, names=(), assume=(), concrete=None):
        self.bal = Balanced()
        super().__init__(repo, have, list(names), assume=assumptions() +
                         list(assume), hooks={'call': self.bal.hook})
        if concrete is not None:
            self.set_concrete(concrete)

    def set_concrete(self, flag):
        I, st = self.I, self.W.st
        gs = I.iterate(self.W.attr(self.geo, 'geometries'), self.W.fr, st,
                       None)
        from .interp import HInst
        for g in gs:
            o = I.h(st, g)
            fl = dict(o.fields)
            fl['concrete'] = flag
            st.heap[g.id] = HInst(o.cls, fl, o.lazy)

    def bottom(self, theta):
        """Lowest coordinate of the section rotated by -theta."""
        g = self.W.method(self.geo, 'rotate', neg(theta))
        x = self.W.method(g, 'calculate_extents')
        r = self.I.iterate(x, self.W.fr, self.W.st, None)
        if r is None or len(r) != 4:
            return None
        return self.I._sc(r[2], self.W.st)

    def regular(self, thetas):
        """Bars above the bottom chord, below the top."""
        for i, t in enumerate(thetas):
            m = self.bottom(t)
            if m is None:
                continue
            for k in 'uy':
                yn, yp = self.bal.syms(i, k)[:2]
                self.W.st.facts.assume(N.lt(m, yp), True)
                self.W.st.facts.assume(N.lt(m, yn), True)

    def rows(self, v):
        r = mat.nd(self.I, v, self.W.st)
        if r is None or len(r[0]) != 2 or r[0][1] != 3:
            return None
        f = r[1]
        return [f[i:i + 3] for i in range(0, len(f), 3)]

    def vec(self, v):
        r = mat.nd(self.I, v, self.W.st)
        return None if r is None or len(r[0]) != 1 else r[1]


# ------------------------------------------------------------------ C18
def solver_calls(S):
    return [m for m in S.made if m[0] in SOLVERS]


def eq_arg(m, k, name):
    """Argument of a recorded solver call."""
    args, kw = m[1], m[2]
    return kw.get(name, args[k] if len(args) > k else None)


def frame_checks(chk, S, con, wh, theta):
    """The solvers see the section rotated by -theta and the axial load."""
    c, s = N.call('cos', theta), N.call('sin', theta)
    want = (c, s, neg(s), c)
    for m in solver_calls(S):
        cc = f'{con}: {m[0]}'
        if m[4] is None:
            chk.unknown('frame', cc, 'geometry not understood')
            continue
        for a, b in zip(m[4]['A'], want):
            verdict(chk, 'frame', cc, wh, a, b, S.W.st, 'the equilibrium is '
                    'not looked for in the section rotated by -theta')
        verdict(chk, 'load', cc, wh, S.I._sc(eq_arg(m, 2, 'n'), S.W.st),
                sym('n'), S.W.st, 'the equilibrium is not looked for with '
                'the given axial load')


def balanced_limit(chk, S, con, wh):
    """Response at the uniform limit strains of the section."""
    yn, yp, en, ep = S.bal.eps(0, 'u')
    return response(en, N.ZERO, N.ZERO)[0], response(ep, N.ZERO, N.ZERO)[0]


def limits(repo, chk):
    for have in (False, True):
        S = Dom(repo, have)
        con = f'calculate_limit_axial_load data {have}'
        wh = where(S.I, S.cls, 'calculate_limit_axial_load')
        v, ex = S.run('calculate_limit_axial_load')
        chk.seen(S.I)
        r = S.I.iterate(v, S.W.fr, S.W.st, None) if v is not UNDEF else None
        if r is None or len(r) != 2:
            chk.unknown('limit', con, repr(v))
            continue
        for x in S.bal.frames:
            for a, b in zip(x, (N.ONE, N.ZERO, N.ZERO, N.ONE)):
                verdict(chk, 'limit', f'{con}: frame', wh, a, b, S.W.st,
                        'the limit strains are not those of the section')
        for k, (x, w) in enumerate(zip(r, balanced_limit(chk, S, con, wh))):
            verdict(chk, 'limit', f'{con}: {("n_min", "n_max")[k]}', wh, x,
                    w, S.W.st, 'the limit axial load is not the response to '
                    'the uniform limit strain')
    for first in ('n_min', 'n_max'):
        S = Dom(repo)
        wh = where(S.I, S.cls, 'calculate_limit_axial_load')
        want = dict(zip(('n_min', 'n_max'), balanced_limit(chk, S, '', wh)))
        names = [first] + [x for x in want if x != first]
        for nm in names * 2:
            verdict(chk, 'limit', f'property {nm} ({first} first)', wh,
                    S.W.attr(S.calc, nm), want[nm], S.W.st, 'the limit '
                    'axial load is not the response to the limit strain')
    # the check: outside both ends raises, inside passes
    S = Dom(repo)
    lo, hi = balanced_limit(chk, S, '', '')
    n = sym('n')
    inside = [(N.le(lo, n), True), (N.le(n, hi), True)]
    for label, facts, raises in (
            ('below', [(N.lt(n, lo), True), (N.lt(lo, hi), True)], True),
            ('above', [(N.lt(hi, n), True), (N.lt(lo, hi), True)], True),
            ('inside', inside, False)):
        for name, args in (('check_axial_load', (n,)),
                           ('calculate_bending_strength', (THETA, n)),
                           ('calculate_moment_curvature', (THETA, n)),
                           ('calculate_mm_interaction_domain', (n,))):
            if raises is False and name != 'check_axial_load':
                continue
            kw = {}
            if name == 'calculate_moment_curvature':
                kw['num_pre_yield'] = const(2)
                kw['num_post_yield'] = const(1)
            if name == 'calculate_mm_interaction_domain':
                kw['num_theta'] = const(2)
            T = Dom(repo, names=SOLVERS, assume=facts)
            v, ex = T.run(name, *args, **kw)
            chk.seen(T.I)
            con = f'{name}: load {label} the limits'
            wh = where(T.I, T.cls, name)
            if raises:
                if v is not UNDEF or solver_calls(T):
                    chk.violation('load-check', con, wh, 'goes on with an '
                                  'axial load the section cannot take')
                elif [e for e in ex if e.value != 'ValueError']:
                    chk.violation('load-check', con, wh, 'does not raise '
                                  f'ValueError but {ex[0].value}')
                else:
                    chk.ok('load-check', con)
            elif v is UNDEF or ex:
                chk.violation('load-check', con, wh, 'rejects an axial load '
                              'within the limits')
            else:
                chk.ok('load-check', con)


def bending(repo, chk):
    for have in (False, True):
        S = Dom(repo, have, names=('check_axial_load',) + SOLVERS)
        name = 'calculate_bending_strength'
        con, wh = f'{name} data {have}', where(S.I, S.cls, name)
        v, ex = S.run(name, THETA, sym('n'))
        chk.seen(S.I)
        if not isinstance(v, Ref):
            chk.unknown('response', con, repr(v))
            continue
        W = S.W
        g = {k: W.attr(v, k) for k in ('theta', 'n', 'm_y', 'm_z', 'chi_y',
                                       'chi_z', 'eps_a')}
        if any(not isinstance(x, (Node, int, float)) for x in g.values()):
            chk.unknown('response', con, repr(g))
            continue
        verdict(chk, 'result', f'{con}: theta', wh, g['theta'], THETA, W.st,
                'the inclination is not the given one')
        at_strain(chk, S, con, wh, (g['n'], g['m_y'], g['m_z']),
                  (g['eps_a'], g['chi_y'], g['chi_z']))
        frame_checks(chk, S, con, wh, THETA)
        sc = solver_calls(S)
        if len(sc) != 1 or sc[0][0] != SOLVERS[0]:
            chk.unknown('strength', con, [m[0] for m in sc])
            continue
        if eq_arg(sc[0], 3, 'yielding') not in (None, False):
            chk.violation('strength', con, wh, 'the strain at yielding '
                          'instead of the ultimate one is reported')
        k = S.made.index(sc[0])
        chi_is(chk, S, con, wh, (g['eps_a'], g['chi_y'], g['chi_z']),
               sym(f'ea{k}'), sym(f'chi{k}'), THETA)


def chi_is(chk, S, con, wh, strain, ea, chi, theta):
    """The strain is the one found in the rotated section."""
    c, s = N.call('cos', theta), N.call('sin', theta)
    for x, w, nm in zip(strain, (ea, mul(chi, c), mul(chi, s)),
                        ('axial strain', 'chi_y', 'chi_z')):
        verdict(chk, 'strain', f'{con}: {nm}', wh, x, w, S.W.st,
                'the reported strain is not the one in equilibrium')


def at_strain(chk, S, con, wh, got, strain, skip_n=None):
    want = response(*strain)
    for k, (x, w) in enumerate(zip(got, want)):
        if k == 0 and skip_n is not None and N.equal(x, skip_n, S.W.st.facts):
            chk.ok('response', f'{con}: n')
            continue
        verdict(chk, 'response', f'{con}: {("n", "m_y", "m_z")[k]}', wh, x,
                w, S.W.st, 'the reported resultant is not the response of '
                'the section to the reported strain')


def curvature(repo, chk):
    name = 'calculate_moment_curvature'
    base = ('check_axial_load',) + SOLVERS
    k0, k1 = sym('k0'), sym('k1')
    cu, cy = sym('chi1'), sym('chi2')      # ultimate and yield curvature
    small = const(1e-8)
    one = const(1)

    def signs(sg, plastic):
        z = N.ZERO
        out = [(N.lt(z, x) if sg > 0 else N.lt(x, z), True)
               for x in (cu, cy)]
        a, b = (cu, cy) if sg > 0 else (neg(cu), neg(cy))
        out.append((N.lt(add(b, small), a) if plastic else N.le(a, b), True))
        out.append((N.lt(const(1e-6), b), True))
        return out
    cases = [('given', dict(chi='chi'), [], [k0, k1]),
             ('given integers', dict(chi='ints'), [], [const(0), const(1)])]
    kf = sym('kf')
    for sg in (1, -1):
        f = const(1e-8 * sg)
        for plastic in (True, False):
            want = [f, None, cy] if not plastic else [f, cy, None, cu]
            kw = dict(num_pre_yield=const(2 if plastic else 3),
                      num_post_yield=const(2))
            cases.append((f'generated {sg:+d} {plastic}', kw,
                          signs(sg, plastic), want))
        for s1 in (1, -1):
            # the first value is used with the sign of the yield curvature
            size = kf if s1 > 0 else neg(kf)
            top = cy if sg > 0 else neg(cy)
            first = size if sg > 0 else neg(size)
            kw = dict(chi_first=kf, num_pre_yield=const(4),
                      num_post_yield=const(3))
            cases.append((
                f'first value {s1:+d} generated {sg:+d}', kw,
                signs(sg, True) + [(N.lt(const(1e-7), size), True),
                                   (N.lt(add(size, const(1e-7)), top), True)],
                [first, ('between', first, cy), ('between', first, cy), cy,
                 ('between', cy, cu), ('between', cy, cu), cu]))
            # a first value that is too large is reduced
            kw = dict(chi_first=kf, num_pre_yield=const(2),
                      num_post_yield=const(1))
            cases.append((
                f'first value {s1:+d} too large {sg:+d}', kw,
                signs(sg, True) + [(N.lt(top, size), True)],
                [('between', N.ZERO, cy), cy, cu]))
    for label, kw, facts, want in cases:
        for have in (False, True):
            S = Dom(repo, have, names=base, assume=facts)
            W = S.W
            kw2 = dict(kw)
            if kw2.get('chi') == 'chi':
                kw2['chi'] = W.lst(k0, k1)
            elif kw2.get('chi') == 'ints':
                kw2['chi'] = S.I.alloc(W.st, HArr(
                    None, (N.ZERO, N.ONE), 'int'))
            con = f'{name}({label}) data {have}'
            wh = where(S.I, S.cls, name)
            v, ex = S.run(name, THETA, sym('n'), **kw2)
            chk.seen(S.I)
            if not isinstance(v, Ref):
                chk.unknown('response', con, [e.value for e in ex])
                continue
            for k, w in (('theta', THETA), ('n', sym('n'))):
                verdict(chk, 'result', f'{con}: {k}', wh, W.attr(v, k), w,
                        W.st, 'the result does not hold the given value')
            g = [S.vec(W.attr(v, k)) for k in (
                'eps_axial', 'chi_y', 'chi_z', 'm_y', 'm_z')]
            if any(x is None for x in g) or len({len(x) for x in g}) != 1:
                chk.unknown('response', con, repr(g)[:200])
                continue
            frame_checks(chk, S, con, wh, THETA)
            steps = [(S.made.index(m), m) for m in S.made
                     if m[0] == SOLVERS[1]]
            if len(g[0]) != len(want):
                chk.violation('curvatures', con, wh, f'{len(g[0])} points '
                              f'instead of {len(want)}')
                continue
            if len(steps) != len(want):
                chk.unknown('strain', con, f'{len(steps)} solver calls')
                continue
            for i, (e, ky, kz, my, mz) in enumerate(zip(*g)):
                cc = f'{con}: point {i}'
                k, m = steps[i]
                c = S.I._sc(eq_arg(m, 3, 'curv'), W.st)
                w = want[i]
                if isinstance(w, Node):
                    verdict(chk, 'curvatures', cc, wh, c, w, W.st,
                            'the curvature is not the documented one')
                elif isinstance(w, tuple):
                    between(chk, cc, wh, c, w, W.st, cy)
                chi_is(chk, S, cc, wh, (e, ky, kz), sym(f'ea{k}'), c, THETA)
                at_strain(chk, S, cc, wh, (sym('n'), my, mz), (e, ky, kz),
                          skip_n=sym('n'))
            if 'chi' not in kw:
                pv = [m for m in S.made if m[0] == SOLVERS[0]]
                ys = [eq_arg(m, 3, 'yielding') for m in pv]
                if len(pv) == 2 and [y is True for y in ys] == [False, True]:
                    chk.ok('curvatures', f'{con}: limits')
                else:
                    chk.unknown('curvatures', f'{con}: limits', ys)


def between(chk, con, wh, c, w, st, cy):
    """The curvature lies strictly between two others."""
    up = N.prove(st.facts, N.lt(N.ZERO, cy))
    a, b = (w[1], w[2]) if up else (w[2], w[1])
    if N.prove(st.facts, N.lt(a, c)) and N.prove(st.facts, N.lt(c, b)):
        chk.ok('curvatures', con)
        return
    for x, y in ((a, c), (c, b)):
        verdict(chk, 'curvatures', con, wh,
                N.ite(N.lt(x, y), N.ONE, N.ZERO), N.ONE, st,
                'the curvature is not between the documented ones')


NUM = dict(num_1=2, num_2=2, num_3=2, num_4=2, num_5=2, num_6=3)
KINDS = ('linear', 'geometric', 'quadratic')


def per_field(kind):
    """Spacing of each field; a number stands for a mixture of two."""
    if isinstance(kind, int):
        return [('linear', 'quadratic')[(f + 1) >> kind & 1]
                for f in range(6)]
    return [kind] * 6


def counts_of(kind):
    """Other spacings with one profile in field 1, as by default."""
    return list({**NUM, 'num_1': 2 if kind not in KINDS[1:] else 1}.values())


def kinds(kind):
    d = {k: const(v) for k, v in zip(NUM, counts_of(kind))}
    d.update({f'type_{i + 1}': k for i, k in enumerate(per_field(kind))})
    return d


def mixed_runs():
    """Every two fields have different spacings in one of the runs."""
    for k in range(3):
        yield (f'calculate_nm_interaction_domain(complete=True, mixed {k})',
               'calculate_nm_interaction_domain', (THETA,),
               dict(complete_domain=True, **kinds(k)), k)
        yield (f'calculate_nmm_interaction_domain(mixed {k})',
               'calculate_nmm_interaction_domain', (),
               dict(num_theta=const(1), **kinds(k)), k)


def domain_runs():
    for c in (False, True):
        for k in (KINDS if not c else KINDS[:1]):
            yield (f'calculate_nm_interaction_domain(complete={c}, {k})',
                   'calculate_nm_interaction_domain', (THETA,),
                   dict(complete_domain=c, **kinds(k)))
    yield ('calculate_nmm_interaction_domain',
           'calculate_nmm_interaction_domain', (),
           dict(num_theta=const(3), **kinds('linear')))


def domains(repo, chk):
    for label, name, args, kw in domain_runs():
        for have in (False, True):
            S = Dom(repo, have)
            S.regular([THETA])
            con, wh = f'{label} data {have}', where(S.I, S.cls, name)
            v, ex = S.run(name, *args, **kw)
            chk.seen(S.I)
            if not isinstance(v, Ref):
                chk.unknown('response', con, [e.value for e in ex])
                continue
            e, f = (S.rows(S.W.attr(v, k)) for k in ('strains', 'forces'))
            if e is None or f is None or len(e) != len(f):
                chk.unknown('response', con, 'arrays not understood')
                continue
            for i, (x, y) in enumerate(zip(e, f)):
                at_strain(chk, S, f'{con}: row {i}', wh, y, x)
            cols(chk, S, con, wh, v, e, f)
    name = 'calculate_mm_interaction_domain'
    for have in (False, True):
        S = Dom(repo, have, names=('check_axial_load',) + SOLVERS)
        con, wh = f'{name} data {have}', where(S.I, S.cls, name)
        v, ex = S.run(name, sym('n'), num_theta=const(4))
        chk.seen(S.I)
        if not isinstance(v, Ref):
            chk.unknown('response', con, [e.value for e in ex])
            continue
        e, f = (S.rows(S.W.attr(v, k)) for k in ('strains', 'forces'))
        th = S.vec(S.W.attr(v, 'theta'))
        sc = solver_calls(S)
        if e is None or f is None or th is None or not (
                len(e) == len(f) == len(th) == len(sc) == 4):
            chk.unknown('response', con, 'arrays not understood')
            continue
        verdict(chk, 'result', f'{con}: num_theta', wh,
                S.W.attr(v, 'num_theta'), const(4), S.W.st, 'num_theta is '
                'not the given one')
        for i, (x, y) in enumerate(zip(e, f)):
            cc = f'{con}: row {i}'
            at_strain(chk, S, cc, wh, y, x, skip_n=sym('n'))
            verdict(chk, 'result', f'{cc}: theta', wh, th[i],
                    mul(const(i), div(const(2 * 3.141592653589793),
                                      const(3))), S.W.st,
                    'the inclinations do not divide the circle evenly')
            k = S.made.index(sc[i])
            chi_is(chk, S, cc, wh, x, sym(f'ea{k}'), sym(f'chi{k}'), th[i])
        cols(chk, S, con, wh, v, e, f)


def cols(chk, S, con, wh, v, e, f):
    """The views of the result are the columns of its arrays."""
    for rows, names in ((e, ('e_a', 'k_y', 'k_z')), (f, ('n', 'm_y',
                                                        'm_z'))):
        for j, nm in enumerate(names):
            x = S.vec(S.W.attr(v, nm))
            if x is None or len(x) != len(rows):
                chk.unknown('columns', f'{con}: {nm}', 'not understood')
                continue
            for r, y in zip(rows, x):
                verdict(chk, 'columns', f'{con}: {nm}', wh, y, r[j], S.W.st,
                        'the view is not the column of the array')


def c18(repo, chk):
    limits(repo, chk)
    bending(repo, chk)
    curvature(repo, chk)
    domains(repo, chk)
    chk.minimum = 300


KNOWN_CALLS.update(('Nsec', 'Mysec', 'Mzsec'))


# ------------------------------------------------------------------ C17
def inner_cond(t):
    """A condition of a term that holds no conditional itself."""
    while True:
        c = N._first_cond(t)
        if c is None:
            return None
        if N._first_cond(c) is None:
            return c
        t = c


def paths(facts, terms, taken=(), limit=None):
    """The cases of the conditionals in some terms."""
    limit = limit if limit is not None else [4000]
    terms = [facts.simplify(t) for t in terms]
    c = next((c for c in map(inner_cond, terms) if c is not None), None)
    if c is None or len(taken) > 40 or limit[0] <= 0:
        yield facts, terms, taken, c is None
        return
    limit[0] -= 1
    for t in (True, False):
        f = facts.copy()
        if not f.assume(c, t) or f.bad:
            continue
        yield from paths(f, [N._force(x, c, t) for x in terms],
                         taken + ((c, t),), limit)


def smallest(x, others, taken):
    """Is x the smallest of the others, by the comparisons taken?"""
    ids = []

    def num_of(v):
        for i, w in enumerate(ids):
            if v is w or N.nf_equal(v, w):
                return i
        ids.append(v)
        return len(ids) - 1
    below = {}
    for c, t in taken:
        if c.op != 'cmp' or c.args[0] not in ('lt', 'le'):
            continue
        a, b = num_of(c.args[1]), num_of(c.args[2])
        if not t:
            a, b = b, a
        below.setdefault(a, set()).add(b)      # a <= b
    seen, todo = set(), [num_of(x)]
    while todo:
        i = todo.pop()
        if i not in seen:
            seen.add(i)
            todo += below.get(i, ())
    return all(num_of(q) in seen for q in others)


def lim(tag, side, kind):
    return N.call(f'lim_{side}{kind}', tag)


def near(a, b):
    return N.le(N.fabs(sub(a, b)), const(1e-6))


def conj(xs):
    r = None
    for x in xs:
        r = x if r is None else N.and_(r, x)
    return r


def disj(xs):
    return N.not_(conj([N.not_(x) for x in xs]))


class Failure:
    """get_balanced_failure_strain of a section of some parts."""

    def __init__(self, repo, spec, order):
        S = self.S = SecWorld(repo, False, [])
        I, W = S.I, S.W
        self.assumed = []
        from .intcheck import law, material
        SG, PG, CG = (I.get(f'{GEOM}:{n}') for n in (
            'SurfaceGeometry', 'PointGeometry', 'CompoundGeometry'))
        items, self.parts = [], []
        for i, (kind, concrete) in enumerate(spec):
            tag = f'L{i}'
            m = material(W, law(W, tag), tag)
            if kind == 's':
                p = shp.polygon(f'S{i}')
                items.append(W.call(SG, p, m, concrete=concrete))
                b = [N.call(f'bound{k}', p) for k in range(4)]
                lo, hi = b[1], b[3]
                self.assume(N.lt(lo, hi))
            else:
                y, z, d = sym(f'yb{i}'), sym(f'zb{i}'), sym(f'db{i}')
                items.append(W.call(PG, shp.geo('Point', y, z), d, m))
                lo = hi = z
            self.parts.append((tag, kind, concrete, lo, hi))
            for k in 'uy':
                self.assume(N.lt(lim(tag, 'n', k), N.ZERO))
                self.assume(N.lt(N.ZERO, lim(tag, 'p', k)))
        self.geo = W.call(CG, W.lst(*items))
        self.sec = W.call(I.get('structuralcodes.sections._generic:'
                                'GenericSection'), self.geo)
        self.calc = W.attr(self.sec, 'section_calculator')
        ends = {}
        for i, p in enumerate(self.parts):
            ends[f'{i}l'], ends[f'{i}h'] = p[3], p[4]
        for a, b in itertools.combinations(order, 2):
            self.assume(N.lt(ends[a], ends[b]))
        self.rc = any(c for _, k, c, _, _ in self.parts if k == 's')

    def assume(self, c):
        self.assumed.append(c)
        self.S.W.st.facts.assume(c, True)

    def sample(self, goal):
        """Values for which the goal does not hold, or None."""
        from .refute import has_unk, sat
        if has_unk(goal):
            return None
        m = {}
        for t in [goal, *self.assumed]:
            for x in N.walk(t):
                if x.op == 'call' and x.args[0].startswith(('lim_',
                                                            'bound')):
                    m.setdefault(x, sym(f'_{len(m)}_{x.args[0]}'))
        f = self.S.W.st.facts.__class__()
        for c in self.assumed:
            f.assume(N.subst(c, m), True)
        return sat([(N.subst(goal, m), False)], f, tries=20000)

    def pairs(self, yielding):
        """(y_n, y_p, limit at y_n, limit at y_p) of admissible pairs."""
        out = []
        for g in self.parts:
            for o in self.parts:
                yp, yn = g[3], o[4]
                if not N.prove(self.S.W.st.facts, N.lt(yp, yn)):
                    continue
                y = yielding and (o[2] if self.rc else True)
                out.append((yn, yp, lim(o[0], 'n', 'y' if y else 'u'),
                            lim(g[0], 'p', 'y' if yielding else 'u')))
        return out


FAILURES = (
    # parts (surface / bar, concrete) and the order of their ends
    ('concrete, two bars', [('s', True), ('b', None), ('b', None)],
     ['0l', '1l', '2l', '0h']),
    ('concrete, bars in the other order', [('s', True), ('b', None),
                                           ('b', None)],
     ['0l', '2l', '1l', '0h']),
    ('steel, a bar', [('s', False), ('b', None)], ['0l', '1l', '0h']),
    ('bar below the surface', [('s', True), ('b', None)],
     ['1l', '0l', '0h']),
    ('bar above the surface', [('s', True), ('b', None)],
     ['0l', '0h', '1l']),
    ('concrete on steel', [('s', True), ('s', False)],
     ['1l', '1h', '0l', '0h']),
    ('steel in concrete', [('s', False), ('s', True)],
     ['1l', '0l', '0h', '1h']),
)


def failure(repo, chk):
    for label, spec, order in FAILURES:
        for yielding in (False, True):
            F = Failure(repo, spec, order)
            S, W = F.S, F.S.W
            con = f'{BAL}({label}, yielding={yielding})'
            wh = where(S.I, S.cls, BAL)
            ps = F.pairs(yielding)
            chis = []
            for yn, yp, en, ep in ps:
                c = div(sub(ep, en), sub(yn, yp))
                F.assume(N.lt(c, const(1e9)))
                chis.append(c)
            v = W.method(F.calc, BAL, F.geo, yielding=yielding)
            chk.seen(S.I)
            r = S.I.iterate(v, W.fr, W.st, None) if v is not UNDEF else None
            s = S.I.iterate(r[2], W.fr, W.st, None) if r and len(
                r) == 3 else None
            if s is None or len(s) != 3:
                chk.unknown('failure', con, repr(v))
                continue
            yn, yp, e0, k, kz = (S.I._sc(x, W.st) for x in (
                r[0], r[1], *s))
            verdict(chk, 'failure', f'{con}: kz', wh, kz, N.ZERO, W.st,
                    'the failure strain is not uniaxial bending')
            ok = True
            n = 0
            for f, (a, b, c, d), taken, full in paths(W.st.facts, [yn, yp, e0, k]):
                n += 1
                if not full or not any(
                        N.equal(a, p[0], f) and N.equal(b, p[1], f)
                        and N.equal(add(c, mul(d, p[0])), p[2], f)
                        and N.equal(add(c, mul(d, p[1])), p[3], f)
                        for p in ps) or not smallest(
                            neg(d), chis, taken):
                    ok = False
                    break
            if ok and n:
                for _ in range(n):
                    chk.ok('failure', con)
                continue
            goal = disj([conj([near(yn, p[0]), near(yp, p[1]), near(
                add(e0, mul(k, p[0])), p[2]), near(
                add(e0, mul(k, p[1])), p[3])]) for p in ps])
            least = conj([N.le(neg(k), add(q, const(1e-6)))
                          for q in chis])
            for g, text in ((goal, 'the strains at the two ends are not '
                             'limits of two parts at these ends'),
                            (least, 'a part exceeds its limit strain: the '
                             'curvature is not the smallest one')):
                w = F.sample(g)
                if w:
                    chk.violation('failure', con, wh, f'{text}, e.g. for ' +
                                  ', '.join(f'{a}={x:.3g}' for a, x in
                                            sorted(w.items())))
                    break
            else:
                chk.unknown('failure', con, 'not proved')


# the profiles of an interaction domain
def trig(theta):
    if theta is N.ZERO:
        return N.ONE, N.ZERO
    return N.call('cos', theta), N.call('sin', theta)


def frame_of(S, theta):
    c, s = trig(theta)
    want = (c, s, neg(s), c)

    def eq(a, b):
        va, vb = num(a), num(b)
        if va is not None and vb is not None:
            return abs(va - vb) < 1e-9
        return N.equal(a, b, S.W.st.facts)
    for same in (lambda a, b: N.equal(a, b, S.W.st.facts), eq):
        for i, A in enumerate(S.bal.frames):
            if all(same(a, b) for a, b in zip(A, want)):
                return i
    return None


def num(t):
    from .refute import NoValue, evalt
    if any(x.op in ('sym', 'unk') for x in N.walk(t)):
        return None
    try:
        return float(evalt(t, {}))
    except NoValue:
        return None


def profile_rules(chk, S, con, wh, rows, counts, kind, theta, rc):
    """The strain profiles of one inclination, in order."""
    i = frame_of(S, theta)
    if i is None:
        chk.violation('frame', con, wh, 'the failure strains are not those '
                      'of the section rotated by minus the inclination')
        return
    st = S.W.st
    used = {t for j, t, _ in S.bal.log if j == i}
    if used != {'u', 'y'}:
        chk.unknown('frame', con, f'limits {sorted(used)}')
        return
    yn, yp, en, ep = S.bal.eps(i, 'u')
    _, _, ny, py = S.bal.eps(i, 'y')
    ymin = S.bottoms[i]
    h = sub(yn, ymin)
    c, s = trig(theta)
    r = 0
    Z = N.ZERO
    #    end it starts at, start, end, what stays fixed
    lower = mul(en, div(sub(yp, ymin), h))
    uni = ny if rc else en
    zp = sub(yn, mul(sub(N.ONE, div(ny, en)), h))
    fields = [(yn, ep, Z, (yp, ep)), (yn, Z, en, (yp, ep)),
              (yp, ep, py, (yn, en)), (yp, py, Z, (yn, en)),
              (yp, Z, lower, (yn, en)),
              (yp, lower, uni, (zp, ny) if rc else (yn, en))]
    every = per_field(kind)
    for f, (y, a, b, (yf, ef)) in enumerate(fields):
        m, kind = counts[f], every[f]
        last = f == 5
        for j in range(m):
            e0, ky, kz = rows[r]
            r += 1
            cc = f'{con}: field {f + 1} row {j}'
            verdict(chk, 'frame', cc, wh, sub(mul(kz, c), mul(ky, s)), Z, st,
                    'the neutral axis does not have the inclination')
            k = add(mul(ky, c), mul(kz, s))

            def at(z, e0=e0, k=k):
                return add(e0, mul(k, z))
            verdict(chk, 'pivot', cc, wh, at(yf), ef, st, 'the strain at the '
                    'pivot of the field is not the limit strain')
            if j == 0:
                verdict(chk, 'start', cc, wh, at(y), a, st, 'the field does '
                        'not start where the previous one ends')
            elif last and j == m - 1:
                verdict(chk, 'end', cc, wh, k, Z, st, 'the last profile is '
                        'not the uniform compression')
                verdict(chk, 'end', cc, wh, e0, uni, st, 'the last profile '
                        'is not the uniform compression')
            elif kind == 'linear':
                t = div(const(j), const(m - 1 if last else m))
                verdict(chk, 'spacing', cc, wh, at(y),
                        add(a, mul(t, sub(b, a))), st, 'the profiles are '
                        'not evenly spaced')
            elif kind == 'quadratic' and N.equal(at(y), add(a, mul(
                    div(const(j), const(m - 1 if last else m)),
                    sub(b, a))), st.facts):
                chk.violation('spacing', cc, wh, 'the profiles are evenly '
                              'spaced, not as asked for')
            elif N.equal(at(y), b, st.facts):
                chk.violation('spacing', cc, wh, 'the last profile of the '
                              'field is the first one of the next field')
            else:
                chk.ok('spacing', cc)


def profiles(repo, chk):
    from math import pi as PI
    runs = [(*x, rc, None) for x in domain_runs() for rc in (True, False)]
    runs += [(*x[:4], False, x[4]) for x in mixed_runs()]
    for label, name, args, kw, rc, mix in runs:
        S = Dom(repo, concrete=rc)
        nmm = 'nmm' in name
        if nmm and mix is not None:
            th = [const(0)]
        elif nmm:
            th = [const(0), const(PI), const(2 * PI)]
        elif kw['complete_domain']:
            th = [THETA, add(THETA, const(PI))]
        else:
            th = [THETA]
        S.regular(th[:2] if nmm else th)
        con = f'{label} {"RC" if rc else "not RC"}'
        wh = where(S.I, S.cls, name)
        v, ex = S.run(name, *args, **kw)
        chk.seen(S.I)
        if not isinstance(v, Ref):
            chk.unknown('pivot', con, [e.value for e in ex])
            continue
        S.bottoms = []
        for g, st in S.bal.geos:
            W = World(S.I)
            W.st = st
            x = S.I.iterate(W.method(g, 'calculate_extents'), W.fr, st,
                            None)
            S.bottoms.append(S.I._sc(x[2], st))
        e = S.rows(S.W.attr(v, 'strains'))
        fn = S.vec(S.W.attr(v, 'field_num'))
        kind = kw['type_1'] if mix is None else mix
        counts = counts_of(kind)
        if e is None or fn is None:
            chk.unknown('pivot', con, 'arrays not understood')
            continue
        num_ = [f + 1 for f, m in enumerate(counts) for _ in range(m)]
        one = len(num_)
        if nmm:
            want = num_ * len(th)
            groups = [e[k * one:(k + 1) * one] for k in range(len(th))]
        elif kw['complete_domain']:
            want = num_ + num_[-2:0:-1]
            back = e[one:]
            # the profiles shared by the two halves are left out
            groups = [e[:one], [e[0]] + back[::-1] + [e[one - 1]]]
        else:
            want, groups = num_, [e]
        if len(fn) != len(want) or len(e) != len(want):
            chk.violation('field', con, wh, f'{len(e)} profiles with '
                          f'{len(fn)} fields instead of {len(want)}')
            continue
        for k, (a, b) in enumerate(zip(fn, want)):
            verdict(chk, 'field', f'{con}: row {k}', wh, a, const(b),
                    S.W.st, 'the field number is not the one of the '
                    'profile')
        for k, (t, rows) in enumerate(zip(th, groups)):
            cc = f'{con}: inclination {k}'
            if kw.get('complete_domain') and k == 1:
                # first and last are not there: not looked at
                half(chk, S, cc, wh, rows, counts, kind, t, rc)
            else:
                profile_rules(chk, S, cc, wh, rows, counts, kind, t, rc)
        for k, w in (('theta', THETA), (
                'num_theta', const(len(th)))):
            if k == ('num_theta' if nmm else 'theta'):
                verdict(chk, 'result', f'{con}: {k}', wh, S.W.attr(v, k),
                        w, S.W.st, 'the result does not hold the given '
                        'value')


def half(chk, S, con, wh, rows, counts, kind, t, rc):
    """As above; the shared first and last profile come from elsewhere."""
    i = frame_of(S, t)
    if i is not None:
        yn, yp, en, ep = S.bal.eps(i, 'u')
        ny = S.bal.eps(i, 'y')[2]
        rows = [[ep, N.ZERO, N.ZERO]] + rows[1:-1] + [
            [ny if rc else en, N.ZERO, N.ZERO]]
    profile_rules(chk, S, con, wh, rows, counts, kind, t, rc)


def numbers(repo, chk):
    """Number of profiles per field for a total number."""
    share = (1, 2, 15, 10, 3, 4)
    for total, mins in ((None, (2, 3, 1, 4, 5, 6)), (35, (1, 1, 1, 1, 1, 2)), (70, (1, 2, 3, 4, 5, 6)),
                        (105, (9, 1, 50, 1, 1, 2)),
                        (3, (1, 2, 3, 2, 1, 2)), (36, (1, 3, 15, 11, 2, 5))):
        for name in ('calculate_nm_interaction_domain',
                     'calculate_nmm_interaction_domain'):
            S = Dom(repo)
            kw = {f'num_{k + 1}': const(m) for k, m in enumerate(mins)}
            kw.update({f'type_{k}': 'linear' for k in range(1, 7)})
            if 'nmm' in name:
                kw['num_theta'] = const(1)
            if total is not None:
                kw['num'] = const(total)
            v, ex = S.run(name, **kw)
            con = f'{name}(num={total}, minimum {mins})'
            wh = where(S.I, S.cls, name)
            fn = S.vec(S.W.attr(v, 'field_num')) if isinstance(v, Ref) \
                else None
            if fn is None or any(num(x) is None for x in fn):
                chk.unknown('number', con, [e.value for e in ex])
                continue
            got = [round(num(x)) for x in fn]
            got = [got.count(k + 1) for k in range(6)]
            want = list(mins) if total is None else [
                max(total * s // 35, m) for s, m in zip(share, mins)]
            if got == want:
                chk.ok('number', con)
            else:
                chk.violation('number', con, wh, f'{got} profiles in the '
                              f'fields instead of {want}')


def c17(repo, chk):
    failure(repo, chk)
    profiles(repo, chk)
    numbers(repo, chk)
    chk.minimum = 300
