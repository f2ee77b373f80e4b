"""Laws without closed-form Marin coefficients (C03) and materials with an
initial stress (C14), for an unknown law."""

from __future__ import annotations

from . import nodes as N
from .intcheck import interp, law, where
from .lawcheck import KNOWN_CALLS, verdict
from .nodes import Node, const, sym
from .refute import INTERPRETED, NoValue, evalt, has_unk
from .interp import Ref, UNDEF
from .util import World, flat

BASE = 'structuralcodes.core.base'
CL = 'structuralcodes.materials.constitutive_laws'
KNOWN = ('sig',)        # the unknown law


# ------------------------------------------------------------- piecewise
def sampled(repo, chk):
    KNOWN_CALLS.update(KNOWN)
    for pos in (True, False):
        for neg in (True, False):
            points(repo, chk, pos, neg)
    for name in ('__marin__', '__marin_tangent__'):
        passed_on(repo, chk, name)


def points(repo, chk, pos, neg):
    """The piecewise linear law lies on the law."""
    seen = []
    lo, hi = sym('eps_min'), sym('eps_max')
    lims = [sym('lim_p') if pos else None, sym('lim_n') if neg else None]

    def call(I, f, args, kw, node, fr, st):
        # the search on a fine grid for the last strain with a stress
        if f.name == 'find_x_lim':
            seen.append(args)
            return [lims[(len(seen) - 1) % 2]]
        if f.name == 'get_ultimate_strain':
            return [(lo, hi)]
        return None
    I = interp(repo, {'call': call})
    W = World(I, assume=[(N.lt(N.ZERO, x), True) for x in lims
                     if x is not None]
              + [(N.lt(lo, N.ZERO), True), (N.lt(N.ZERO, hi), True)])
    A = law(W, 'A')
    o = W.method(A, '_discretize_law')
    con = f'stress in tension: {pos}, in compression: {neg}'
    wh = where(I, I.get(f'{BASE}:ConstitutiveLaw'), '_discretize_law')
    if len(seen) != 2:
        chk.unknown('sampled', con, 'no search for the last strain')
        return
    if not isinstance(o, Ref):
        ex = sorted({str(e.value) for e in W.fr.exits if e.kind == 'raise'})
        if o is UNDEF and ex:
            chk.violation('sampled', con, wh, 'no piecewise linear law can '
                          f'be made: {ex}')
        else:
            chk.unknown('sampled', con, o)
        return
    x, y = (row(I, W, W.attr(o, n)) for n in ('_x', '_y'))
    if x is None or y is None:
        chk.unknown('sampled', con, 'points not understood')
        return
    for i, (p, q) in enumerate(zip(x, y)):
        verdict(chk, 'sampled', f'{con}: stress {i}', wh, q,
                W.method(A, 'get_stress', p), W.st,
                'a point of the piecewise linear law is not on the law')
    ends = [N.neg(lims[1]) if neg else lo,
            lims[0] if pos else N.ZERO]
    for k, (p, q) in enumerate(zip((x[0], x[-1]), ends)):
        verdict(chk, 'sampled', f'{con}: end {k}', wh, p, q, W.st,
                'the piecewise linear law does not end at the last strain '
                'with a stress')
    for p, q in zip(x, x[1:]):
        holds(chk, 'sampled', f'{con}: order', wh, N.lt(p, q), W,
              'the strains of the piecewise linear law do not increase')
    if any(N.equal(p, N.ZERO, W.st.facts) for p in x):
        chk.ok('sampled', f'{con}: origin')
    else:
        chk.violation('sampled', f'{con}: origin', wh, 'the piecewise linear '
                      'law has no point at zero strain')
    chk.seen(I)


def row(I, W, v):
    it = I.iterate(v, W.fr, W.st, None)
    if it is None:
        return None
    out = [I._sc(x, W.st) for x in it]
    return out if all(isinstance(x, Node) for x in out) else None


def number(W, v):
    """A number, also if it is kept in an array without dimensions."""
    if isinstance(v, Ref):
        o = W.h(v)
        e = getattr(o, 'elem', None)
        its = getattr(o, 'items', None)
        if isinstance(its, tuple) and len(its) == 1:
            e = its[0]
        return e if isinstance(e, Node) else v
    return v


def holds(chk, rule, con, wh, goal, W, text):
    if N.prove(W.st.facts, goal):
        chk.ok(rule, con)
        return
    verdict(chk, rule, con, wh, N.ite(goal, N.ONE, N.ZERO), N.ONE, W.st, text)


def passed_on(repo, chk, name):
    """The coefficients are those of the piecewise linear law."""
    box = []

    def call(I, f, args, kw, node, fr, st):
        if f.name == '_discretize_law':
            return [box[0]]
        return None
    I = interp(repo, {'call': call})
    e0, k = sym('e0'), sym('k')
    for cn in ('Sargin', 'Popovics'):
        W = World(I, assume=[(N.lt(N.ZERO, sym(p)), True) for p in (
            'fc', 'eps_c', 'eps_cu')])
        box[:] = [law(W, 'B')]
        c = I.get(f'{CL}:{cn}')
        if c.lookup(name)[1] is not I.get(f'{BASE}:ConstitutiveLaw'):
            continue
        o = W.call(c, sym('fc'), sym('eps_c'), sym('eps_cu'))
        for lab, cv in (('linear', k), ('constant', N.ZERO)):
            arg = W.lst(e0, cv)
            got = W.method(o, name, strain=arg)
            want = W.method(box[0], name, strain=arg)
            con = f'{cn}.{name} {lab}'
            a, b = flat(W, got), flat(W, want)
            if a == b:
                chk.ok('sampled', con)
            else:
                chk.violation('sampled', con, where(I, c, name),
                              'not what the piecewise linear law returns')
    chk.seen(I)


# ---------------------------------------------------------- initial stress
GENERIC = 'structuralcodes.materials.basic:GenericMaterial'
TOL = 1e-12


def build(repo, given=None, **opts):
    I = interp(repo)
    I.opts.update(opts)
    W = World(I)
    A = law(W, 'A')
    S = sym('S')
    g0 = len(W.st.guard)
    o = W.call(I.get(GENERIC), sym('density'), A, initial_stress=S,
               **(given or {}))
    e0 = W.attr(o, 'initial_strain')
    goal = N.le(N.fabs(N.sub(S, W.method(A, 'get_stress', e0))),
                const(TOL)) if isinstance(e0, Node) else None
    return I, W, A, S, o, e0, goal, g0


def stressed(repo, chk):
    """The stress of a material without strain is the initial stress."""
    KNOWN_CALLS.update(KNOWN)
    I, W, A, S, o, e0, goal, g0 = build(repo, induct=True)
    wh = where(I, I.get(f'{BASE}:Material'), '_initial_strain_from_stress')
    con = 'GenericMaterial[initial_stress]'
    chk.seen(I)
    verdict(chk, 'initial-stress', f'{con}.initial_stress', wh,
            W.attr(o, 'initial_stress'), S, W.st,
            'initial_stress is not the one given')
    if goal is None:
        chk.unknown('initial-stress', con, repr(e0))
        return
    cl = W.attr(o, 'constitutive_law')
    verdict(chk, 'initial-stress', f'{con}.constitutive_law', wh,
            number(W, W.method(cl, 'get_stress', N.ZERO)), W.method(A, 'get_stress', e0),
            W.st, 'the law does not start from the initial strain')
    x = sym('eps')
    for given in (None, True, False):
        I2, W2, A2, S2, o2, e2, _, _ = build(
            repo, {} if given is None else {'strain_compatibility': given},
            induct=True)
        if not isinstance(e2, Node):
            continue
        want = e2 if given is False else N.add(x, e2)
        got = number(W2, W2.method(W2.attr(o2, 'constitutive_law'),
                                   'get_stress', x))
        c2 = f'{con}: law, strain compatibility {given}'
        other = W2.method(A2, 'get_stress',
                          N.add(x, e2) if given is False else e2)
        want = W2.method(A2, 'get_stress', want)
        if isinstance(got, Node) and N.equal(got, other, W2.st.facts):
            chk.violation('initial-stress', c2, wh, 'the law does not '
                          'respond to the strain as strain compatibility '
                          'tells')
            continue
        verdict(chk, 'initial-stress', c2, wh, got, want, W2.st,
                'the law does not act from the initial strain')
    for e in W.fr.exits:
        if e.kind == 'raise' and e.value not in ('ValueError',
                                                 'RuntimeError'):
            chk.unknown('initial-stress', con, e.value)
    if N.prove(W.st.facts, goal):
        chk.ok('initial-stress', f'{con}: stress')
    else:
        r = miss(repo)
        if r:
            chk.violation('initial-stress', f'{con}: stress', wh,
                          'the stress at the initial strain is not the '
                          f'initial stress given, {r}')
        else:
            chk.unknown('initial-stress', f'{con}: stress', 'not proved')
    # not both
    I = interp(repo)
    W = World(I)
    W.call(I.get(GENERIC), sym('density'), law(W, 'A'),
           initial_stress=sym('S'), initial_strain=sym('e0'))
    ex = [e for e in W.fr.exits if e.kind == 'raise']
    if any(e.value == 'ValueError' and len(e.guard) == 0 for e in ex):
        chk.ok('initial-stress', 'initial strain and stress')
    else:
        chk.violation('initial-stress', 'initial strain and stress',
                      where(I, I.get(f'{BASE}:Material'), '__init__'),
                      'an initial strain and an initial stress are accepted '
                      'together')


def miss(repo, passes=3):
    """A law and a stress for which the search returns another stress."""
    import random
    rng = random.Random(11)
    I, W, A, S, o, e0, goal, g0 = build(repo, passes=passes, limit=passes)
    if goal is None or has_unk(goal):
        return None
    outs = list(I.cuts) + [e.guard for e in W.fr.exits if e.kind == 'raise']
    keep = {f: INTERPRETED.get(f) for f in ('sig', 'tan')}
    far = N.le(N.fabs(N.sub(S, W.method(A, 'get_stress', e0))), const(1e-11))
    try:
        for _ in range(800):
            a, b = rng.uniform(0.5, 2), rng.choice([0, 0.1, 0.5, 3])
            INTERPRETED['sig'] = lambda t, e: a * e + b * e * e
            INTERPRETED['tan'] = lambda t, e: a + 2 * b * e
            env = {S.id: rng.uniform(-1, 1) * rng.choice([1, 1e-3, 1e3])}
            memo = {}
            try:
                if any(all(bool(evalt(c, env, memo)) == t for c, t in g)
                       for g in outs):
                    continue
                if not evalt(far, env, memo):
                    return (f'e.g. for the stress {a:.4g} e + {b:.4g} e^2 '
                            f'and {env[S.id]:.4g}')
            except NoValue:
                continue
    finally:
        for f, g in keep.items():
            INTERPRETED.pop(f, None) if g is None else \
                INTERPRETED.__setitem__(f, g)
    return None
