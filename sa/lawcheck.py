"""Rules over the constitutive laws (properties C01-C06)."""

from __future__ import annotations

from . import nodes as N
from .interp import Cls, HArr, HList, Interp, Ref, UNDEF
from .util import World
from .laws import (CL, LawRun, cases, elem, in_region, region_label, regions)
from .nodes import Node, const, lt, sym
from .refute import refute
from .repo import AnalysisBroken, loc

EPS = sym('eps')
S0, S1 = sym('s0'), sym('s1')


def strain_at(case, x):
    return x if case.shift is None else N.add(x, case.shift)


def scalar(I, st, x):
    return [x], {}


def array(I, st, x):
    return [I.alloc(st, HArr(x, None, 'float'))], {}


def listarg(I, st, x):
    return [I.alloc(st, HList((x,), 'list', 'elementwise'))], {}


def intarray(I, st, x):
    return [I.alloc(st, HArr(x, None, 'int'))], {}


def method_loc(I, case_label, name):
    cls = case_label.split('[')[0].split('(')[0]
    try:
        c = I.get(f'{CL}:{cls}')
    except AnalysisBroken:
        return cls
    f, owner = c.lookup(name)
    if f is None:
        return loc(c.module, c.node)
    return f'{loc(f.module, f.node)} {owner.name}.{name}'


def verdict(chk, rule, construct, where, a, b, st, text):
    """a must equal b under the facts of st."""
    if isinstance(a, Ref) or isinstance(b, Ref) or a is UNDEF or b is UNDEF:
        chk.unknown(rule, construct, f'{a!r} vs {b!r}')
        return
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        if a is b:
            chk.ok(rule, construct)
        else:
            chk.violation(rule, construct, where, f'{text}: {a!r} / {b!r}')
        return
    if N.equal(a, b, st.facts):
        chk.ok(rule, construct)
        return
    if chk.enough():
        chk.unknown(rule, construct, 'not searched for a difference: enough '
                    'violations')
        return
    w = None if opaque(a) or opaque(b) else refute(a, b, st.facts)
    if w is None:
        chk.unknown(rule, construct, f'{a!r} vs {b!r}')
        return
    env = ', '.join(f'{k}={v:.4g}' for k, v in sorted(w[0].items()))
    chk.violation(rule, construct, where,
                  f'{text}: {N.show(a)} / {N.show(b)}'
                  f' (differ e.g. at {env})')


KNOWN_CALLS = {'exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'trunc', 'interp',
               'atan2', 'round', 'floor', 'ceil', 'log10', 'acos', 'asin',
               'atan'}


def opaque(v):
    """Does a term contain something the value graph does not model?"""
    for x in N.walk(v):
        if x.op in ('unk', 'maybe_undef', 'item', 'attr', 'truth'):
            return True
        if x.op == 'call' and x.args[0] not in KNOWN_CALLS:
            return True
    return False


def dead_report(chk, rule, construct, where, exits, text):
    real = [e for e in exits if e.value not in ('NameError',)]
    if real:
        e = real[0]
        chk.violation(rule, construct, e.where,
                      f'{text}: raises {e.value} at {e.where}')
    else:
        chk.unknown(rule, construct, 'no result')


def check_classes(I, chk):
    """Every law registered in the package must be covered by a case."""
    ns = I.module(CL)
    covered = {c.label.split('[')[0].split('(')[0] for c in cases()}
    base = I.get('structuralcodes.core.base:ConstitutiveLaw')
    found = [v for v in ns.values() if isinstance(v, Cls) and v.issub(base)
             and v is not base]
    if len(found) < 9:
        raise AnalysisBroken(f'only {len(found)} constitutive laws found')
    for c in found:
        if c.name not in covered:
            chk.notes.append(f'law {c.name} has no case: not analysed')


# --------------------------------------------------------------- C01
def c01(repo, chk):
    I = Interp(repo)
    check_classes(I, chk)
    for case in cases():
        R = LawRun(I, case)
        for r in regions(case.breaks):
            for m in ('get_stress', 'get_tangent', 'get_secant'):
                con = f'{case.label}.{m} [{region_label(case.breaks, r)}]'
                where = method_loc(I, case.label, m)
                v, st, ex = R.method(m, scalar, r, EPS)
                if v is UNDEF:
                    dead_report(chk, 'scalar-result', con, where, ex,
                                'scalar strain gives no result')
                    continue
                for rule, text, args in (
                        ('scalar-array', 'scalar and array strain', array),
                        ('integer-array', 'scalar and integer array strain',
                         intarray),
                        ('list', 'scalar strain and list of strains',
                         listarg)):
                    w, st2, ex2 = R.method(m, args, r, EPS)
                    if w is UNDEF:
                        dead_report(chk, rule, con, where, ex2,
                                    f'{text}: the latter gives no result')
                        continue
                    e, isarr = elem(I, w, st2)
                    if e is None:
                        chk.unknown(rule, con, repr(w))
                        continue
                    verdict(chk, rule, con, where, v, e, st2,
                            f'{text} give different values')
                    if isarr:
                        chk.ok('array-shape', con)
                    elif isinstance(e, Node) and opaque(e):
                        chk.unknown('array-shape', con, repr(e))
                    else:
                        chk.violation(
                            'array-shape', con, where,
                            'an array of strains yields a scalar result')
    chk.seen(I)
    chk.minimum = 500


# --------------------------------------------------------------- C02
def c02(repo, chk):
    I = Interp(repo)
    check_classes(I, chk)
    kw0 = lambda I, st, x: ([], {})
    kwy = lambda I, st, x: ([], {'yielding': True})
    for case in cases():
        R = LawRun(I, case)
        # ultimate limits bracket zero and contain the yield strains
        u, st, ex = R.method('get_ultimate_strain', kw0)
        con = f'{case.label}.get_ultimate_strain'
        where = method_loc(I, case.label, 'get_ultimate_strain')
        if not (isinstance(u, tuple) and len(u) == 2):
            if u is UNDEF:
                dead_report(chk, 'limits', con, where, ex, 'no limits')
            else:
                chk.unknown('limits', con, repr(u))
            continue
        lo, hi = u
        for nm, c, want in (('lower limit <= upper limit', N.le(lo, hi), 1),):
            d = st.facts.decide(c)
            if d is True:
                chk.ok('limits', con)
            elif d is False:
                chk.violation('limits', con, where, f'{nm} fails: {u!r}')
            else:
                chk.unknown('limits', con, repr(c))
        y, sty, exy = R.method('get_ultimate_strain', kwy)
        if isinstance(y, tuple) and len(y) == 2:
            for nm, c in (('lower', N.le(lo, y[0])), ('upper',
                                                      N.le(y[1], hi))):
                d = sty.facts.decide(c)
                k = f'{con} yield-{nm}'
                if d is True:
                    chk.ok('yield-within-ultimate', k)
                elif d is False:
                    chk.violation('yield-within-ultimate', k, where,
                                  f'yield limit {y!r} outside ultimate '
                                  f'limit {u!r}')
                else:
                    chk.unknown('yield-within-ultimate', k, repr(c))
        elif y is UNDEF:
            dead_report(chk, 'yield-within-ultimate', con, where, exy,
                        'no yield limits')
        if not case.bounded:
            continue
        for r in regions(case.breaks):
            for mode, args in (('scalar', scalar), ('array', array)):
                for m in ('get_stress', 'get_tangent'):
                    v, st, ex = R.method(m, args, r, EPS)
                    if v is UNDEF:
                        continue
                    v, _ = elem(I, v, st)
                    if v is None:
                        continue
                    x = strain_at(case, case.breaks[r[1]]
                                  if r[0] == 'point' else EPS)
                    below = st.facts.decide(lt(x, lo))
                    above = st.facts.decide(lt(hi, x))
                    c2 = (f'{case.label}.{m} {mode} '
                          f'[{region_label(case.breaks, r)}]')
                    where = method_loc(I, case.label, m)
                    if below is True or above is True:
                        verdict(chk, 'zero-beyond-ultimate', c2, where, v,
                                N.ZERO, st,
                                'response beyond the ultimate strain is not '
                                'zero')
                    elif m == 'get_stress' and case_compression_only(case):
                        s = st.facts.decide(lt(N.ZERO, x))
                        if s is True:
                            verdict(chk, 'no-tension', c2, where, v, N.ZERO,
                                    st, 'a compression-only law carries '
                                    'tension')
                    # inside the limits, compression stays compression
                    if m == 'get_stress' and below is False and (
                            above is False):
                        sx = st.facts.sign(x) if isinstance(x, Node) else 7
                        sv = st.facts.sign(v) if isinstance(v, Node) else 7
                        if sx in (1, 4) and 'InitialStrain' not in (
                                case.label) and 'UserDefined' not in (
                                case.label):
                            bad = 4 if sx == 1 else 1
                            if not sv & bad:
                                chk.ok('stress-opposes-nothing', c2)
                            elif sv == bad:
                                chk.violation(
                                    'stress-sign', c2, where,
                                    'stress has the opposite sign of the '
                                    f'strain: {N.show(v)}')
                            else:
                                chk.unknown('stress-sign', c2, N.show(v))
    given_limits(I, chk)
    chk.seen(I)
    chk.minimum = 150


def given_limits(I, chk):
    """Ultimate strains given as a value or a pair are those reported."""
    a, b = sym('given negative'), sym('given positive')
    E = sym('E')
    xs, ys = [sym(f'x{i}') for i in range(3)], [sym(f'y{i}') for i in range(3)]
    facts = [(lt(a, N.ZERO), True), (lt(N.ZERO, b), True),
             (lt(N.ZERO, E), True), (lt(xs[0], N.ZERO), True),
             (lt(N.ZERO, xs[1]), True), (lt(xs[1], xs[2]), True)]
    give = {'pair': ((a, b), (a, b)), 'swapped pair': ((b, a), (a, b)),
            'value': (b, (N.neg(b), b)), 'negative value': (a, (a, N.neg(a)))}
    for name, base in (('Elastic', {'E': E}),
                       ('UserDefined', {'x': xs, 'y': ys})):
        for what, (u, want) in give.items():
            W = World(I, 'structuralcodes.core.base', facts)
            k = {n: W.lst(*v) if isinstance(v, list) else v
                 for n, v in base.items()}
            law = W.call(I.get(f'{CL}:{name}'), eps_u=u, **k)
            con = f'{name} ultimate strains given as {what}'
            where = method_loc(I, name, 'get_ultimate_strain')
            if not isinstance(law, Ref):
                dead_report(chk, 'given-limits', con, where, W.exits,
                            'not accepted')
                continue
            got = W.method(law, 'get_ultimate_strain')
            if not (isinstance(got, tuple) and len(got) == 2):
                chk.unknown('given-limits', con, repr(got))
                continue
            for s, x, y in zip(('negative', 'positive'), got, want):
                verdict(chk, 'given-limits', f'{con}: {s}', where, x, y,
                        W.st, 'the ultimate strain reported is not the one '
                        'given')


def case_compression_only(case):
    return case.label.split('[')[0] in (
        'BilinearCompression', 'ParabolaRectangle', 'Sargin', 'Popovics')


# --------------------------------------------------------------- C03
def marin_args(I, st, x):
    return [], {'strain': I.alloc(st, HList((x, N.ZERO)))}


def c03(repo, chk):
    I = Interp(repo)
    check_classes(I, chk)
    n_lin = 0
    for case in cases():
        if not case.marin:
            continue
        R = LawRun(I, case)
        for mm, resp in (('__marin__', 'get_stress'),
                         ('__marin_tangent__', 'get_tangent')):
            where = method_loc(I, case.label, mm)
            # constant strain field
            for r in regions(case.breaks):
                con = (f'{case.label}.{mm} constant '
                       f'[{region_label(case.breaks, r)}]')
                ref, st0, ex0 = R.method(resp, scalar, r, EPS)
                v, st, ex = R.method(mm, marin_args, r, EPS)
                if v is UNDEF:
                    dead_report(chk, 'constant-field', con, where, ex,
                                'no coefficients')
                    continue
                res = unpack_marin(I, v, st)
                if res is None or ref is UNDEF:
                    chk.unknown('constant-field', con, repr(v))
                    continue
                ranges, coeffs = res
                if ranges is not None or len(coeffs) != 1:
                    chk.unknown('constant-field', con,
                                'ranges for a constant field')
                    continue
                if case.label.startswith('UserDefined') and (
                        resp == 'get_tangent') and r[0] == 'point':
                    continue        # slope undefined at a knot
                if not case.bounded and beyond(case, r):
                    continue
                verdict(chk, 'constant-field', con, where,
                        coeffs[0][0] if coeffs[0] else N.ZERO, ref, st,
                        f'integration coefficient differs from {resp}')
            # linear strain field
            def lin(I, st, x):
                st.facts.assume(N.cmp_('eq', S1, N.ZERO), False)
                return [], {'strain': I.alloc(st, HList((S0, S1)))}
            v, st, ex = R.method(mm, lin)
            con = f'{case.label}.{mm} linear'
            if v is UNDEF:
                dead_report(chk, 'linear-field', con, where, ex,
                            'no coefficients')
                continue
            res = unpack_marin(I, v, st)
            if res is None:
                chk.unknown('linear-field', con, repr(v))
                continue
            ranges, coeffs = res
            if ranges is None:
                ranges = [None] * len(coeffs)
            if len(ranges) != len(coeffs):
                chk.violation('linear-field', con, where,
                              f'{len(ranges)} strain ranges but '
                              f'{len(coeffs)} coefficient sets')
                continue
            for r in regions(case.breaks):
                if r[0] != 'open':
                    continue
                if not case.bounded and beyond(case, r):
                    continue
                ref, st2, ex2 = R.method(resp, scalar, r, EPS)
                if ref is UNDEF:
                    continue
                f = st2.facts
                f.assume(N.cmp_('eq', S1, N.ZERO), False)
                rc = f'{con} [{region_label(case.breaks, r)}]'
                total = N.ZERO
                e = strain_at(case, EPS)
                undec = False
                hits = 0
                for rg, cf in zip(ranges, coeffs):
                    if rg is not None:
                        lo = f.decide(N.le(rg[0], e))
                        hi = f.decide(N.le(e, rg[1]))
                        if lo is None or hi is None:
                            if lo is False or hi is False:
                                continue
                            undec = True
                            break
                        if not (lo and hi):
                            continue
                    hits += 1
                    y = N.div(N.sub(e, S0), S1)
                    p = N.ZERO
                    for k, c in enumerate(cf):
                        p = N.add(p, N.mul(c, N.power(y, const(k))))
                    total = N.add(total, p)
                if undec:
                    # a range boundary strictly inside a region
                    chk.unknown('linear-field', rc, f'{ranges!r}')
                    continue
                verdict(chk, 'linear-field' if hits else 'range-missing', rc,
                        where, total, ref, st2,
                        f'polynomial over the strain range differs from '
                        f'{resp}' if hits else
                        f'no strain range covers a region where {resp} is '
                        'not zero')
                n_lin += 1
    from .samplecheck import sampled
    sampled(repo, chk)
    chk.seen(I)
    chk.minimum = 200


def beyond(case, r):
    n = len(case.breaks)
    return r[0] == 'open' and r[1] in (0, n)


def unpack_marin(I, v, st):
    if not (isinstance(v, tuple) and len(v) == 2):
        return None
    ranges, coeffs = v

    def seq(x):
        if isinstance(x, tuple):
            return list(x)
        if isinstance(x, Ref):
            o = I.h(st, x)
            if isinstance(o, HList) and isinstance(o.items, tuple):
                return list(o.items)
            if isinstance(o, HArr) and o.items is not None:
                return list(o.items)
        return None
    if isinstance(ranges, Node) or isinstance(coeffs, Node):
        return None
    r = None
    if ranges is not None:
        r = seq(ranges)
        if r is None:
            return None
        r = [seq(x) for x in r]
        if any(x is None or len(x) != 2 for x in r):
            return None
    c = seq(coeffs)
    if c is None:
        return None
    c = [seq(x) for x in c]
    if any(x is None for x in c):
        return None
    return r, c


# --------------------------------------------------------------- C04
def c04(repo, chk):
    I = Interp(repo)
    check_classes(I, chk)
    for case in cases():
        R = LawRun(I, case)
        stress = {}
        for r in regions(case.breaks):
            v, st, ex = R.method('get_stress', scalar, r, EPS)
            if v is UNDEF:
                continue
            stress[r] = (v, st)
            if r[0] != 'open' or 'incompatible' in case.label:
                continue
            t, st2, ex2 = R.method('get_tangent', scalar, r, EPS)
            con = f'{case.label}.get_tangent [{region_label(case.breaks, r)}]'
            where = method_loc(I, case.label, 'get_tangent')
            if t is UNDEF:
                dead_report(chk, 'derivative', con, where, ex2, 'no tangent')
                continue
            if not case.bounded and beyond(case, r) and (
                    'ElasticPlastic' in case.label or 'UserDefined'
                    in case.label):
                pass
            v2 = st.facts.simplify(v) if isinstance(v, Node) else v
            try:
                d = N.diff(v2, EPS) if isinstance(v2, Node) else None
            except (ValueError, TypeError):
                d = None
            if d is None:
                chk.unknown('derivative', con, N.show(v2))
                continue
            verdict(chk, 'derivative', con, where, t, d, st2,
                    'tangent differs from the derivative of the stress')
        # continuity at the breakpoints inside the ultimate range
        u, stu, _ = R.method('get_ultimate_strain',
                             lambda I, st, x: ([], {}))
        for i, b in enumerate(case.breaks):
            if i in case.jumps:
                continue
            con = f'{case.label}.get_stress continuous at {b!r}'
            where = method_loc(I, case.label, 'get_stress')
            sides = []
            for r in (('open', i), ('open', i + 1)):
                if r not in stress:
                    continue
                v, st = stress[r]
                e = strain_at(case, EPS)
                # skip the outside of the ultimate range (a legal jump)
                if isinstance(u, tuple) and len(u) == 2:
                    if st.facts.decide(lt(e, u[0])) is not False or (
                            st.facts.decide(lt(u[1], e)) is not False):
                        continue
                if not case.bounded and beyond(case, r):
                    continue
                sides.append(N.subst(st.facts.simplify(v)
                                     if isinstance(v, Node) else N.const(v),
                                     {EPS: b}))
            pt = stress.get(('point', i))
            if pt is None:
                continue
            for s in sides:
                verdict(chk, 'continuity', con, where, s, pt[0], pt[1],
                        'stress jumps at a breakpoint inside the ultimate '
                        'range')
    chk.seen(I)
    chk.minimum = 90


# --------------------------------------------------------------- C06
def c06(repo, chk):
    """Composite laws respond as the shifted law / the weighted sum."""
    I = Interp(repo)
    E, fy, Eh, esu, e0 = (sym(x) for x in ('E', 'fy', 'Eh', 'eps_su',
                                            'eps_init'))
    cs = {c.label: c for c in cases()}
    for case in cs.values():
        if case.wrapped is None:
            continue
        name, compat, base, e0 = (case.label, case.compat, case.wrapped,
                                  case.initial)
        R, RB = LawRun(I, case), LawRun(I, base)
        for r in regions(case.breaks):
            for mode, args in (('scalar', scalar), ('array', array)):
                for m in ('get_stress', 'get_tangent'):
                    con = f'{name}.{m} {mode} [{region_label(case.breaks, r)}]'
                    where = method_loc(I, name, m)
                    v, st, ex = R.method(m, args, r, EPS)
                    if v is UNDEF:
                        dead_report(chk, 'shift', con, where, ex,
                                    'no result')
                        continue
                    v, _ = elem(I, v, st)
                    # the same strain, shifted, applied to the wrapped law
                    fr, s2, law = R.start()
                    fr.exits.clear()
                    x = strain_at(case, in_region(
                        s2, case.breaks, r, EPS))
                    w = base.build(I, fr, s2)
                    if compat:
                        arg = N.add(x, e0)
                    elif m == 'get_stress':
                        arg = e0
                    else:
                        continue
                    f = I.getattr(w, m, fr, s2, None)
                    ref = I.call(f, [arg], {}, fr, s2, None)
                    if v is None:
                        chk.unknown('shift', con, 'no element')
                        continue
                    verdict(chk, 'shift', con, where, v, ref, s2,
                            'a law with initial strain must respond as the '
                            'wrapped law at the shifted strain')
        # limits
        for yl in (False, True):
            kw = lambda I, st, x: ([], {'yielding': yl})
            u, st, ex = R.method('get_ultimate_strain', kw)
            ub, _, _ = RB.method('get_ultimate_strain', kw)
            con = f'{name}.get_ultimate_strain(yielding={yl})'
            if isinstance(u, tuple) and isinstance(ub, tuple):
                for a, b in zip(u, ub):
                    verdict(chk, 'shifted-limits', con, method_loc(
                        I, name, 'get_ultimate_strain'), a, N.sub(b, e0), st,
                        'limits are not those of the wrapped law shifted by '
                        'the initial strain')
            else:
                chk.unknown('shifted-limits', con, repr(u))
    # parallel
    for name, case in cs.items():
        if not name.startswith('Parallel('):
            continue
        R = LawRun(I, case)
        for r in regions(case.breaks):
            for m in ('get_stress', 'get_tangent'):
                con = f'{name}.{m} [{region_label(case.breaks, r)}]'
                where = method_loc(I, name, m)
                fr, s2, law = R.start()
                fr.exits.clear()
                x = strain_at(case, in_region(
                        s2, case.breaks, r, EPS))
                h = I.h(s2, law)
                try:
                    laws = I.iterate(I.getattr(law, 'wrapped_laws', fr, s2,
                                               None), fr, s2, None)
                    wts = I.iterate(I.getattr(law, 'weights', fr, s2, None),
                                    fr, s2, None)
                except Exception:
                    laws = wts = None
                if not laws or not wts or len(laws) != len(wts):
                    chk.unknown('weighted-sum', con, 'components unknown')
                    continue
                tot = N.ZERO
                for wl, wt in zip(laws, wts):
                    f = I.getattr(wl, m, fr, s2, None)
                    val = I.call(f, [x], {}, fr, s2, None)
                    tot = N.add(tot, N.mul(wt, val))
                v = I.call(I.getattr(law, m, fr, s2, None), [x], {}, fr, s2,
                           None)
                verdict(chk, 'weighted-sum', con, where, v, tot, s2,
                        'parallel law differs from the weighted sum of its '
                        'components')
        # weights follow the user
        fr, s2, law = R.start()
        w = I.iterate(I.getattr(law, 'weights', fr, s2, None), fr, s2, None)
        exp = ([sym('w0'), sym('w1')] if 'weights' in str(
            case.build.__closure__ and [c.cell_contents for c in
                                        case.build.__closure__]) else
               [N.ONE, N.ONE])
        if w is not None and len(w) == 2:
            for a, b in zip(w, exp):
                verdict(chk, 'weights', f'{name}.weights',
                        method_loc(I, name, '__init__'), a, b, s2,
                        'weights are not those given by the user')
        # limits: the widest range of the components
        u, st, ex = R.method('get_ultimate_strain', lambda I, s, x: ([], {}))
        if isinstance(u, tuple) and len(u) == 2:
            fr, s2, law = R.start()
            laws = I.iterate(I.getattr(law, 'wrapped_laws', fr, s2, None),
                             fr, s2, None)
            for wl in laws or []:
                ub = I.call(I.getattr(wl, 'get_ultimate_strain', fr, s2,
                                      None), [], {}, fr, s2, None)
                for c, nm in ((N.le(u[0], ub[0]), 'lower'),
                              (N.le(ub[1], u[1]), 'upper')):
                    con = f'{name}.get_ultimate_strain {nm}'
                    d = st.facts.decide(c)
                    if d is True:
                        chk.ok('widest-limits', con)
                    elif d is False:
                        chk.violation('widest-limits', con, method_loc(
                            I, name, 'get_ultimate_strain'),
                            f'{u!r} does not contain {ub!r}')
                    else:
                        chk.unknown('widest-limits', con, repr(c))
    chk.seen(I)
    chk.minimum = 100
