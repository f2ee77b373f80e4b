"""Region-wise abstract interpretation of the constitutive laws."""

from __future__ import annotations

from . import nodes as N
from .interp import Dead, HArr, HList, Ref, UNDEF
from .nodes import const, lt, le, neg, sym

CL = 'structuralcodes.materials.constitutive_laws'


def P(name, iv=None):
    return (name, iv)


class Case:
    """One construction of one law with symbolic parameters."""

    def __init__(self, label, build, breaks, assume=(), tangent=True,
                 bounded=True, marin=True, shift=None, jumps=()):
        self.label = label          # display name
        self.build = build          # (interp, frame, state) -> Ref
        self.breaks = breaks        # ordered strain breakpoints
        self.assume = assume        # extra conditions
        self.tangent = tangent
        self.bounded = bounded
        self.marin = marin
        self.shift = shift          # strain = x + shift, x in the regions
        self.jumps = jumps          # breakpoints where a jump is legal
        self.wrapped = None         # the law an InitialStrain wraps
        self.initial = None
        self.compat = True


def _mk(cls, **kw):
    def build(I, fr, st):
        c = I.get(f'{CL}:{cls}')
        k = {n: (v(I, fr, st) if callable(v) else v) for n, v in kw.items()}
        return I.call(c, [], k, fr, st, c.node)
    return build


def cases():
    fc, Ec = sym('fc'), sym('Ec')
    ec, ecu = sym('eps_c'), sym('eps_cu')
    k, n = sym('k'), sym('n')
    E, fy, Eh, esu = sym('E'), sym('fy'), sym('Eh'), sym('eps_su')
    pos = lambda *xs: [(lt(N.ZERO, x), True) for x in xs]
    nz = lambda *xs: [(N.cmp_('eq', x, N.ZERO), False) for x in xs]
    a = N.fabs
    lim = const(100)
    cc = lambda c, u: [neg(a(u)), neg(a(c)), N.ZERO, lim]
    base = pos(a(fc), a(ec), a(ecu)) + [
        (lt(a(ec), a(ecu)), True), (lt(a(ecu), lim), True)]
    esy = N.div(fy, E)
    steel = pos(E, fy)
    out = [
        Case('BilinearCompression', _mk('BilinearCompression', fc=fc,
             eps_c=ec, eps_cu=ecu), cc(ec, ecu), base),
        Case('ParabolaRectangle[n=2]', _mk('ParabolaRectangle', fc=fc,
             eps_0=ec, eps_u=ecu, n=const(2)), cc(ec, ecu), base),
        Case('ParabolaRectangle[n]', _mk('ParabolaRectangle', fc=fc,
             eps_0=ec, eps_u=ecu, n=n), cc(ec, ecu),
             base + [(lt(const(1), n), True),
                     (lt(n, const(2)), True)], marin=False),
        Case('ParabolaRectangle[n>2]', _mk('ParabolaRectangle', fc=fc,
             eps_0=ec, eps_u=ecu, n=n), cc(ec, ecu),
             base + [(lt(const(2), n), True)], marin=False),
        Case('Sargin', _mk('Sargin', fc=fc, eps_c1=ec, eps_cu1=ecu, k=k),
             cc(ec, ecu), base + [(lt(const(1), k), True)], marin=False),
        Case('Popovics', _mk('Popovics', fc=fc, eps_c=ec, eps_cu=ecu, Ec=Ec),
             cc(ec, ecu), base + pos(Ec) + [
                 (lt(N.div(a(fc), a(ec)), Ec), True)], marin=False),
        Case('Popovics[Ec=None]', _mk('Popovics', fc=fc, eps_c=ec,
             eps_cu=ecu), cc(ec, ecu), base + [
                 (lt(N.div(a(fc), a(ec)),
                     N.mul(const(5000), N.power(a(fc), const(0.5)))), True)],
             marin=False),
        Case('ElasticPlastic[eps_su]', _mk('ElasticPlastic', E=E, fy=fy,
             Eh=Eh, eps_su=esu), [neg(esu), neg(esy), N.ZERO, esy, esu],
             steel + pos(esu) + [(lt(esy, esu), True), (le(N.ZERO, Eh), True),
                                 (lt(Eh, E), True)]),
        Case('ElasticPlastic[eps_su=None]', _mk('ElasticPlastic', E=E, fy=fy,
             Eh=Eh), [neg(N.mul(const(2), esy)), neg(esy), N.ZERO, esy,
                      N.mul(const(2), esy)],
             steel + [(le(N.ZERO, Eh), True), (lt(Eh, E), True)],
             bounded=False),
        Case('Elastic', _mk('Elastic', E=E), [neg(lim), N.ZERO, lim],
             pos(E), bounded=False),
        Case('Elastic[eps_u]', _mk('Elastic', E=E, eps_u=esu),
             [neg(esu), N.ZERO, esu], pos(E, esu), bounded=False),
    ]
    # user defined: three symbolic points straddling zero
    xs = [sym(f'x{i}') for i in range(3)]
    ys = [sym(f'y{i}') for i in range(3)]
    order = [(lt(xs[0], xs[1]), True), (lt(xs[1], xs[2]), True),
             (lt(xs[0], N.ZERO), True)]
    h = const(100)
    lists = lambda v: (lambda I, fr, st: I.alloc(st, HList(tuple(v))))
    for flag in (0, 1, 2, 3):
        br = xs if flag == 0 else [N.mul(h, xs[0])] + xs + [
            N.mul(h, xs[2])]
        od = order if flag == 0 else order + [(lt(N.ZERO, xs[2]), True)]
        out.append(Case(
            f'UserDefined[flag={flag}]',
            _mk('UserDefined', x=lists(xs), y=lists(ys), flag=const(flag)),
            br, od, tangent=False, bounded=flag == 0))
    # a diagram given for positive strains only is point symmetric
    px, py = [N.ZERO] + xs[1:], [N.ZERO] + ys[1:]
    out.append(Case(
        'UserDefined[symmetric]',
        _mk('UserDefined', x=lists(px), y=lists(py)),
        [neg(xs[2]), neg(xs[1]), N.ZERO, xs[1], xs[2]],
        [(lt(N.ZERO, xs[1]), True), (lt(xs[1], xs[2]), True)],
        tangent=False))
    # wrappers
    e0 = sym('eps_init')
    ep = _mk('ElasticPlastic', E=E, fy=fy, Eh=Eh, eps_su=esu)
    epb = [neg(esu), neg(esy), N.ZERO, esy, esu]
    init = []

    def wrap(case, breaks, sign, compat=True, extra=(), tag=''):
        kw = {} if compat else {'strain_compatibility': False}
        tag = f'{case.label}, {"+" if sign > 0 else "-"}{tag}'
        if not compat:
            tag += ', incompatible'
        x = e0 if sign > 0 else neg(e0)
        c = Case(
            f'InitialStrain({tag})', _mk(
                'InitialStrain', constitutive_law=case.build,
                initial_strain=x, **kw),
            breaks, list(case.assume) + [(lt(N.ZERO, e0), True)] +
            list(extra), tangent=compat and case.tangent,
            bounded=compat and case.bounded, shift=N.neg(x),
            marin=case.marin, jumps=case.jumps)
        c.wrapped, c.initial, c.compat = case, x, compat
        out.append(c)

    by = {c.label: c for c in out}
    ep = by['ElasticPlastic[eps_su]']
    for sg in (1, -1):
        for cp in (True, False):
            wrap(ep, ep.breaks, sg, cp, [(lt(e0, esy), True)])
    wrap(ep, ep.breaks, 1, True, [(lt(esy, e0), True), (lt(e0, esu), True)],
         ' beyond yield')
    wrap(by['BilinearCompression'], by['BilinearCompression'].breaks, 1,
         True, [(lt(e0, a(ec)), True)])
    wrap(by['ParabolaRectangle[n=2]'], by['ParabolaRectangle[n=2]'].breaks,
         -1, True, [(lt(e0, a(ec)), True)])
    wrap(by['ParabolaRectangle[n=2]'], by['ParabolaRectangle[n=2]'].breaks,
         -1, False, [(lt(e0, a(ec)), True)])
    wrap(by['Elastic[eps_u]'], by['Elastic[eps_u]'].breaks, -1, True,
         [(lt(e0, esu), True)])
    wrap(by['UserDefined[flag=0]'], xs, 1)
    # a law with initial strain given another one
    c1 = [c for c in out if c.label == 'InitialStrain(ElasticPlastic'
          '[eps_su], +)'][0]
    e1 = sym('eps_init2')
    c2 = Case('InitialStrain(InitialStrain(ElasticPlastic))', _mk(
        'InitialStrain', constitutive_law=c1.build, initial_strain=e1),
        c1.breaks, list(c1.assume) + [(lt(N.ZERO, e1), True),
                                      (lt(e1, e0), True)],
        shift=N.neg(N.add(e0, e1)))
    c2.wrapped, c2.initial, c2.compat = c1, e1, True
    out.append(c2)
    w0, w1 = sym('w0'), sym('w1')
    E2 = sym('E2')
    bc = _mk('BilinearCompression', fc=fc, eps_c=ec, eps_cu=ecu)
    pr = _mk('ParabolaRectangle', fc=fc, eps_0=ec, eps_u=ecu, n=const(2))
    el = _mk('Elastic', E=E2)
    lst = lambda *bs: (lambda I, fr, st: I.alloc(st, HList(tuple(
        b(I, fr, st) for b in bs))))
    ws = lambda I, fr, st: I.alloc(st, HList((w0, w1)))
    out.append(Case('Parallel(ParabolaRectangle, Elastic)', _mk(
        'Parallel', constitutive_laws=lst(pr, el), weights=ws),
        cc(ec, ecu), base + pos(E2, w0, w1), bounded=False, jumps=(0,)))
    out.append(Case('Parallel(Elastic, BilinearCompression)', _mk(
        'Parallel', constitutive_laws=lst(el, bc)),
        cc(ec, ecu), base + pos(E2), bounded=False, jumps=(0,)))
    out.append(Case('Parallel(BilinearCompression, ElasticPlastic)', _mk(
        'Parallel', constitutive_laws=lst(
            bc, _mk('ElasticPlastic', E=E, fy=fy, Eh=Eh, eps_su=esu)),
        weights=ws),
        [neg(esu), neg(esy), neg(a(ecu)), neg(a(ec)), N.ZERO, esy, esu, lim],
        base + steel + pos(esu, w0, w1) + [
            (lt(esy, esu), True), (le(N.ZERO, Eh), True), (lt(Eh, E), True),
            (lt(a(ecu), esy), True), (lt(esu, lim), True)],
        jumps=(0, 2, 6)))
    return out


def order_facts(facts, breaks):
    for i in range(len(breaks)):
        for j in range(i + 1, len(breaks)):
            facts.assume(lt(breaks[i], breaks[j]))


def regions(breaks):
    """(label, kind, i): open intervals and breakpoints, left to right."""
    n = len(breaks)
    for i in range(n + 1):
        yield ('open', i)
        if i < n:
            yield ('point', i)


def region_label(breaks, r):
    k, i = r
    if k == 'point':
        return f'eps == {breaks[i]!r}'
    lo = repr(breaks[i - 1]) if i > 0 else '-inf'
    hi = repr(breaks[i]) if i < len(breaks) else 'inf'
    return f'{lo} < eps < {hi}'


def base_facts(case, st):
    for c, t in case.assume:
        st.facts.assume(c, t)
    order_facts(st.facts, case.breaks)
    return not st.facts.bad


def in_region(st, breaks, r, eps):
    k, i = r
    if k == 'point':
        return breaks[i]
    for j, b in enumerate(breaks):
        if j < i:
            st.facts.assume(lt(b, eps))
        else:
            st.facts.assume(lt(eps, b))
    return eps


class LawRun:
    """Builds one case and evaluates its methods region by region."""

    def __init__(self, I, case):
        self.I, self.case = I, case

    def start(self):
        I = self.I
        st = I.new_state()
        base_facts(self.case, st)
        mod = I.repo.modules['structuralcodes.core.base']
        fr = I.entry_frame(st, mod)
        law = self.case.build(I, fr, st)
        return fr, st, law

    def method(self, name, args, region=None, eps=None):
        """(value, state, exits) of law.name(args(eps)) in a region."""
        I = self.I
        try:
            fr, st, law = self.start()
        except Dead:
            return UNDEF, I.new_state(), []
        fr.exits.clear()
        x = eps
        if region is not None:
            x = in_region(st, self.case.breaks, region, eps)
            if self.case.shift is not None:
                x = N.add(x, self.case.shift)
        a, kw = args(I, st, x)
        try:
            f = I.getattr(law, name, fr, st, None)
            v = I.call(f, a, kw, fr, st, None)
        except Dead:
            return UNDEF, st, fr.exits
        return v, st, [e for e in fr.exits if e.kind == 'raise']


def elem(I, v, st):
    """The generic element of an array result (or the scalar itself)."""
    if isinstance(v, Ref):
        o = I.h(st, v)
        if isinstance(o, HArr):
            if o.elem is not None:
                return o.elem, True
            if o.items is not None and len(o.items) == 1:
                return o.items[0], True
        return None, True
    return v, False
