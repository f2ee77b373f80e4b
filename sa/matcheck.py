"""Rules over the material classes (properties C05, C14, C20)."""

from __future__ import annotations


from . import nodes as N
from .interp import Cls, Func, Ref, UNDEF, HDict, HInst, Interp
from .laws import CL, LawRun, cases, region_label, regions
from .lawcheck import (EPS, method_loc, scalar, verdict)
from .nodes import Node, const, lt, sym
from .repo import AnalysisBroken, loc
from .util import World, flat, leaves, outcome

CONC = 'structuralcodes.materials.concrete'
REINF = 'structuralcodes.materials.reinforcement'
CODES = 'structuralcodes.codes'


def pos(*xs):
    return [(lt(N.ZERO, x), True) for x in xs]


CONCRETES = {
    'ConcreteEC2_2004': 'ec2_2004',
    'ConcreteEC2_2023': 'ec2_2023',
    'ConcreteMC2010': 'mc2010',
}
REINFS = {
    'ReinforcementEC2_2004': 'ec2_2004',
    'ReinforcementEC2_2023': 'ec2_2023',
    'ReinforcementMC2010': 'mc2010',
}

# magnitudes (sign-insensitive inputs)
MAGN = ('fck', 'fcm', 'fctm', 'fctk_5', 'fctk_95', 'fctkmin', 'fctkmax',
        'Ecm', 'Eci', 'Gf', 'eps_c1', 'eps_cu1', 'eps_c2', 'eps_cu2',
        'eps_c3', 'eps_cu3', 'density')


def params(c):
    init, _ = c.lookup('__init__')
    a = init.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][1:]


def concrete_range(name, x):
    """Assumptions for the strength class of the concrete."""
    out = [(N.le(const(12), x), True), (N.le(x, const(90)), True)]
    return out


def override_range(p, x, fck=None):
    if p.startswith('eps'):
        return [(lt(N.ZERO, x), True), (lt(x, const(0.1)), True)]
    if p == 'fcm':
        return [(lt(fck, x), True)]
    if p == 'gamma_c':
        return [(lt(N.ZERO, x), True)]
    return [(lt(N.ZERO, x), True)]


def observables(c):
    """(name, kind) of the properties, design values and law hooks."""
    out = []
    seen = set()
    for k in c.mro:
        if not isinstance(k, Cls):
            continue
        for n, v in k.ns.items():
            if n in seen or not isinstance(v, Func):
                continue
            seen.add(n)
            if v.kind == 'property':
                if n not in ('name', 'constitutive_law'):
                    out.append((n, 'prop'))
            elif n.startswith('__') and n.endswith('__') and (
                    n.strip('_') in LAWS):
                out.append((n, 'call'))
            elif n in ('fcd', 'fctd', 'fyd', 'ftd', 'epsud'):
                out.append((n, 'call'))
    return out


LAWS = ('elastic', 'parabolarectangle', 'bilinearcompression', 'sargin',
        'popovics', 'elasticplastic', 'elasticperfectlyplastic')


def where_of(c, name):
    f, o = c.lookup(name)
    if f is None:
        return loc(c.module, c.node)
    if f.setter is not None and name == 'never':
        return loc(f.setter.module, f.setter.node)
    return f'{loc(f.module, f.node)} {o.name}.{name}'


def build(I, c, kw, assume, law='elastic'):
    W = World(I, assume=assume)
    kw = dict(kw)
    if law is not None:
        kw['constitutive_law'] = law
    o = W.call(c, **kw)
    return W, o


def observe(W, o, name, kind):
    n0 = len(W.fr.exits)
    g0 = len(W.st.guard)
    v = W.attr(o, name) if kind == 'prop' else W.method(o, name)
    ex = [e for e in W.fr.exits[n0:] if e.kind == 'raise']
    return flat(W, v), ex


def compare(chk, rule, con, where, a, b, st, text):
    """Leaf-wise comparison of two pictures."""
    ls = leaves(a, b)
    if ls is None:
        chk.violation(rule, con, where, f'{text}: {a!r} / {b!r}'[:400])
        return
    for x, y in ls:
        verdict(chk, rule, con, where, x, y, st, text)


# --------------------------------------------------------------- C05
LAW_MAGN = {
    'BilinearCompression': ('fc', 'eps_c', 'eps_cu'),
    'ParabolaRectangle[n=2]': ('fc', 'eps_c', 'eps_cu'),
    'ParabolaRectangle[n]': ('fc', 'eps_c', 'eps_cu'),
    'Sargin': ('fc', 'eps_c', 'eps_cu'),
    'Popovics': ('fc', 'eps_c', 'eps_cu'),
    'Popovics[Ec=None]': ('fc', 'eps_c', 'eps_cu'),
}

FUNC_MAGN = [
    # module, function, parameter, other parameters
    ('ec2_2004', 'fcm', 'fck', {}),
    ('ec2_2004', 'fctm', 'fck', {}),
    ('ec2_2004', 'fctk_5', 'fctm', {}),
    ('ec2_2004', 'fctk_95', 'fctm', {}),
    ('ec2_2004', 'Ecm', 'fcm', {}),
    ('ec2_2004', 'eps_c1', 'fcm', {}),
    ('ec2_2004', 'eps_cu1', 'fck', {}),
    ('ec2_2004', 'k_sargin', 'eps_c1', {'Ecm': 'Ecm', 'fcm': 'fcm'}),
    ('ec2_2004', 'eps_c2', 'fck', {}),
    ('ec2_2004', 'eps_cu2', 'fck', {}),
    ('ec2_2004', 'n_parabolic_rectangular', 'fck', {}),
    ('ec2_2004', 'eps_c3', 'fck', {}),
    ('ec2_2004', 'eps_cu3', 'fck', {}),
    ('ec2_2004', 'fcd', 'fck', {'alpha_cc': 'alpha_cc',
                                'gamma_c': 'gamma_c'}),
    ('ec2_2023', 'fctm', 'fck', {}),
    ('ec2_2023', 'fctk_5', 'fctm', {}),
    ('ec2_2023', 'fctk_95', 'fctm', {}),
    ('mc2010', 'fcm', 'fck', {}),
    ('mc2010', 'fctm', 'fck', {}),
    ('mc2010', 'Gf', 'fck', {}),
    ('mc2010', 'eps_c2', 'fck', {}),
    ('mc2010', 'eps_cu2', 'fck', {}),
    ('mc2010', 'eps_c3', 'fck', {}),
    ('mc2010', 'eps_cu3', 'fck', {}),
    ('mc2010', 'n_parabolic_rectangular', 'fck', {}),
    ('mc2010', 'fcd', 'fck', {'alpha_cc': 'alpha_cc',
                              'gamma_c': 'gamma_c'}),
]


def c05(repo, chk):
    I = Interp(repo)
    # --- code functions
    for mod, fn, p, others in FUNC_MAGN:
        try:
            f = I.get(f'{CODES}.{mod}:{fn}')
        except AnalysisBroken as e:
            chk.unknown('function', f'{mod}.{fn}', e)
            continue
        x = sym(p)
        res = []
        asm = pos(x, *[sym(o) for o in others.values()])
        for arg in (x, N.neg(x)):
            W = World(I, assume=asm)
            v = W.call(f, **{p: arg, **{k: sym(o)
                                        for k, o in others.items()}})
            res.append((outcome(v, W.exits), W))
        compare(chk, 'function', f'{mod}.{fn}({p})',
                loc(f.module, f.node), res[0][0], res[1][0], res[1][1].st,
                f'result depends on the sign of {p}')
    # --- materials
    for group, table in ((CONC, CONCRETES), (REINF, REINFS)):
        for cn in table:
            c = I.get(f'{group}:{cn}')
            ps = params(c)
            base, asm = base_args(group, cn)
            mg = [p for p in ps if p in MAGN or p in base]
            for p in mg:
                x = base.get(p, sym(p))
                got = []
                extra = [] if p in base else override_range(
                    p, x, base.get('fck'))
                for arg in (x, N.neg(x)):
                    W, o = build(I, c, {**base, p: arg}, asm + extra)
                    got.append((W, o, list(W.exits)))
                (W1, o1, e1), (W2, o2, e2) = got
                con = f'{cn}({p})'
                a = outcome(N.ONE if o1 is not UNDEF else UNDEF, e1)
                b = outcome(N.ONE if o2 is not UNDEF else UNDEF, e2)
                compare(chk, 'material-accepts', con, where_of(
                    c, '__init__'), a, b, W2.st,
                    f'acceptance depends on the sign of {p}')
                if not (isinstance(o1, Ref) and isinstance(o2, Ref)):
                    continue
                for name, kind in observables(c):
                    v1, x1 = observe(W1, o1, name, kind)
                    v2, x2 = observe(W2, o2, name, kind)
                    if v1 is UNDEF and v2 is UNDEF:
                        continue
                    compare(chk, 'material', f'{con}.{name}',
                            where_of(c, name), v1, v2, W2.st,
                            f'{name} depends on the sign of {p}')
    # --- laws
    for case in cases():
        if case.label not in LAW_MAGN:
            continue
        for p in LAW_MAGN[case.label]:
            s = sym(p)
            pasm = pos(s)
            R = LawRun(I, case)
            mapping = {s: N.neg(s)}
            neg_case = _negated(case, s)
            R2 = LawRun(I, neg_case)
            for r in regions(case.breaks):
                for m in ('get_stress', 'get_tangent'):
                    con = (f'{case.label}({p}).{m} '
                           f'[{region_label(case.breaks, r)}]')
                    v, st, _ = R.method(m, scalar, r, EPS)
                    w, st2, _ = R2.method(m, scalar, r, EPS)
                    if v is UNDEF and w is UNDEF:
                        continue
                    if v is UNDEF or w is UNDEF:
                        chk.violation('law', con, method_loc(
                            I, case.label, m), f'one sign of {p} gives no '
                            'result')
                        continue
                    # v is expressed for s; w was computed with -s given
                    st2.facts.assume(lt(N.ZERO, s))
                    verdict(chk, 'law', con, method_loc(I, case.label, m),
                            v, w, st2, f'{m} depends on the sign of {p}')
            u, st, _ = R.method('get_ultimate_strain',
                                lambda I, st, x: ([], {}))
            w, st2, _ = R2.method('get_ultimate_strain',
                                  lambda I, st, x: ([], {}))
            st2.facts.assume(lt(N.ZERO, s))
            if isinstance(u, tuple) and isinstance(w, tuple):
                compare(chk, 'law', f'{case.label}({p}).get_ultimate_strain',
                        method_loc(I, case.label, 'get_ultimate_strain'), u,
                        w, st2, f'limits depend on the sign of {p}')
    chk.seen(I)
    chk.minimum = 60


def _negated(case, s):
    """The same case, with -s handed to the constructor."""
    from .laws import Case, _mk
    cls = case.label.split('[')[0]
    names = {
        'BilinearCompression': ('fc', 'eps_c', 'eps_cu'),
        'ParabolaRectangle': ('fc', 'eps_0', 'eps_u'),
        'Sargin': ('fc', 'eps_c1', 'eps_cu1'),
        'Popovics': ('fc', 'eps_c', 'eps_cu'),
    }[cls]
    vals = {n: sym(q) for n, q in zip(names, ('fc', 'eps_c', 'eps_cu'))}
    if case.label == 'Popovics':
        vals['Ec'] = sym('Ec')
    if cls == 'ParabolaRectangle':
        vals['n'] = const(2) if 'n=2' in case.label else sym('n')
    if cls == 'Sargin':
        vals['k'] = sym('k')
    vals = {k: (N.neg(v) if v is s else v) for k, v in vals.items()}
    return Case(case.label, _mk(cls, **vals), case.breaks,
                list(case.assume) + pos(s), case.tangent, case.bounded,
                case.marin, case.shift, case.jumps)


def base_args(group, cn):
    if group == CONC:
        fck = sym('fck')
        return {'fck': fck}, concrete_range(cn, fck)
    b = {p: sym(p) for p in ('fyk', 'Es', 'ftk', 'epsuk')}
    return b, pos(*b.values())


# --------------------------------------------------------------- C14
# property -> (code function, {argument: property/constant})
DERIVED = {
    'ConcreteEC2_2004': {
        'fcm': ('fcm', {'fck': 'fck'}),
        'fctm': ('fctm', {'fck': 'fck'}),
        'fctk_5': ('fctk_5', {'fctm': 'fctm'}),
        'fctk_95': ('fctk_95', {'fctm': 'fctm'}),
        'Ecm': ('Ecm', {'fcm': 'fcm'}),
        'eps_c1': ('eps_c1', {'fcm': 'fcm'}),
        'eps_cu1': ('eps_cu1', {'fck': 'fck'}),
        'k_sargin': ('k_sargin', {'Ecm': 'Ecm', 'fcm': 'fcm',
                                  'eps_c1': 'eps_c1'}),
        'eps_c2': ('eps_c2', {'fck': 'fck'}),
        'eps_cu2': ('eps_cu2', {'fck': 'fck'}),
        'n_parabolic_rectangular': ('n_parabolic_rectangular',
                                    {'fck': 'fck'}),
        'eps_c3': ('eps_c3', {'fck': 'fck'}),
        'eps_cu3': ('eps_cu3', {'fck': 'fck'}),
        'fcd()': ('fcd', {'fck': 'fck', 'alpha_cc': 'alpha_cc',
                          'gamma_c': 'gamma_c'}),
    },
    'ConcreteEC2_2023': {
        'fcm': ('fcm', {'fck': 'fck'}),
        'fctm': ('fctm', {'fck': 'fck'}),
        'fctk_5': ('fctk_5', {'fctm': 'fctm'}),
        'fctk_95': ('fctk_95', {'fctm': 'fctm'}),
        'Ecm': ('Ecm', {'fcm': 'fcm', 'kE': '=kE'}),
        'eps_c1': ('eps_c1', {'fcm': 'fcm'}),
        'eps_cu1': ('eps_cu1', {'fcm': 'fcm'}),
        'k_sargin': ('k_sargin', {'Ecm': 'Ecm', 'fcm': 'fcm',
                                  'eps_c1': 'eps_c1'}),
        'eps_c2': ('eps_c2', {}),
        'eps_cu2': ('eps_cu2', {}),
        'n_parabolic_rectangular': ('n_parabolic_rectangular', {}),
    },
    'ConcreteMC2010': {
        'fcm': ('fcm', {'fck': 'fck'}),
        'fctm': ('fctm', {'fck': 'fck'}),
        'fctkmin': ('fctkmin', {'fctm': 'fctm'}),
        'fctkmax': ('fctkmax', {'fctm': 'fctm'}),
        'Eci': ('Eci', {'fcm': 'fcm'}),
        'Gf': ('Gf', {'fck': 'fck'}),
        'eps_c1': ('eps_c1', {'fck': 'fck'}),
        'eps_cu1': ('eps_cu1', {'fck': 'fck'}),
        'k_sargin': ('k_sargin', {'fck': 'fck'}),
        'eps_c2': ('eps_c2', {'fck': 'fck'}),
        'eps_cu2': ('eps_cu2', {'fck': 'fck'}),
        'n_parabolic_rectangular': ('n_parabolic_rectangular',
                                    {'fck': 'fck'}),
        'eps_c3': ('eps_c3', {'fck': 'fck'}),
        'eps_cu3': ('eps_cu3', {'fck': 'fck'}),
        'fcd()': ('fcd', {'fck': 'fck', 'alpha_cc': 'alpha_cc',
                          'gamma_c': 'gamma_c'}),
    },
    'ReinforcementEC2_2004': {
        'fyd()': ('fyd', {'fyk': 'fyk', 'gamma_s': 'gamma_s'}),
        'ftd()': ('fyd', {'fyk': 'ftk', 'gamma_s': 'gamma_s'}),
        'epsud()': ('epsud', {'epsuk': 'epsuk', 'gamma_eps': 'gamma_eps'}),
    },
    'ReinforcementMC2010': {
        'fyd()': ('fyd', {'fyk': 'fyk', 'gamma_s': 'gamma_s'}),
        'ftd()': ('fyd', {'fyk': 'ftk', 'gamma_s': 'gamma_s'}),
        'epsud()': ('epsud', {'epsuk': 'epsuk', 'gamma_eps': 'gamma_eps'}),
    },
    'ReinforcementEC2_2023': {
        'fyd()': ('fyd', {'fyk': 'fyk', 'gamma_s': 'gamma_s'}),
        'ftd()': ('fyd', {'fyk': 'ftk', 'gamma_s': 'gamma_s'}),
        'epsud()': ('eps_ud', {'eps_uk': 'epsuk', 'gamma_s': 'gamma_s'}),
    },
}
# constitutive law -> {law argument: property}
HOOKS_CONCRETE = {
    'elastic': {'E': 'Ecm|Eci'},
    'parabolarectangle': {'fc': 'fcd()', 'eps_0': 'eps_c2',
                          'eps_u': 'eps_cu2',
                          'n': 'n_parabolic_rectangular'},
    'bilinearcompression': {'fc': 'fcd()', 'eps_c': 'eps_c3',
                            'eps_cu': 'eps_cu3'},
    'sargin': {'fc': 'fcm', 'eps_c1': 'eps_c1', 'eps_cu1': 'eps_cu1',
               'k': 'k_sargin'},
    'popovics': {'fc': 'fcd()', 'eps_c': 'eps_c1', 'eps_cu': 'eps_cu1',
                 'Ec': 'Ecm|Eci'},
}
HOOKS_STEEL = {
    'elastic': {'E': 'Es'},
    'elasticperfectlyplastic': {'E': 'Es', 'fy': 'fyd()',
                                'eps_su': 'epsud()'},
    'elasticplastic': {'E': 'Es', 'fy': 'fyd()', 'eps_su': 'epsud()',
                       'Eh': '*Eh'},
}
DEFAULTS = {'gamma_c': 1.5, 'alpha_cc': 1.0, 'gamma_s': 1.15,
            'gamma_eps': 0.9}


def get_prop(W, o, name):
    alts = name.split('|')
    cls = W.h(o).cls
    for n in alts:
        base = n.rstrip('()')
        if cls.lookup(base)[0] is None:
            continue
        v = W.attr(o, base)
        if n.endswith('()'):
            v = W.call(v)
        return v
    return UNDEF


def overrides_of(cn, c):
    """Constructor parameters which replace a property of the same name."""
    out = []
    for p in params(c):
        f, _ = c.lookup(p)
        if isinstance(f, Func) and f.kind == 'property' and p not in (
                'name', 'constitutive_law', 'initial_strain',
                'initial_stress', 'strain_compatibility', 'density'):
            out.append(p)
    return out


def c14(repo, chk):
    I = Interp(repo)
    for group, table, hooks in ((CONC, CONCRETES, HOOKS_CONCRETE),
                                (REINF, REINFS, HOOKS_STEEL)):
        for cn, code in table.items():
            c = I.get(f'{group}:{cn}')
            base, asm = base_args(group, cn)
            ov = [p for p in overrides_of(cn, c) if p not in base]
            configs = [('defaults', {})]
            configs += [(p, {p: sym('u_' + p)}) for p in ov]
            configs.append(('all given', {p: sym('u_' + p) for p in ov}))
            if cn == 'ConcreteEC2_2023':
                configs.append(('kE', {'kE': sym('u_kE')}))
            for label, kw in configs:
                extra = []
                for p, x in kw.items():
                    extra += override_range(p, x, base.get('fck'))
                W, o = build(I, c, {**base, **kw}, asm + extra)
                con = f'{cn}[{label}]'
                if not isinstance(o, Ref):
                    chk.unknown('construct', con, o)
                    continue
                # 1. what is given is returned
                for p, x in {**base, **kw}.items():
                    if p == 'kE':
                        continue
                    v = W.attr(o, p)
                    verdict(chk, 'returned-as-given', f'{con}.{p}',
                            where_of(c, p), v, x, W.st,
                            f'the {p} given by the user is not the one '
                            'returned')
                # 2. what is not given follows the code, from the current
                #    properties
                for P, (fn, args) in DERIVED[cn].items():
                    if P in kw:
                        continue
                    con2 = f'{con}.{P}'
                    try:
                        f = I.get(f'{CODES}.{code}:{fn}')
                    except AnalysisBroken as e:
                        chk.unknown('derived', con2, e)
                        continue
                    v = get_prop(W, o, P)
                    want_kw = {}
                    for a, q in args.items():
                        if q == '=kE':
                            want_kw[a] = kw.get('kE', const(9500))
                        else:
                            want_kw[a] = get_prop(W, o, q)
                    w = W.call(f, **want_kw)
                    verdict(chk, 'derived', con2, where_of(
                        c, P.rstrip('()')), v, w, W.st,
                        f'{P} is not {code}.{fn} of the current properties')
                # defaults of the factors
                for p, d in DEFAULTS.items():
                    if p in ov and p not in kw:
                        verdict(chk, 'default-factor', f'{con}.{p}',
                                where_of(c, p), W.attr(o, p), const(d),
                                W.st, f'default of {p}')
                if group == REINF:
                    verdict(chk, 'derived', f'{con}.epsyd', where_of(
                        c, 'epsyd'), W.attr(o, 'epsyd'),
                        N.div(get_prop(W, o, 'fyd()'), W.attr(o, 'Es')),
                        W.st, 'epsyd is not fyd / Es')
                    verdict(chk, 'derived', f'{con}.epsyk', where_of(
                        c, 'epsyk'), W.attr(o, 'epsyk'),
                        N.div(W.attr(o, 'fyk'), W.attr(o, 'Es')),
                        W.st, 'epsyk is not fyk / Es')
                if cn == 'ConcreteEC2_2023':
                    design_2023(I, W, o, c, chk, con)
                # 3. the laws are made from the properties
                for law, table2 in hooks.items():
                    h = f'__{law}__'
                    if c.lookup(h)[0] is None:
                        continue
                    d = W.method(o, h)
                    con3 = f'{con}.{h}'
                    hd = W.h(d) if isinstance(d, Ref) else None
                    if not isinstance(hd, HDict):
                        chk.unknown('law-arguments', con3, d)
                        continue
                    if hd.open:
                        chk.unknown('law-arguments', con3, 'open dict')
                        continue
                    if set(hd.items) - set(table2):
                        chk.unknown('law-arguments', con3,
                                    f'extra {set(hd.items) - set(table2)}')
                    for a, q in table2.items():
                        if a not in hd.items:
                            chk.violation(
                                'law-arguments', f'{con3}[{a}]',
                                where_of(c, h), f'{a} is not handed over to '
                                'the constitutive law')
                            continue
                        if q == '*Eh':
                            w = N.div(
                                N.sub(get_prop(W, o, 'ftd()'),
                                      get_prop(W, o, 'fyd()')),
                                N.sub(get_prop(W, o, 'epsud()'),
                                      get_prop(W, o, 'epsyd')))
                        else:
                            w = get_prop(W, o, q)
                        x = hd.items[a]
                        if isinstance(x, Node) and isinstance(w, Node) and (
                                a.startswith('eps') or a == 'fc'):
                            x, w = N.fabs(x), N.fabs(w)
                        verdict(chk, 'law-arguments', f'{con3}[{a}]',
                                where_of(c, h), x, w, W.st,
                                f'{a} of the {law} law is not {q}')
            # 4. the law asked for is the law built, from this material
            for law in hooks:
                h = f'__{law}__'
                if c.lookup(h)[0] is None:
                    continue
                for give in (law, law.upper()):
                    W, o = build(I, c, base, asm, law=give)
                    con = f'{cn}[constitutive_law={give!r}]'
                    if not isinstance(o, Ref):
                        if o is UNDEF:
                            chk.violation(
                                'law-built', con, where_of(c, '__init__'),
                                f'raises {[e.value for e in W.exits]}')
                        else:
                            chk.unknown('law-built', con, o)
                        continue
                    cl = W.attr(o, 'constitutive_law')
                    hc = W.h(cl) if isinstance(cl, Ref) else None
                    if not isinstance(hc, HInst):
                        chk.unknown('law-built', con, cl)
                        continue
                    ref_cls = I.get(f'{CL}:{LAWCLS[law]}')
                    if hc.cls is not ref_cls:
                        chk.violation('law-built', con, where_of(
                            c, '__init__'), f'builds {hc.cls.name}')
                        continue
                    args = W.method(o, h)
                    kwargs = dict(W.h(args).items)
                    ref = W.call(ref_cls, **kwargs)
                    compare(chk, 'law-built', con, where_of(c, '__init__'),
                            flat(W, cl), flat(W, ref), W.st,
                            'the law is not built from the material')
    basic(I, chk)
    initial(I, chk)
    base_given(repo, chk)
    elastic_twin(I, chk)
    from .samplecheck import stressed
    stressed(repo, chk)
    chk.seen(I)
    chk.minimum = 150


BASIC = 'structuralcodes.materials.basic'


def basic(I, chk):
    E, fy, Eh, esu, d = (sym(x) for x in ('E', 'fy', 'Eh', 'eps_su',
                                          'density'))
    for cn, kw, asm, law in (
            ('ElasticMaterial', {'E': E}, pos(E, d), {'E': E}),
            ('ElasticPlasticMaterial', {'E': E, 'fy': fy, 'Eh': Eh,
                                        'eps_su': esu},
             pos(E, fy, d, Eh, esu), {'E': E, 'fy': fy, 'Eh': Eh,
                                      'eps_su': esu})):
        c = I.get(f'{BASIC}:{cn}')
        W = World(I, assume=asm + [(lt(N.div(fy, E), esu), True)])
        o = W.call(c, density=d, **kw)
        if not isinstance(o, Ref):
            chk.unknown('construct', cn, o)
            continue
        for p, x in {**kw, 'density': d}.items():
            verdict(chk, 'returned-as-given', f'{cn}.{p}', where_of(c, p),
                    W.attr(o, p), x, W.st, f'the {p} given is not returned')
        cl = W.attr(o, 'constitutive_law')
        ref = W.call(I.get(f'{CL}:{"Elastic" if len(kw) == 1 else "ElasticPlastic"}'), **law)
        compare(chk, 'law-built', cn, where_of(c, '__init__'), flat(W, cl),
                flat(W, ref), W.st, 'the law is not built from the material')
        if cn == 'ElasticMaterial':
            W = World(I, assume=asm + pos(esu))
            o = W.call(c, density=d, E=E, ultimate_strain=esu)
            cl = W.attr(o, 'constitutive_law')
            ref = W.call(I.get(f'{CL}:Elastic'), E=E, eps_u=esu)
            compare(chk, 'law-built', f'{cn}[ultimate_strain]',
                    where_of(c, '__init__'), flat(W, cl), flat(W, ref),
                    W.st, 'the law is not built from the material')


def initial(I, chk):
    """The initial strain of a material reaches its law."""
    e0, d = sym('e0'), sym('density')
    E, fy, Eh, esu = (sym(x) for x in ('E', 'fy', 'Eh', 'eps_su'))
    builds = [(f'{BASIC}:ElasticPlasticMaterial', {
        'E': E, 'fy': fy, 'Eh': Eh, 'eps_su': esu, 'density': d},
        pos(E, fy, d, Eh, esu) + [(lt(N.div(fy, E), esu), True)])]
    for group, table in ((CONC, CONCRETES), (REINF, REINFS)):
        for cn in table:
            b, asm = base_args(group, cn)
            b = dict(b, constitutive_law='elastic')
            builds.append((f'{group}:{cn}', b, asm))
    for path, kw, asm in builds:
        c = I.get(path)
        for compat in (None, True, False):
            con = f'{c.name}[initial_strain, strain_compatibility={compat}]'
            W = World(I, assume=asm)
            o = W.call(c, initial_strain=e0, strain_compatibility=compat,
                       **kw)
            o0 = W.call(c, **kw)
            if not (isinstance(o, Ref) and isinstance(o0, Ref)):
                chk.unknown('initial-strain', con, o)
                continue
            law, law0 = (W.attr(x, 'constitutive_law') for x in (o, o0))
            where = where_of(c, '_apply_initial_strain')
            verdict(chk, 'initial-strain', f'{con}.initial_stress', where,
                    W.attr(o, 'initial_stress'),
                    W.method(law0, 'get_stress', e0), W.st,
                    'initial_stress is not the stress at the initial strain')
            verdict(chk, 'initial-strain', f'{con}.initial_strain', where,
                    W.attr(o, 'initial_strain'), e0, W.st,
                    'initial_strain is not the one given')
            x = EPS if compat is not False else sym('any')
            W.st.facts.assume(N.cmp_('eq', e0, N.ZERO), False)
            want = W.method(law0, 'get_stress',
                            N.add(x, e0) if compat is not False else e0)
            verdict(chk, 'initial-strain', f'{con}.get_stress', where,
                    W.method(law, 'get_stress', x), want, W.st,
                    'the law does not see the initial strain')


def base_given(repo, chk):
    """What every material takes reaches it, whatever its class."""
    def call(I, f, args, kw, node, fr, st):
        return [None] if f.name == '_apply_initial_strain' else None
    I = Interp(repo, hooks={'call': call})
    E, fy, Eh, esu = (sym(x) for x in ('E', 'fy', 'Eh', 'eps_su'))
    d = sym('density')
    builds = [(f'{BASIC}:ElasticMaterial', {'E': E}, pos(E, d)), (
        f'{BASIC}:ElasticPlasticMaterial', {
            'E': E, 'fy': fy, 'Eh': Eh, 'eps_su': esu},
        pos(E, fy, d, Eh, esu) + [(lt(N.div(fy, E), esu), True)]),
        (f'{BASIC}:GenericMaterial', {}, pos(E, d))]
    for group, table in ((CONC, CONCRETES), (REINF, REINFS)):
        for cn in table:
            b, asm = base_args(group, cn)
            builds.append((f'{group}:{cn}', dict(b), asm))
    for path, kw, asm in builds:
        c = I.get(path)
        for given in ({'initial_strain': sym('e0')},
                      {'initial_stress': sym('s0')},
                      {'strain_compatibility': True},
                      {'strain_compatibility': False},
                      {'name': 'a name'}, {'density': d}):
            W = World(I, assume=asm + pos(d))
            k = dict(kw)
            if c.name == 'GenericMaterial':
                k['constitutive_law'] = W.call(I.get(f'{CL}:Elastic'), E=E)
            if path.startswith(BASIC):
                k.setdefault('density', d)
            o = W.call(c, **{**k, **given})
            (p, x), = given.items()
            con = f'{c.name}[{p}={x}].{p}'
            if not isinstance(o, Ref):
                chk.unknown('returned-as-given', con, o)
                continue
            verdict(chk, 'returned-as-given', con, where_of(c, '__init__'),
                    W.attr(o, p), x, W.st, f'the {p} given is not returned')
    chk.seen(I)


def elastic_twin(I, chk):
    """The elastic material made from another one has its stiffness at
    rest and its density."""
    d, E, fy, Eh, esu = (sym(x) for x in ('density', 'E', 'fy', 'Eh',
                                          'eps_su'))
    c = I.get(f'{BASIC}:ElasticMaterial')
    for group, cn, k, asm in [
            (BASIC, 'ElasticPlasticMaterial', {
                'E': E, 'fy': fy, 'Eh': Eh, 'eps_su': esu, 'density': d},
             pos(E, fy, d, Eh, esu) + [(lt(N.div(fy, E), esu), True)])] + [
            (g, n, dict(base_args(g, n)[0], density=d),
             base_args(g, n)[1] + pos(d))
            for g, t in ((CONC, CONCRETES), (REINF, REINFS)) for n in t]:
        W = World(I, assume=asm)
        src = W.call(I.get(f'{group}:{cn}'), **k)
        f = W.attr(c, 'from_material')
        o = W.I.call(f, [src], {}, W.fr, W.st, None)
        con = f'ElasticMaterial.from_material({cn})'
        if not (isinstance(o, Ref) and isinstance(src, Ref)):
            chk.unknown('elastic-twin', con, o)
            continue
        wh = where_of(c, 'from_material')
        verdict(chk, 'elastic-twin', f'{con}.density', wh,
                W.attr(o, 'density'), W.attr(src, 'density'), W.st,
                'the density is not the one of the material')
        want = W.method(W.attr(src, 'constitutive_law'), 'get_tangent',
                        N.ZERO)
        verdict(chk, 'elastic-twin', f'{con}.E', wh, W.attr(o, 'E'), want,
                W.st, 'E is not the tangent of the law at zero strain')
        verdict(chk, 'elastic-twin', f'{con}: law', wh, W.method(
            W.attr(o, 'constitutive_law'), 'get_stress', EPS),
            N.mul(want, EPS), W.st, 'the law is not linear with that E')


LAWCLS = {'elastic': 'Elastic', 'parabolarectangle': 'ParabolaRectangle',
          'bilinearcompression': 'BilinearCompression', 'sargin': 'Sargin',
          'popovics': 'Popovics', 'elasticplastic': 'ElasticPlastic',
          'elasticperfectlyplastic': 'ElasticPlastic'}


def design_2023(I, W, o, c, chk, con):
    code = f'{CODES}.ec2_2023'
    f = lambda n: I.get(f'{code}:{n}')
    fck, gc = W.attr(o, 'fck'), W.attr(o, 'gamma_c')
    t_ref, t0, fr = sym('t_ref'), sym('t0'), sym('fck_ref')
    for lab, kw in (('', {}), ('(given)', {
            't_ref': t_ref, 't0': t0, 'fck_ref': fr})):
        tr, tt, ff = (kw.get('t_ref', const(28)), kw.get('t0', const(91)),
                      kw.get('fck_ref', const(40)))
        v = W.method(o, 'fcd', **kw)
        eta = W.call(f('eta_cc'), fck, fck_ref=ff)
        ktc = W.call(f('k_tc'), tr, tt, 'cn')
        w = W.call(f('fcd'), fck, eta, ktc, gc)
        verdict(chk, 'derived', f'{con}.fcd{lab}', where_of(c, 'fcd'), v, w,
                W.st, 'fcd is not ec2_2023.fcd of the current properties')
    for lab, kw in (('', {}), ('(given)', {'t_ref': t_ref})):
        v = W.method(o, 'fctd', **kw)
        ktt = W.call(f('k_tt'), t_ref=kw.get('t_ref', const(28)),
                     strength_dev_class='cn')
        w = W.call(f('fctd'), W.attr(o, 'fctk_5'), ktt, gc)
        verdict(chk, 'derived', f'{con}.fctd{lab}', where_of(c, 'fctd'), v,
                w, W.st, 'fctd is not ec2_2023.fctd of the current '
                'properties')
