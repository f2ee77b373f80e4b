"""Rules over the public interface and the choice of design code (C23)."""

from __future__ import annotations

import ast
import os
import re

from . import effects
from .interp import Cls, Func, HDict, HInst, HList, Interp, Mod, Ref, UNDEF
from .nodes import Node, const, lt, sym
from . import nodes as N
from .matcheck import CONC, REINF, params, pos
from .repo import AnalysisBroken
from .util import World, flat

CODES = 'structuralcodes.codes'
LAWS = 'structuralcodes.materials.constitutive_laws'
INTEG = 'structuralcodes.sections.section_integrators'
META = ('__title__', '__year__', '__materials__')


def literal_all(mod):
    """The names in __all__ of a module (None if there is none)."""
    out = None
    for s in mod.tree.body:
        t = v = None
        if isinstance(s, ast.Assign) and len(s.targets) == 1:
            t, v = s.targets[0], s.value
        elif isinstance(s, (ast.AnnAssign, ast.AugAssign)):
            t, v = s.target, s.value
        if isinstance(t, ast.Name) and t.id == '__all__' and isinstance(
                v, (ast.List, ast.Tuple)):
            out = (out or []) + [(e.value, e.lineno) for e in v.elts
                                 if isinstance(e, ast.Constant)]
    return out


def exported(repo, W, chk):
    """Every exported name exists and is what it is called."""
    rule = 'exported names exist'
    for name, m in sorted(repo.modules.items()):
        names = literal_all(m)
        if names is None:
            continue
        chk.modules.add(name)
        seen = set()
        defs = {}
        for o, q in repo.modules.items():
            if o == name or (m.is_pkg and o.startswith(name + '.')
                             and o.count('.') == name.count('.') + 1
                             and not q.is_pkg):
                for s in q.tree.body:
                    if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        defs.setdefault(s.name, []).append(o)
        for n, line in names:
            where = f'{m.rel}:{line}'
            construct = f'{name}.{n}'
            r = W.lookup(name, n)
            if r is None and f'{name}.{n}' in repo.modules:
                # a submodule (from . import n)
                chk.ok(rule, construct)
                continue
            if r is None:
                chk.violation(rule, construct, where,
                              f'__all__ of {name} names {n}, which does not '
                              'exist (from ... import * fails)')
                continue
            if n in seen:
                chk.ok(rule, construct)
                continue
            seen.add(n)
            own = None
            if r[0] == 'func':
                own, home = r[1].name, r[1].module.name
            elif r[0] == 'class':
                own, home = r[1].node.name, r[1].module.name
            if own is not None and own != n and n in defs and (
                    own in dict(names)):
                chk.violation(rule, construct, where,
                              f'{construct} is {own} of {home}, although '
                              f'{n} is defined in {defs[n][0]} and {own} '
                              'is exported under its own name')
            else:
                chk.ok(rule, construct)


AUTO = re.compile(
    r'^(\s*)\.\. auto(function|class|method|property|attribute|exception|'
    r'data|module):: *([\w.]+)')


def members(W, k, n):
    """Does the class (or a base) have the member?"""
    for c in k.mro():
        if n in c.methods or n in c.attrs:
            return True
        for s in ast.walk(c.node):
            if isinstance(s, ast.Attribute) and isinstance(
                    s.ctx, ast.Store) and s.attr == n and isinstance(
                    s.value, ast.Name) and s.value.id == 'self':
                return True
            if isinstance(s, ast.AnnAssign) and isinstance(
                    s.target, ast.Name) and s.target.id == n:
                return True
    return False


def documented(repo, W, chk):
    """Every name of the API documentation exists."""
    rule = 'documented names exist'
    base = os.path.join(repo.root, 'docs')
    n = 0
    for d, dirs, files in sorted(os.walk(base)):
        dirs.sort()
        for f in sorted(files):
            if not f.endswith(('.md', '.rst')):
                continue
            p = os.path.join(d, f)
            with open(p, encoding='utf8') as h:
                lines = h.read().split('\n')
            current, indent = None, 0
            for i, line in enumerate(lines, 1):
                if line.startswith('```'):
                    current = None
                a = AUTO.match(line)
                if not a:
                    continue
                ind, kind, target = len(a.group(1)), a.group(2), a.group(3)
                where = f'{os.path.relpath(p, repo.root)}:{i}'
                n += 1
                if kind in ('method', 'property', 'attribute') and (
                        current is not None and ind > indent):
                    if members(W, current, target):
                        chk.ok(rule, f'{current.node.name}.{target}')
                    else:
                        chk.violation(
                            rule, f'{current.node.name}.{target}', where,
                            f'{current.node.name} has no {target}')
                    continue
                parts = target.split('.')
                for k in range(len(parts) - 1, 0, -1):
                    if '.'.join(parts[:k]) in repo.modules:
                        break
                else:
                    continue
                r = W.lookup('.'.join(parts[:k]), parts[k])
                owner = None
                for q in parts[k + 1:]:
                    owner = r
                    if r is not None and r[0] == 'class' and members(
                            W, r[1], q):
                        r = ('member',)
                    else:
                        r = None
                if r is None:
                    chk.violation(rule, target, where,
                                  f'{target} does not exist')
                    continue
                chk.ok(rule, target)
                if kind == 'class' and r[0] == 'class':
                    current, indent = r[1], ind
                elif owner is None:
                    current = None
    if n < 300:
        chk.notes.append(f'only {n} documented names found')


class Api:
    def __init__(self, repo, chk):
        self.repo, self.chk = repo, chk
        self.I = Interp(repo)

    def get(self, mod, name):
        v = self.I.mod_get(mod, name)
        if v is None:
            raise AnalysisBroken(f'{mod}.{name} is gone')
        return v

    def world(self, mod=CODES, assume=()):
        return World(self.I, mod, assume)

    def where(self, f):
        return f'{f.module.rel}:{f.node.lineno}'

    def judge(self, rule, construct, f, good, text):
        if good:
            self.chk.ok(rule, construct)
        else:
            self.chk.violation(rule, construct, self.where(f), text)


def only(W, exc):
    """Every path raised, with this exception."""
    return bool(W.exits) and all(str(e.value).split('.')[-1] == exc
                                 for e in W.exits)


def show(v):
    if isinstance(v, Mod):
        return v.module.name
    if v is UNDEF:
        return 'an error'
    return repr(v)[:60]


def spellings(n):
    return (n, n.upper(), n.capitalize())


def selection(A):
    chk = A.chk
    I = A.I
    set_, use, listed, annex = (A.get(CODES, x) for x in (
        'set_design_code', '_use_design_code', 'get_design_codes',
        'set_national_annex'))
    W = A.world()
    r = W.call(listed)
    o = W.h(r) if isinstance(r, Ref) else None
    names = o.items if isinstance(o, HList) else (
        r if isinstance(r, tuple) else None)
    rule = 'available design codes'
    if not isinstance(names, tuple) or not all(
            isinstance(x, str) for x in names):
        chk.unknown(rule, 'get_design_codes', f'result {r!r}')
        names = ()
    mods = [m for m in A.repo.modules
            if A.repo.modules[m].is_pkg and m.startswith(CODES + '.')
            and m.count('.') == CODES.count('.') + 1]
    known = {m.rsplit('.', 1)[1]: m for m in mods}
    A.judge(rule, 'all listed', listed, set(names) == set(known) and len(
        names) == len(set(names)),
        f'get_design_codes gives {sorted(names)}; the design codes of the '
        f'package are {sorted(known)}')

    rule = 'selected by name'
    for n in sorted(known):
        for s in spellings(n):
            W = A.world()
            r = W.call(use, s)
            A.judge(rule, f'_use_design_code({s!r})', use,
                    isinstance(r, Mod) and r.module.name == known[n]
                    and not W.exits,
                    f'_use_design_code({s!r}) gives {show(r)}, not '
                    f'{known[n]}')
            W = A.world()
            W.call(set_, s)
            bad = list(W.exits)
            r = W.call(use)
            A.judge(rule, f'set_design_code({s!r})', set_,
                    isinstance(r, Mod) and r.module.name == known[n]
                    and not bad and not W.exits,
                    f'after set_design_code({s!r}) the code in use is '
                    f'{show(r)}, not {known[n]}')
    for n in sorted(known):
        W = A.world()
        mod = Mod(A.repo.modules[known[n]])
        W.call(set_, mod)
        bad = list(W.exits)
        r = W.call(use)
        A.judge(rule, f'set_design_code(module {n})', set_,
                isinstance(r, Mod) and r.module.name == known[n]
                and not bad,
                f'after set_design_code(<module {n}>) the code in use is '
                f'{show(r)}')

    rule = 'reset and errors'
    for n in sorted(known):
        W = A.world()
        W.call(set_, n)
        W.call(set_)
        bad = list(W.exits)
        r = W.call(use)
        A.judge(rule, f'reset after {n}', set_, r is None and not bad,
                f'set_design_code() after {n} leaves {show(r)} in use')
        for what, v in (('an unknown name', 'no such code'),
                        ('an empty name', ''),
                        ('another module',
                         Mod(A.repo.modules['structuralcodes.core'])),
                        ('a number', const(2010))):
            W = A.world()
            W.call(set_, n)
            r = W.call(set_, v)
            ok = r is UNDEF and only(W, 'ValueError')
            A.judge(rule, f'set_design_code: {what}', set_, ok,
                    f'set_design_code with {what} does not raise '
                    f'ValueError but gives {show(r)}')
            W2 = A.world()
            # the state in which the exception was raised
            W.call(set_, n)
            for e in W.exits:
                st = getattr(e, 'st', None) or getattr(e, 'state', None)
                if st is None:
                    continue
                W2.st = st
                q = W2.call(use)
                A.judge(rule, f'kept after {what}', set_,
                        isinstance(q, Mod) and q.module.name == known[n],
                        f'set_design_code with {what} leaves {show(q)} in '
                        f'use instead of {n}')
            W = A.world()
            r = W.call(use, v)
            A.judge(rule, f'_use_design_code: {what}', use,
                    r is UNDEF and only(W, 'ValueError'),
                    f'a design code given as {what} gives {show(r)} '
                    'instead of ValueError')
    rule = 'given code is not kept'
    for n in sorted(known):
        for m in sorted(known):
            W = A.world()
            W.call(set_, n)
            r = W.call(use, m)
            q = W.call(use)
            A.judge(rule, f'{m} given, {n} set', use,
                    isinstance(r, Mod) and r.module.name == known[m]
                    and isinstance(q, Mod) and q.module.name == known[n],
                    f'with {n} set, a call with {m} gives {show(r)} and '
                    f'leaves {show(q)}')
    rule = 'national annex'
    for s in ('DK', 'no', 'It'):
        W = A.world()
        W.call(annex, s)
        vals = [v for k, v in W.st.glob.items() if k[0] == CODES]
        A.judge(rule, s, annex, vals == [s.lower()] and not W.exits,
                f'set_national_annex({s!r}) keeps {vals}')
    chk.seen(I)
    return known


def metadata(A, known):
    chk = A.chk
    rule = 'description of the codes'
    titles = {}
    for n, m in sorted(known.items()):
        mod = A.repo.modules[m]
        got = {}
        for k in META:
            v = A.I.mod_get(m, k)
            if isinstance(v, Ref):
                o = A.I.h(A.I.new_state(), v)
                v = o.items if isinstance(o, HList) else v
            got[k] = v
        good = isinstance(got['__title__'], str) and isinstance(
            got['__year__'], str) and isinstance(
            got['__materials__'], tuple) and all(
            isinstance(x, str) for x in got['__materials__'])
        where = f'{mod.rel}:1'
        if not good:
            chk.violation(rule, n, where,
                          f'{n} lacks a proper {", ".join(META)}: {got}')
            continue
        if got['__title__'] in titles:
            chk.violation(rule, n, where,
                          f'{n} and {titles[got["__title__"]]} have the '
                          'same title, which selects the material classes')
            continue
        titles[got['__title__']] = n
        chk.ok(rule, n)
    return titles


WANT = {
    'concrete': {'mc2010': 'ConcreteMC2010', 'ec2_2004': 'ConcreteEC2_2004',
                 'ec2_2023': 'ConcreteEC2_2023'},
    'reinforcement': {'mc2010': 'ReinforcementMC2010',
                      'ec2_2004': 'ReinforcementEC2_2004',
                      'ec2_2023': 'ReinforcementEC2_2023'},
}
PKG = {'concrete': CONC, 'reinforcement': REINF}
OWN = {'concrete': ('fck', 'name', 'density', 'gamma_c', 'existing'),
       'reinforcement': ('fyk', 'Es', 'ftk', 'epsuk', 'gamma_s', 'name',
                         'density')}
BASIC = {'concrete': ('fck',), 'reinforcement': ('fyk', 'Es', 'ftk',
                                                 'epsuk')}


def value(p):
    """A symbolic value for a constructor parameter."""
    if p == 'name':
        return 'my material'
    if p == 'existing':
        return False
    if p in ('initial_strain', 'initial_stress', 'strain_compatibility',
             'constitutive_law', 'cement_class', 'alpha_cc',
             'aggregates_type', 'strength_dev_class'):
        return None
    return sym('given_' + p)


TEXT = {
    'cement_class': ('R', 'S', 'N'),
    'aggregates_type': ('basalt', 'sandstone'),
    'strength_dev_class': ('CS', 'CR'),
}


def facts(kw):
    out = []
    for p, v in kw.items():
        if isinstance(v, Node):
            out += pos(v)
            if p == 'fck':
                out += [(N.le(const(12), v), True), (N.le(v, const(90)),
                                                     True)]
            if p.startswith('eps'):
                out.append((lt(v, const(0.1)), True))
    if 'fcm' in kw and isinstance(kw['fcm'], Node):
        out.append((lt(kw['fck'], kw['fcm']), True))
    if 'ftk' in kw:
        out.append((N.le(kw['fyk'], kw['ftk']), True))
    return out


def factories(A, known):
    chk = A.chk
    set_ = A.get(CODES, 'set_design_code')
    for kind, pkg in PKG.items():
        f = A.get(pkg, 'create_' + kind)
        for n in sorted(known):
            for how in ('given', 'upper case', 'set', 'given over set'):
                rule = 'class of the design code'
                construct = f'create_{kind}: {n} {how}'
                kw = {p: value(p) for p in BASIC[kind]}
                W = A.world(pkg, facts(kw))
                if how == 'set':
                    W.call(set_, n)
                elif how == 'given over set':
                    W.call(set_, next(x for x in sorted(known) if x != n))
                if how != 'set':
                    kw['design_code'] = n.upper() if 'upper' in how else n
                r = W.call(f, **kw)
                want = WANT[kind].get(n)
                name = W.h(r).cls.name if isinstance(r, Ref) and isinstance(
                    W.h(r), HInst) else None
                if want is None:
                    # no class of the code: nothing, or a plain error
                    good = r is None or (r is UNDEF and
                                         only(W, 'ValueError'))
                    A.judge(rule, construct, f, good or (
                        name is not None and name not in
                        WANT[kind].values()),
                        f'create_{kind} with {n} gives '
                        f'{name or show(r)}')
                    continue
                A.judge(rule, construct, f, name == want,
                        f'create_{kind} with design code {n} ({how}) gives '
                        f'{name or show(r)} instead of {want}')
        rule = 'errors of the factory'
        for what, kw2 in (('no code set', {}),
                          ('unknown code', {'design_code': 'no such'})):
            kw = {p: value(p) for p in BASIC[kind]}
            W = A.world(pkg, facts(kw))
            r = W.call(f, **kw, **kw2)
            A.judge(rule, f'create_{kind}: {what}', f,
                    r is UNDEF and only(W, 'ValueError'),
                    f'create_{kind} with {what} gives {show(r)} instead of '
                    'ValueError')
        forwarded(A, kind, f)


def forwarded(A, kind, f):
    """All arguments reach the material."""
    rule = 'arguments reach the material'
    chk = A.chk
    for n, cname in sorted(WANT[kind].items()):
        c = A.get(PKG[kind], cname)
        ps = params(c)
        extra = [p for p in ps if p not in BASIC[kind]]
        for p in extra:
            vals = TEXT.get(p) or (
                (False, True) if p == 'existing' else
                ('elastic', 'parabolarectangle' if kind == 'concrete'
                 else 'elasticplastic') if p == 'constitutive_law' else
                (True, False) if p == 'strain_compatibility' else
                (sym('given_' + p),))
            if p == 'name':
                vals = ('my material',)
            for v in vals:
                kw = {q: value(q) for q in BASIC[kind]}
                kw[p] = v
                if p == 'strain_compatibility':
                    kw['initial_strain'] = sym('given_initial_strain')
                if p == 'initial_stress':
                    # the strain follows from the stress in one step
                    kw['constitutive_law'] = 'elastic'
                if p == 'existing' and v is True:
                    kw['fcm'] = sym('given_fcm')
                fs = facts({k: x for k, x in kw.items() if not (
                    k.startswith('initial'))})
                W1 = A.world(PKG[kind], fs)
                r1 = W1.call(f, design_code=n, **kw)
                W2 = A.world(PKG[kind], fs)
                r2 = W2.call(c, **kw)
                construct = f'{cname}: {p}'
                if isinstance(v, (str, bool)):
                    construct += f'={v}'
                a, b = pic(W1, r1), pic(W2, r2)
                if p == 'initial_stress':
                    # the iteration stands for itself: only what is given
                    a, b = (tuple(x for x in y if x[0] not in (
                        '_constitutive_law', '_initial_strain'))
                        for y in (a, b))
                if a == b:
                    chk.ok(rule, construct)
                    continue
                ea = sorted(str(e.value) for e in W1.exits)
                diff = [x[0] for x, y in zip(a, b) if x != y] if (
                    isinstance(a, tuple) and isinstance(b, tuple)
                    and len(a) == len(b)) else f'{a!r:.60} / {b!r:.60}'
                chk.violation(
                    rule, construct, A.where(f),
                    f'create_{kind}({p}={v!r}, design_code={n!r}) is not '
                    f'{cname}({p}={v!r}): {diff} {ea}')


def pic(W, r):
    if not isinstance(r, Ref):
        return ('none', show(r))
    o = W.h(r)
    out = [('class', o.cls.name)]
    for k, v in sorted(o.fields.items()):
        if k == 'id' or (k in ('_name', 'name') and not isinstance(v, str)):
            continue
        m = o.cls.lookup(k.lstrip('_'))[0] if k.startswith('_') else None
        if isinstance(m, Func) and m.kind == 'property':
            # what the material reports, whatever it stores
            v = W.attr(r, k.lstrip('_'))
        out.append((k, flat(W, v)))
    return tuple(out)


LAWNAMES = {
    'elastic': 'Elastic', 'elasticplastic': 'ElasticPlastic',
    'elasticperfectlyplastic': 'ElasticPlastic',
    'bilinearcompression': 'BilinearCompression',
    'parabolarectangle': 'ParabolaRectangle', 'popovics': 'Popovics',
    'sargin': 'Sargin', 'initialstrain': 'InitialStrain',
}


def law_factory(A):
    chk = A.chk
    f = A.get(LAWS, 'create_constitutive_law')
    lst = A.get(LAWS, 'get_constitutive_laws_list')
    W = A.world(LAWS)
    r = W.call(lst)
    o = W.h(r) if isinstance(r, Ref) else None
    names = o.items if isinstance(o, HList) else r
    rule = 'available constitutive laws'
    A.judge(rule, 'listed', lst, isinstance(names, tuple) and set(
        LAWNAMES) <= set(names) and len(set(names)) == len(names),
        f'get_constitutive_laws_list gives {names!r}')
    rule = 'law of the material'
    for kind in PKG:
        for n, cname in sorted(WANT[kind].items()):
            c = A.get(PKG[kind], cname)
            for law, lname in sorted(LAWNAMES.items()):
                kw = {q: value(q) for q in BASIC[kind]}
                W = A.world(LAWS, facts(kw))
                m = W.call(c, **kw)
                has, _ = c.lookup(f'__{law}__')
                ref = None
                for s in spellings(law):
                    before = len(W.exits)
                    r = W.call(f, s, m)
                    construct = f'{cname}: {s}'
                    new = W.exits[before:]
                    if has is None:
                        A.judge(rule, construct, f, r is UNDEF and new
                                and all(str(e.value).endswith('ValueError')
                                        for e in new),
                                f'create_constitutive_law({s!r}, {cname}) '
                                f'gives {show(r)} instead of ValueError')
                        continue
                    got = W.h(r).cls.name if isinstance(r, Ref) and (
                        isinstance(W.h(r), HInst)) else None
                    A.judge(rule, construct, f, got == lname,
                            f'create_constitutive_law({s!r}, {cname}) '
                            f'gives {got or show(r)} instead of {lname}')
                    if got != lname:
                        continue
                    p = pic(W, r)
                    if ref is None:
                        # the parameters the material gives for the law
                        k2 = W.method(m, f'__{law}__')
                        d = W.h(k2) if isinstance(k2, Ref) else None
                        if isinstance(d, HDict):
                            q = W.call(A.get(LAWS, lname), **d.items)
                            ref = pic(W, q)
                        else:
                            chk.unknown(rule, construct,
                                        'parameters not followed')
                            continue
                    A.judge(rule, construct + ' parameters', f, p == ref,
                            f'create_constitutive_law({s!r}, {cname}) '
                            'differs from the law with the parameters of '
                            'the material')
            kw = {q: value(q) for q in BASIC[kind]}
            W = A.world(LAWS, facts(kw))
            m = W.call(c, **kw)
            before = len(W.exits)
            r = W.call(f, 'no such law', m)
            A.judge(rule, f'{cname}: unknown name', f,
                    r is UNDEF and only(W, 'ValueError'),
                    f'create_constitutive_law with an unknown name gives '
                    f'{show(r)} instead of ValueError')


def integrators(A):
    rule = 'integrator of the name'
    f = A.get(INTEG, 'integrator_factory')
    c = A.get(INTEG + '._factory', 'IntegratorFactory')
    call, _ = c.lookup('__call__')
    for n, cname in (('marin', 'MarinIntegrator'),
                     ('fiber', 'FiberIntegrator')):
        for first in (None, 'marin', 'fiber'):
            for s in spellings(n):
                W = A.world(INTEG)
                if first:
                    W.call(f, first)
                r = W.call(f, s)
                got = r.name if isinstance(r, Cls) else None
                if isinstance(r, Ref) and isinstance(W.h(r), HInst):
                    got = W.h(r).cls.name
                A.judge(rule, f'{s} after {first}', call, got == cname,
                        f'integrator_factory({s!r}) gives {got or show(r)} '
                        f'instead of {cname}')


def c23(repo, chk):
    W = effects.World(repo)
    exported(repo, W, chk)
    documented(repo, W, chk)
    A = Api(repo, chk)
    known = selection(A)
    metadata(A, known)
    factories(A, known)
    law_factory(A)
    integrators(A)
    chk.seen(A.I)
    chk.minimum = 900
