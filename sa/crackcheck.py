"""Rules over the elastic cracked properties (C25)."""

from __future__ import annotations

from . import shp
from . import nodes as N
from .geocheck import Scene, affine_same
from .intcheck import interp, law, material
from .interp import Ref, UNDEF
from .lawcheck import verdict
from .nodes import Node, add, const, mul, sym
from .repo import AnalysisBroken, loc
from .util import World

RC = 'structuralcodes.sections._rc_utils'
GEN = 'structuralcodes.sections._generic'
THETA = sym('theta')
MESH = sym('mesh')
PROPS = sym('gross properties')


class Crack(Scene):
    """A section of two surfaces and two bars, and the steps summarised.

    Surface 0 is concrete, surface 1 is not.  The equilibrium search and
    the split of a surface are stand-ins (verified as C19 and C16); what
    they are given is recorded.
    """

    def __init__(self, repo, integrator, concrete=(True, False)):
        self.eq, self.cuts, self.gross = [], [], []
        self.I = I = interp(repo, {'call': self.call})
        self.W = W = World(I)
        self.laws = [law(W, t) for t in 'ABCD']
        self.mats = [material(W, lw, t) for lw, t in zip(self.laws, 'abcd')]
        self.SG, self.PG, self.CG = (
            I.get(f'structuralcodes.geometry:{n}') for n in (
                'SurfaceGeometry', 'PointGeometry', 'CompoundGeometry'))
        self.surf = [W.call(self.SG, shp.polygon(f'P{i}'), self.mats[i],
                            concrete=concrete[i], name=f'surface {i}',
                            group_label=f'group {i}') for i in range(2)]
        self.bars = []
        for i in range(2):
            d = sym(f'db{i}')
            W.st.facts.assume(N.lt(N.ZERO, d), True)
            self.bars.append(W.call(self.PG, shp.geo(
                'Point', sym(f'yb{i}'), sym(f'zb{i}')), d, self.mats[2 + i],
                name=f'bar {i}', group_label=f'group {2 + i}'))
        self.comp = W.call(self.CG, W.lst(*self.surf, *self.bars))
        self.sec = W.call(I.get(f'{GEN}:GenericSection'), self.comp,
                          integrator=integrator, mesh_size=MESH)
        self.calc = W.attr(self.sec, 'section_calculator')
        if not isinstance(self.calc, Ref):
            raise AnalysisBroken('no section calculator')

    def call(self, I, f, args, kw, node, fr, st):
        if f.cls is None:
            return None
        names = [a.arg for a in f.node.args.args]
        b = dict(zip(names, args))
        b.update(kw)
        if f.name == 'find_equilibrium_fixed_curvature' and (
                f.cls.name == 'GenericSectionCalculator'):
            c = I._sc(b.get('curv'), st)
            self.eq.append(dict(calc=args[0], geom=b.get('geom'),
                                n=I._sc(b.get('n'), st), curv=c,
                                st=st, where=loc(fr.module, node)))
            from .interp import HList
            return [I.alloc(st, HList((sym('ea'), c, N.ZERO)))]
        if f.name == 'split' and f.cls.name == 'SurfaceGeometry':
            k = len(self.cuts)
            self.cuts.append(dict(geo=args[0], line=b.get('line'), st=st,
                                  where=loc(fr.module, node)))
            from .interp import HList
            up = I.alloc(st, HList((shp.polygon(f'U{k}a'),
                                    shp.polygon(f'U{k}b'))))
            lo = I.alloc(st, HList((shp.polygon(f'L{k}a'),)))
            return [(up, lo)]
        if f.name == 'gross_properties' and f.cls.name == 'GenericSection':
            self.gross.append(args[0])
            return [PROPS]
        return None


def elastic_law(chk, S, con, wh, x, old, crack):
    """The law of x is linear with the stiffness of old at zero strain."""
    W = S.W
    lw = W.attr(W.attr(x, 'material'), 'constitutive_law')
    if not isinstance(lw, Ref):
        chk.unknown('elastic law', con, repr(lw))
        return
    E = W.method(W.attr(W.attr(old, 'material'), 'constitutive_law'),
                 'get_tangent', eps=N.ZERO)
    e = sym('strain')

    def stress(c, facts, want, text):
        st0, W.st = W.st, W.st.copy()
        for f in facts:
            W.st.facts.assume(f, True)
        sig = W.method(lw, 'get_stress', e)
        if isinstance(sig, Node) and isinstance(E, Node):
            verdict(chk, 'elastic law', c, wh, sig, want, W.st, text)
        else:
            chk.unknown('elastic law', c, f'{sig!r} {E!r}')
        W.st = st0
    text = ('the stress is not the elastic one with the stiffness of the '
            'material at zero strain')
    if crack:
        stress(f'{con} compression', (N.lt(const(-1), e), N.lt(e, N.ZERO)),
               mul(E, e), text)
        stress(f'{con} tension', (N.lt(N.ZERO, e),), N.ZERO,
               'cracked concrete carries tension')
    else:
        stress(con, (N.lt(const(-1), e), N.lt(e, N.ONE)), mul(E, e), text)
    d = W.attr(W.attr(x, 'material'), 'density')
    verdict(chk, 'elastic law', f'{con} density', wh, d,
            W.attr(W.attr(old, 'material'), 'density'), W.st,
            'the density of the part changes')


def moved(chk, S, con, wh, x, old, A):
    affine_same(chk, 'place', con, wh, S.shape(x),
                shp.transform(S.shape(old), A), S.W.st,
                'the part is not where it should be')


def sorted_parts(S, g):
    p = S.parts(g) if isinstance(g, Ref) else None
    if p is None:
        return None
    s = [x for x in p if S.SG in S.W.h(x).cls.mro]
    return s, [x for x in p if x not in s]


def picture(S, g):
    """The parts of a geometry as their user sees them."""
    W = S.W
    P = sorted_parts(S, g)
    if P is None:
        return None
    return (tuple((S.shape(x),) + tuple(
        W.attr(x, n) for n in ('material', 'concrete', 'name',
                               'group_label')) for x in P[0]),
            tuple((S.shape(x),) + tuple(
                W.attr(x, n) for n in ('material', 'diameter', 'area', 'name',
                                       'group_label')) for x in P[1]))


def one(repo, chk, integrator, give, conc, side_of):
    S = Crack(repo, integrator, conc)
    W, I = S.W, S.I
    W.st.facts.assume(N.lt(N.ZERO, THETA) if side_of == 'positive' else
                      N.lt(THETA, N.ZERO), True)
    f = I.get(f'{RC}:calculate_elastic_cracked_properties')
    wh = f'{loc(f.module, f.node)} {f.name}'
    con = (f'{integrator} {"with" if give else "without"} the section, '
           f'concrete {"".join("yn"[not c] for c in conc)}, '
           f'{side_of} angle')
    before = picture(S, S.comp), picture(S, W.attr(S.sec, 'geometry'))
    r = W.call(f, S.sec, THETA, return_cracked_section=give)
    chk.seen(I)
    if r is UNDEF:
        bad = [e for e in W.exits]
        if bad and bad[0].value in ('AttributeError', 'NameError',
                                    'TypeError', 'UnboundLocalError'):
            chk.violation('runs', con, bad[0].where,
                          f'always fails: {bad[0].value}')
        else:
            chk.unknown('runs', con, [str(e.value) for e in bad])
        return
    after = picture(S, S.comp), picture(S, W.attr(S.sec, 'geometry'))
    if before == after:
        chk.ok('section kept', con)
    else:
        chk.violation('section kept', con, wh, 'the section given changes')
    rot = shp.rotation(N.neg(THETA), (N.ZERO, N.ZERO))
    back = shp.rotation(THETA, (N.ZERO, N.ZERO))
    # ------------------------------------------------ equilibrium search
    if len(S.eq) != 1:
        chk.unknown('equilibrium', con, f'{len(S.eq)} searches')
        return
    q = S.eq[0]
    verdict(chk, 'equilibrium', f'{con}: axial load', q['where'], q['n'],
            N.ZERO, W.st, 'the neutral axis is that of pure bending')
    curv = q['curv']
    sg = W.st.facts.sign(curv) if isinstance(curv, Node) else None
    if sg not in (1, 4):
        chk.unknown('equilibrium', con, f'sign of the curvature {curv!r}')
        return
    neg_curv = N.is_const(curv) and N.cval(curv) < 0
    P = sorted_parts(S, q['geom'])
    if P is None or len(P[0]) != 2 or len(P[1]) != 2:
        (chk.unknown if P is None else chk.violation)(
            'equilibrium', f'{con}: parts', *(
                (repr(q['geom']),) if P is None else
                (q['where'], 'parts are missing in the elastic section')))
        return
    for i, (x, old) in enumerate(zip(P[0] + P[1], S.surf + S.bars)):
        c = f'{con}: elastic part {i}'
        moved(chk, S, c, q['where'], x, old, rot)
        elastic_law(chk, S, c, wh, x, old, i < 2 and conc[i])
    calculator(chk, S, f'{con}: elastic section', wh, q['calc'], integrator)
    # -------------------------------------------------------------- cuts
    cut = {}
    for k, c in enumerate(S.cuts):
        i = next((j for j, x in enumerate(P[0])
                  if isinstance(c['geo'], Ref) and S.shape(c['geo']) is
                  S.shape(x)), None)
        if i is None:
            chk.unknown('cut', con, 'another surface is cut')
            continue
        cut[i] = k
        ln = I.iterate(c['line'], W.fr, c['st'], None)
        p = I.iterate(ln[0], W.fr, c['st'], None) if ln else None
        if p is None or len(p) != 2:
            chk.unknown('cut', con, repr(c['line']))
            continue
        ang = I._sc(ln[1], c['st'])
        verdict(chk, 'cut', f'{con}: angle {i}', c['where'], ang, N.ZERO,
                W.st, 'the section is not cut parallel to the axis of '
                'bending')
        z = I._sc(p[1], c['st'])
        verdict(chk, 'cut', f'{con}: neutral axis {i}', c['where'],
                z, N.neg(N.div(sym('ea'), curv)), W.st,
                'the strain at the line of the cut is not zero')
    for i in range(2):
        if conc[i] and i not in cut:
            chk.violation('cut', f'{con}: concrete {i}', wh,
                          'the concrete is not cut at the neutral axis')
            return
        if not conc[i] and i in cut:
            chk.violation('cut', f'{con}: other material', wh,
                          'a surface that is not concrete is cut at the '
                          'neutral axis')
            return
    # ----------------------------------------------- the cracked section
    if len(S.gross) != 1:
        chk.unknown('cracked section', con, f'{len(S.gross)} sections')
        return
    sec = S.gross[0]
    calculator(chk, S, f'{con}: cracked section', wh,
               W.attr(sec, 'section_calculator'), integrator)
    g = W.attr(sec, 'geometry')
    R = sorted_parts(S, g)
    if R is None:
        chk.unknown('cracked section', con, repr(g))
        return
    side = 'U' if neg_curv else 'L'
    want = []
    for i in range(2):
        if i in cut:
            want += [(shp.polygon(f'{side}{cut[i]}{t}'), i) for t in
                     ('ab' if side == 'U' else 'a')]
        else:
            want.append((shp.transform(S.shape(S.surf[i]), rot), i))
    if len(R[0]) != len(want) or len(R[1]) != 2:
        chk.violation('cracked section', f'{con}: parts', wh,
                      f'{len(R[0])} surfaces and {len(R[1])} bars instead of '
                      f'{len(want)} and 2')
    else:
        for j, (x, (shape, i)) in enumerate(zip(R[0], want)):
            c = f'{con}: cracked part {j}'
            affine_same(chk, 'place', c, wh, S.shape(x),
                        shp.transform(shape, back), W.st,
                        'the part left is not the compressed one at its '
                        'place')
            elastic_law(chk, S, c, wh, x, S.surf[i], conc[i])
        ident = shp.ID
        for j, (x, old) in enumerate(zip(R[1], S.bars)):
            c = f'{con}: cracked bar {j}'
            moved(chk, S, c, wh, x, old, ident)
            elastic_law(chk, S, c, wh, x, old, False)
            for n in ('diameter', 'area'):
                verdict(chk, 'cracked section', f'{c} {n}', wh,
                        W.attr(x, n), W.attr(old, n), W.st,
                        f'{n} of the bar changes')
    # ------------------------------------------------------------ result
    if give:
        ok = isinstance(r, tuple) and len(r) == 2 and r[0] is PROPS
        gg = ok and isinstance(r[1], Ref) and picture(S, r[1]) == picture(S, g)
        if ok and gg:
            chk.ok('result', con)
        elif not ok:
            chk.violation('result', con, wh, 'not the properties and the '
                          'geometry of the cracked section')
        else:
            chk.unknown('result', con, 'geometry returned')
    elif r is PROPS:
        chk.ok('result', con)
    else:
        chk.violation('result', con, wh, 'not the properties of the cracked '
                      f'section: {r!r}')


def calculator(chk, S, con, wh, calc, integrator):
    W = S.W
    if not isinstance(calc, Ref):
        chk.unknown('integrator', con, repr(calc))
        return
    a = W.attr(calc, 'integrator')
    b = W.attr(S.calc, 'integrator')
    if not isinstance(a, Ref) or not isinstance(b, Ref):
        chk.unknown('integrator', con, repr(a))
    elif W.h(a).cls is W.h(b).cls:
        chk.ok('integrator', con)
    else:
        chk.violation('integrator', con, wh, f'{W.h(a).cls.name} instead of '
                      f'{W.h(b).cls.name}')
    if integrator == 'fiber':
        verdict(chk, 'integrator', f'{con} mesh size', wh,
                W.attr(calc, 'mesh_size'), MESH, W.st,
                'the mesh size is not that of the section')


def no_concrete(repo, chk):
    """A section without concrete has no cracked properties."""
    S = Crack(repo, 'marin', (False, False))
    f = S.I.get(f'{RC}:calculate_elastic_cracked_properties')
    wh = f'{loc(f.module, f.node)} {f.name}'
    for give in (False, True):
        r = S.W.call(f, S.sec, THETA, return_cracked_section=give)
        con = f'no concrete {give}'
        if r is None:
            chk.ok('result', con)
        else:
            chk.violation('result', con, wh, f'{r!r} instead of None')


def c25(repo, chk):
    for integ in ('marin', 'fiber'):
        for give in (False, True):
            for conc in ((True, False), (False, True), (True, True)):
                for side_of in ('positive', 'negative'):
                    try:
                        one(repo, chk, integ, give, conc, side_of)
                    except AnalysisBroken:
                        raise
                    except Exception as e:      # noqa: BLE001
                        chk.unknown('analysis', f'{integ} {give} {conc}',
                                    f'{type(e).__name__}: {e}')
    no_concrete(repo, chk)
    chk.minimum = 10
