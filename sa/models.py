"""Model classes analysed together with the repository's code.

The laws are uninterpreted: stress, tangent, Marin coefficients and limits
of law i are unknown functions of the strain, so a result that holds for
them holds for every law.
"""

from __future__ import annotations

import math

from . import lawcheck
from . import nodes as N
from .interp import HArr, HList, Ref
from .refute import INTERPRETED

TEXT = '''
from structuralcodes.core.base import ConstitutiveLaw, Material
import sa_ext


class ModelLaw(ConstitutiveLaw):
    __materials__ = ('concrete', 'steel', 'rebars')

    def __init__(self, tag, name=None):
        super().__init__(name=name if name is not None else 'ModelLaw')
        self.tag = tag

    def get_stress(self, eps):
        return sa_ext.sig(self.tag, eps)

    def get_tangent(self, eps):
        return sa_ext.tan(self.tag, eps)

    def get_secant(self, eps):
        return sa_ext.sec(self.tag, eps)

    def get_ultimate_strain(self, yielding=False):
        return sa_ext.lim(self.tag, yielding)

    def __marin__(self, strain):
        return sa_ext.marin(self.tag, strain)

    def __marin_tangent__(self, strain):
        return sa_ext.marin_tangent(self.tag, strain)


class ModelMaterial(Material):
    def __init__(self, law, density, name=None):
        super().__init__(density=density,
                         name=name if name is not None else 'ModelMaterial')
        self._constitutive_law = law
'''

RANGES = 2      # strain ranges per law
ORDER = 3       # coefficients per range


def moment_value(ring, m, n):
    """Integral of y^m z^n over a polygon (numbers)."""
    tot = 0.0
    for (ya, za), (yb, zb) in zip(ring, ring[1:] + ring[:1]):
        dy, dz = yb - ya, zb - za
        for i in range(int(m) + 2):
            for j in range(int(n) + 1):
                tot += (math.comb(int(m) + 1, i) * math.comb(int(n), j)
                        / (i + j + 1) * ya ** (int(m) + 1 - i) * dy ** i
                        * za ** (int(n) - j) * dz ** j * dz)
    return tot / (m + 1)


def moment(ring, m, n):
    """The moment of a closed ring as an atom with a canonical ring."""
    pts = list(ring)
    if len(pts) > 1 and pts[0] == pts[-1]:
        pts = pts[:-1]
    ids = [(p[0].id, p[1].id) for p in pts]
    k = ids.index(min(ids))
    pts = pts[k:] + pts[:k]
    ids = ids[k:] + ids[:k]
    sg = 1
    if len(pts) > 2 and ids[1] > ids[-1]:
        pts = pts[:1] + pts[:0:-1]
        sg = -1
    r = N.call('M', tuple(pts), N.const(m), N.const(n))
    return r if sg > 0 else N.neg(r)


INTERPRETED['M'] = moment_value


def install(repo):
    lawcheck.KNOWN_CALLS.update(
        ['sig', 'tan', 'sec', 'area', 'cx', 'cy', 'M', 'lim_nu', 'lim_pu',
         'lim_ny', 'lim_py', 'bound0', 'bound1', 'bound2', 'bound3'])
    lawcheck.KNOWN_CALLS.update(f'r{i}' for i in range(RANGES + 1))
    lawcheck.KNOWN_CALLS.update(
        f'{f}{p}{k}' for f in ('m', 't', 'mu', 'tu') for p in range(RANGES)
        for k in range(ORDER))
    if 'sa_model' not in repo.modules:
        repo.model('sa_model', TEXT)


def limits(tag, i):
    return N.call(f'r{i}', tag)


def coef(fn, tag, p, k, e0, chi):
    return N.call(f'{fn}{p}{k}', tag, e0, chi)


def ext(I, path, args, kw, node, fr, st):
    """Meaning of the sa_ext functions."""
    if not path.startswith('sa_ext.'):
        return None
    n = path.split('.')[-1]
    tag = args[0]
    if n in ('sig', 'tan', 'sec'):
        v = args[1]
        if isinstance(v, Ref):
            o = I.h(st, v)
            if isinstance(o, HList) and isinstance(o.items, tuple):
                v = I.alloc(st, HArr(None, o.items))
        return I.map1(v, lambda x: N.call(n, tag, I._sc(x, st)), fr, st)
    if n == 'lim':
        y = args[1]
        t = 'y' if y is True else 'u' if y is False else None
        if t is None:
            y = I._sc(y, st)
            return (N.call('lim_n?', tag, y), N.call('lim_p?', tag, y))
        return (N.call('lim_n' + t, tag), N.call('lim_p' + t, tag))
    if n in ('marin', 'marin_tangent'):
        f = 'm' if n == 'marin' else 't'
        s = I.iterate(args[1], fr, st, node)
        if s is None:
            s = [I.getitem(args[1], N.const(i), fr, st, node)
                 for i in (0, 1)]
        e0, chi = (I._sc(x, st) for x in s[:2])
        if chi is N.ZERO:
            return (None, I.alloc(st, HList((tuple(
                coef(f + 'u', tag, 0, k, e0, chi) for k in range(1)),))))
        rs = tuple((limits(tag, i), limits(tag, i + 1))
                   for i in range(RANGES))
        cs = tuple(tuple(coef(f, tag, p, k, e0, chi) for k in range(ORDER))
                   for p in range(RANGES))
        return (I.alloc(st, HList(rs)), I.alloc(st, HList(cs)))
    return None
