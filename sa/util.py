"""Small helpers shared by the rules."""

from __future__ import annotations


from . import nodes as N
from .interp import (Bound, Cls, Dead, Ext, Func, HArr, HDict,
                     HInst, HList, Ref, UNDEF)
from .nodes import Node

RAISE = 'raise'


def guard_term(guard, base=0):
    t = None
    for c, truth in guard[base:]:
        x = c if truth else N.not_(c)
        t = x if t is None else N.and_(t, x)
    return t


def raise_term(exits, base=0):
    """The condition under which one of the exits is taken (None: never)."""
    t = None
    for e in exits:
        g = guard_term(e.guard, base)
        if g is None:
            return True
        t = g if t is None else N.or_(t, g)
    return t


def outcome(value, exits, base=0):
    """The result with raising exits folded in as leaves."""
    v = value
    for e in reversed(exits):
        leaf = N.call(RAISE, N.call('exc:' + str(e.value)))
        g = guard_term(e.guard, base)
        if v is UNDEF:
            v = leaf
        elif g is None:
            v = leaf
        else:
            v = N.ite(g, leaf, v) if isinstance(v, (Node, int, float, str,
                                                    bool, type(None))) else v
    return v


FORCED = []          # comparisons taken to hold or not (cases.py)
CURRENT = [None]


class World:
    """One abstract run: a state, an entry frame, and its raising exits."""

    def __init__(self, I, module='structuralcodes.core.base', assume=()):
        self.I = I
        self.st = I.new_state()
        self.fr = I.entry_frame(self.st, I.repo.modules[module])
        for c, t in assume:
            self.st.facts.assume(c, t)
        self.forced = False
        for c, t in FORCED:
            if self.st.facts.decide(c) is None:
                self.st.facts.assume(c, t)
                self.forced = True
        CURRENT[0] = self

    def call(self, f, *args, **kw):
        try:
            return self.I.call(f, list(args), kw, self.fr, self.st, None)
        except Dead:
            return UNDEF

    def attr(self, o, name):
        try:
            return self.I.getattr(o, name, self.fr, self.st, None)
        except Dead:
            return UNDEF

    def method(self, o, name, *args, **kw):
        f = self.attr(o, name)
        if f is UNDEF:
            return UNDEF
        return self.call(f, *args, **kw)

    @property
    def exits(self):
        return [e for e in self.fr.exits if e.kind == 'raise']

    def h(self, ref):
        return self.I.h(self.st, ref)

    def lst(self, *items):
        return self.I.alloc(self.st, HList(tuple(items)))


def flat(W, v, depth=0):
    """A comparable (Node/tuple) picture of a value."""
    if isinstance(v, Ref):
        o = W.h(v)
        if isinstance(o, HDict):
            return ('dict',) + tuple(
                (k, flat(W, x, depth + 1)) for k, x in sorted(
                    o.items.items(), key=lambda p: str(p[0])))
        if isinstance(o, HList) and isinstance(o.items, tuple):
            return ('list',) + tuple(flat(W, x, depth + 1) for x in o.items)
        if isinstance(o, HArr):
            if o.items is not None:
                return ('arr',) + tuple(flat(W, x, depth + 1)
                                        for x in o.items)
            return ('arr*', o.elem)
        if isinstance(o, HInst) and depth < 4:
            return ('inst', o.cls.name) + tuple(
                (k, flat(W, x, depth + 1)) for k, x in sorted(
                    o.fields.items())
                if k not in ('id', '_name', 'name'))
        return ('ref?',)
    if isinstance(v, tuple):
        return tuple(flat(W, x, depth + 1) for x in v)
    if isinstance(v, (Func, Bound, Cls, Ext)):
        return ('obj', repr(v))
    return v


def leaves(a, b):
    """Pairs of comparable leaves, or None if the shapes differ."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return None
        out = []
        for x, y in zip(a, b):
            r = leaves(x, y)
            if r is None:
                return None
            out += r
        return out
    if isinstance(a, tuple) or isinstance(b, tuple):
        return None
    return [(a, b)]
