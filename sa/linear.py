"""Linear arithmetic over the monomials of the facts (Fourier-Motzkin)."""

from __future__ import annotations

from fractions import Fraction

from . import nodes as N

LIMIT = 4000


def _rows(facts):
    """The facts as rows (coefficients, strict): sum + const >(=) 0."""
    rows = []

    def put(p, m):
        if m == 4:
            rows.append((dict(p), True))
        elif m == 6:
            rows.append((dict(p), False))
        elif m == 2:
            rows.append((dict(p), False))
            rows.append(({k: -v for k, v in p.items()}, False))
        elif m in (1, 3):
            rows.append(({k: -v for k, v in p.items()}, m == 1))
    for k, m in facts.poly.items():
        put(facts.polys[k], m)
    for a, iv in facts.rng.items():
        x = ((a, 1),)
        inf = float('inf')
        if iv.lo > -inf:
            rows.append(({x: Fraction(1), (): -Fraction(iv.lo)}, iv.lo_open))
        if iv.hi < inf:
            rows.append(({x: Fraction(-1), (): Fraction(iv.hi)}, iv.hi_open))
    return rows


def infeasible(rows):
    """No values satisfy the rows (False: not shown)."""
    rows = [({k: Fraction(v) for k, v in p.items() if v}, s)
            for p, s in rows]
    while True:
        for p, s in rows:
            if not [k for k in p if k != ()]:
                c = p.get((), Fraction(0))
                if c < 0 or (s and c == 0):
                    return True
        names = {}
        for p, _ in rows:
            for k, v in p.items():
                if k != ():
                    n = names.setdefault(k, [0, 0])
                    n[v > 0] += 1
        if not names:
            return False
        x = min(names, key=lambda k: (names[k][0] * names[k][1], repr(k)))
        if names[x][0] * names[x][1] + len(rows) > LIMIT:
            return False
        lo, hi, rest = [], [], []
        for r in rows:
            c = r[0].get(x, 0)
            (lo if c > 0 else hi if c < 0 else rest).append(r)
        seen = set()
        for p, s in lo:
            for q, t in hi:
                a, b = p[x], -q[x]
                n = {}
                for k, v in p.items():
                    n[k] = n.get(k, 0) + v / a
                for k, v in q.items():
                    n[k] = n.get(k, 0) + v / b
                n = {k: v for k, v in n.items() if v}
                key = (frozenset(n.items()), s or t)
                if key not in seen:
                    seen.add(key)
                    rest.append((n, s or t))
        rows = rest


def prove(facts, goal, depth=8):
    """Like nodes.prove, with linear arithmetic in every case."""
    if facts.bad:
        return True
    if isinstance(goal, bool):
        return goal or infeasible(_rows(facts))
    if facts.decide(goal) is True:
        return True
    if facts.alts:
        for a in facts.alts:
            f = a.copy()
            for i, t in facts.bools.items():
                if i not in f.bools and i in N._COND:
                    f.assume(N._COND[i], t)
            if not f.bad and f.refresh() and not prove(
                    f, f.simplify(goal), depth):
                return False
        return True
    f = facts.copy()
    if not f.assume(goal, False) or not f.refresh() or infeasible(_rows(f)):
        return True
    if depth == 0:
        return False
    cs = N.open_conds(goal, f)
    for i, t in list(f.bools.items()):
        if cs:
            break
        c = N._COND.get(i)
        if c is None:
            continue
        cs = N.open_conds(c, f)
        if not cs and c.op in ('and', 'or') and t is (c.op == 'or'):
            # one of the parts holds (fails): decide the first
            if f.decide(c.args[0]) is None and f.decide(c.args[1]) is None:
                cs = [c.args[0]]
    if not cs:
        return False
    c = min(cs, key=lambda n: n.id)
    for t in (True, False):
        g = facts.copy()
        if not g.assume(c, t) or not g.refresh() or not g.refresh():
            continue
        if not prove(g, goal, depth - 1):
            return False
    return True
