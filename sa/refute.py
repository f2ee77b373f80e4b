"""Witness search over the value graph (alarm filter).

When two terms are not proven equal, an alarm is raised only if a valuation of
the input symbols, allowed by the facts, makes the two *terms* differ.  The
analysed program is never run: terms of the value graph are folded.
"""

from __future__ import annotations

import hashlib
import math
import random
import time

from . import nodes as N
from .nodes import Node


LIMIT = 40        # seconds for one search


class NoValue(Exception):
    pass


def evalt(v, env, memo=None):
    if memo is None:
        memo = {}
    if isinstance(v, tuple):
        return tuple(evalt(x, env, memo) for x in v)
    if not isinstance(v, Node):
        return v
    if v.id in memo:
        return memo[v.id]
    r = _ev(v, env, memo)
    memo[v.id] = r
    return r


def _h(key):
    d = hashlib.sha256(repr(key).encode()).digest()
    return 0.1 + int.from_bytes(d[:6], 'big') / 2 ** 48 * 2.9


INTERPRETED: dict = {}     # model functions with a known meaning


def _smooth(f, args):
    """Smooth stand-in for an unknown function (insensitive to rounding)."""
    key, s = [f], 0.0

    def put(x, i):
        nonlocal s
        if isinstance(x, tuple):
            key.append(len(x))
            for j, y in enumerate(x):
                put(y, i + (j,))
        elif isinstance(x, (int, float)) and not isinstance(x, bool):
            s += _h((f, 'w', i)) * x
        else:
            key.append(x)
    for i, x in enumerate(args):
        put(x, (i,))
    if math.isnan(s) or math.isinf(s):
        raise NoValue
    return 1.5 + 1.3 * math.sin(7 * _h(tuple(key)) + s)


def _rnd(x):
    if isinstance(x, tuple):
        return tuple(_rnd(y) for y in x)
    if isinstance(x, float):
        return float(f'{x:.9g}')
    return x


def _ev(v, env, memo):
    op, a = v.op, v.args
    if op == 'const':
        return float(a[0])
    if op in ('sym', 'unk'):
        if v.id in env:
            return env[v.id]
        return _h((op, a[0], env.get('salt')))
    E = lambda x: evalt(x, env, memo)
    try:
        if op == 'add':
            return E(a[0]) + E(a[1])
        if op == 'neg':
            return -E(a[0])
        if op == 'mul':
            return E(a[0]) * E(a[1])
        if op == 'div':
            d = E(a[1])
            if d == 0:
                raise NoValue
            return E(a[0]) / d
        if op == 'pow':
            x, y = E(a[0]), E(a[1])
            if x < 0 and y != int(y):
                raise NoValue
            if x == 0 and y < 0:
                raise NoValue
            return float(x) ** y
        if op == 'abs':
            return abs(E(a[0]))
        if op == 'min':
            return min(E(x) for x in a)
        if op == 'max':
            return max(E(x) for x in a)
        if op == 'cmp':
            x, y = E(a[1]), E(a[2])
            return {'lt': x < y, 'le': x <= y, 'eq': x == y}[a[0]]
        if op == 'not':
            return not E(a[0])
        if op == 'and':
            return bool(E(a[0])) and bool(E(a[1]))
        if op == 'or':
            return bool(E(a[0])) or bool(E(a[1]))
        if op == 'ite':
            return E(a[1]) if E(a[0]) else E(a[2])
        if op == 'call':
            args = [E(x) for x in a[1:]]
            f = a[0]
            if f == 'exp':
                return math.exp(args[0])
            if f == 'log':
                return math.log(args[0])
            if f == 'log10':
                return math.log10(args[0])
            if f in ('sin', 'cos', 'tan', 'atan', 'acos', 'asin') and (
                    len(args) == 1):
                return getattr(math, f)(args[0])
            if f == 'floor':
                return float(math.floor(args[0]))
            if f == 'ceil':
                return float(math.ceil(args[0]))
            if f == 'round' and len(args) <= 2:
                n = int(args[1]) if len(args) == 2 else 0
                y = args[0] * 10.0 ** n
                if abs(y - math.floor(y) - 0.5) < 1e-6:
                    raise NoValue       # a tie, within rounding
                return float(round(args[0], n))
            if f == 'sign':
                return float((args[0] > 0) - (args[0] < 0))
            if f == 'trunc':
                return float(int(args[0]))
            if f == 'atan2':
                return math.atan2(*args)
            if f == 'interp' and len(args) == 3 and isinstance(
                    args[1], tuple) and isinstance(args[2], tuple):
                return _interp(*args)
            if f in INTERPRETED:
                return INTERPRETED[f](*args)
            return _smooth(f, args)
    except (OverflowError, ValueError, TypeError, ZeroDivisionError):
        raise NoValue from None
    if op in ('truth', 'isnone', 'isinst', 'in', 'streq', 'any', 'all'):
        return _h((op, _rnd(tuple(E(x) for x in a)))) > 1.5
    return _h((op, _rnd(tuple(E(x) for x in a))))


def _interp(x, xs, ys):
    if x <= xs[0]:
        return ys[0]
    for i in range(1, len(xs)):
        if x <= xs[i]:
            t = (x - xs[i - 1]) / (xs[i] - xs[i - 1])
            return ys[i - 1] + t * (ys[i] - ys[i - 1])
    return ys[-1]


def has_unk(v):
    return any(x.op in ('unk', 'maybe_undef') for x in N.walk(v))


def valuations(facts, terms, n=60, tries=6000, seed=1, scale=None,
               aim=False, goal=None):
    """Valuations of the symbols in terms+facts which satisfy the facts.

    aim: also where the terms change branch.  goal: a 0/1 term that some of
    the valuations (before aiming) make 0.
    """
    syms = {}
    for t in terms:
        for x in N.walk(t):
            if x.op == 'sym':
                syms[x.id] = x
    polys = [(p, facts.poly[k]) for k, p in facts.polys.items()]
    bools = [(N_by_id(i), b) for i, b in facts.bools.items()]
    bools = [(nd, b) for nd, b in bools if nd is not None]
    polys, bools = _related(polys, bools, syms)
    rng = random.Random(seed)
    out = 0

    def broken(env):
        """The facts that do not hold (those with symbols to change)."""
        bad = []
        for p, m in polys:
            v, size = _evpoly2(p, env)
            sg = 2 if v == 0 else (4 if v > 0 else 1)
            if m == 2 and abs(v) <= 1e-12 * size:
                sg = 2           # an equality, up to rounding
            if not sg & m:
                bad.append(p)
        for nd, b in bools:
            if nd.op in ('cmp', 'not', 'and', 'or'):
                if bool(evalt(nd, env)) != b:
                    bad.append(nd)
        return bad

    crit = _critical(terms) if aim else []
    t0 = time.monotonic()
    for t in range(tries):
        if time.monotonic() - t0 > LIMIT:
            return
        env = {'salt': t}
        for i, s in syms.items():
            iv = facts.iv(s)
            env[i] = _pick(rng, iv, scale)
        if crit and t % 2:
            if goal is not None and t % 4 == 3:
                _descend(env, goal, syms, facts, rng, scale)
            for _ in range(rng.choice((1, 1, 2, 3))):
                _aim(env, rng.choice(crit), syms, facts, rng, scale)
        try:
            bad = broken(env)
            if bad and out < 12 and 400 < t < 700:
                bad = _repair(env, bad, broken, syms, facts, rng, scale)
            if bad:
                continue
        except NoValue:
            continue
        yield {syms[i].args[0]: v for i, v in env.items() if i in syms}, env
        out += 1
        if out >= n:
            return


def _critical(terms):
    """Differences that vanish where the terms change branch."""
    out = {}
    for x in N.walk(tuple(terms)):
        ps = []
        if x.op == 'cmp' and all(isinstance(y, Node) for y in x.args[1:]):
            ps = [x.args[1:]]
        elif x.op in ('min', 'max'):
            ps = [(x.args[0], y) for y in x.args[1:]]
        for l, r in ps:
            ss = [y.id for y in N.walk((l, r)) if y.op == 'sym']
            if ss:
                out[(l.id, r.id)] = (l, r, ss)
    return list(out.values())


def _aim(env, crit, syms, facts, rng, scale):
    """Move one symbol to where (or next to where) a branch changes."""
    l, r, ss = crit
    ss = [i for i in ss if i in syms]
    if not ss:
        return
    i = rng.choice(ss)
    old = env[i]

    def d(x):
        env[i] = x
        return evalt(l, env) - evalt(r, env)
    try:
        iv = facts.iv(syms[i])
        x0, d0 = old, d(old)
        for j in range(8):
            x1 = _pick(rng, iv, scale if j < 4 else 5000.0)
            d1 = d(x1)
            if d0 == 0 or d1 == 0 or (d0 < 0) != (d1 < 0):
                break
        else:
            env[i] = old
            return
        if d0 == 0:
            x = x0
        elif d1 == 0:
            x = x1
        else:
            for _ in range(70):
                x = (x0 + x1) / 2
                dx = d(x)
                if dx == 0:
                    break
                if (dx < 0) == (d0 < 0):
                    x0 = x
                else:
                    x1 = x
            for y in (float(f'{x:.10g}'), round(x, 9)):
                if d(y) == 0:
                    x = y
                    break
        k = rng.choice((0, 0, 2e-4, -2e-4, 0.02, -0.02, 0.2, -0.2, 1.5))
        y = x * (1 + k) if x else k
        if (y < iv.lo or y > iv.hi or (y == iv.lo and iv.lo_open)
                or (y == iv.hi and iv.hi_open)):
            y = old
        env[i] = y
    except (NoValue, TypeError):
        env[i] = old


def _descend(env, goal, syms, facts, rng, scale, steps=80):
    """Change values until the 0/1 decision tree ends in 0."""
    for _ in range(steps):
        v, last = goal, None
        try:
            while isinstance(v, Node) and v.op == 'ite':
                last = v.args[0]
                v = v.args[1] if evalt(last, env) else v.args[2]
            if not isinstance(v, Node) or v.op != 'const' or (
                    v.args[0] == 0) or last is None:
                return
        except NoValue:
            return
        ss = sorted({y.id for y in N.walk(last) if y.op == 'sym'}
                    & env.keys())
        if not ss:
            return
        i = rng.choice(ss)
        env[i] = _pick(rng, facts.iv(syms[i]),
                       rng.choice((None, 1.0, 2000.0)) or scale)


def zero_one(v):
    return all(x.op == 'const' and x.args[0] in (0, 1)
               for x in _leaves(v, {}))


def _leaves(v, seen):
    if v.op != 'ite':
        return [v]
    if v.id in seen:
        return []
    seen[v.id] = 1
    return _leaves(v.args[1], seen) + _leaves(v.args[2], seen)


def unclear(env, terms):
    """Is a comparison decided by rounding alone?"""
    for x in N.walk(tuple(terms)):
        if x.op == 'cmp' and all(isinstance(y, Node) for y in x.args[1:]):
            try:
                p, q = evalt(x.args[1], env), evalt(x.args[2], env)
            except NoValue:
                continue
            if isinstance(p, float) and isinstance(q, float) and p != q and (
                    abs(p - q) <= 1e-11 * max(abs(p), abs(q))):
                return True
    return False


def unstable(env, terms, tol):
    """Does a value change with the rounding of the inputs alone, within
    the same branches?"""
    rng = random.Random(5)
    cmps = [x for x in N.walk(tuple(terms)) if x.op == 'cmp' and all(
        isinstance(y, Node) for y in x.args[1:])]

    def at(e):
        memo = {}
        vals = [evalt(t, e, memo) for t in terms]
        return vals, [evalt(c, e, memo) for c in cmps]
    try:
        v0, c0 = at(env)
        for _ in range(6):
            v1, c1 = at({k: v * (1 + 2e-13 * rng.uniform(-1, 1))
                         if isinstance(v, float) else v
                         for k, v in env.items()})
            if c1 == c0 and any(differ(p, q, tol) for p, q in zip(v0, v1)):
                return True
    except NoValue:
        pass
    return False


def _repair(env, bad, broken, syms, facts, rng, scale, steps=60):
    """Change single values as long as no more facts break."""
    where = {}

    def names(x):
        k = id(x)
        if k not in where:
            if isinstance(x, Node):
                ss = [y for y in N.walk(x) if y.op == 'sym']
            else:
                ss = [y for m in x for a, _e in m
                      for y in _atom_syms(N._ATOM[a])]
            where[k] = sorted({y.id for y in ss} & env.keys())
        return where[k]
    for _ in range(steps):
        if not bad:
            break
        c = names(rng.choice(bad))
        if not c:
            break
        i = rng.choice(c)
        old = env[i]
        env[i] = _pick(rng, facts.iv(syms[i]), scale)
        try:
            new = broken(env)
        except NoValue:
            new = None
        if new is None or len(new) > len(bad):
            env[i] = old
        else:
            bad = new
    return bad


def _related(polys, bools, syms):
    """The facts that share symbols (indirectly) with the terms.

    The others hold for some values of their own symbols.
    """
    items = []
    for p, m in polys:
        ss = {}
        for mo in p:
            for aid, _e in mo:
                for x in _atom_syms(N._ATOM[aid]):
                    ss[x.id] = x
        items.append((ss, 0, (p, m)))
    for nd, b in bools:
        items.append(({x.id: x for x in N.walk(nd) if x.op == 'sym'}, 1,
                      (nd, b)))
    out = ([], [])
    grown = True
    while grown:
        grown = False
        rest = []
        for ss, k, it in items:
            if not ss or ss.keys() & syms.keys():
                out[k].append(it)
                if k == 0:      # booleans do not add symbols
                    grown = grown or bool(ss.keys() - syms.keys())
                    syms.update(ss)
            else:
                rest.append((ss, k, it))
        items = rest
    return out


_BYID: dict = {}


def N_by_id(i):
    if len(_BYID) != len(N._TABLE):
        for n in N._TABLE.values():
            _BYID[n.id] = n
    return _BYID.get(i)


def _atom_syms(n):
    if n.op == 'abs*':
        ps = N._ABSOF[n.id]
    elif n.op in ('pow*', 'powx*'):
        b, rest = N._POWOF[n.id]
        ps = b + ((rest,) if rest else ())
    else:
        return [x for x in N.walk(n) if x.op == 'sym']
    out = []
    for p in ps:
        for m in p:
            for a, _e in m:
                out += _atom_syms(N._ATOM[a])
    return out


def _evatom(n, env):
    if n.op == 'abs*':
        num, den = N._ABSOF[n.id]
        d = _evpoly(den, env)
        if d == 0:
            raise NoValue
        return abs(_evpoly(num, env) / d)
    if n.op == 'pow*':
        b, rest = N._POWOF[n.id]
        d = _evpoly(b[1], env)
        if d == 0:
            raise NoValue
        x = _evpoly(b[0], env) / d
        y = _evpoly(rest, env)
        if x < 0 or (x == 0 and y < 0):
            raise NoValue
        return x ** y
    if n.op == 'powx*':
        raise NoValue
    return evalt(n, env)


def _evpoly(p, env):
    return _evpoly2(p, env)[0]


def _evpoly2(p, env):
    r = size = 0.0
    for m, c in p.items():
        t = float(c)
        for a, e in m:
            x = _evatom(N._ATOM[a], env)
            if x == 0 and e < 0:
                raise NoValue
            t *= x ** e
        r += t
        size += abs(t)
    return r, size


def _pick(rng, iv, scale):
    lo, hi = iv.lo, iv.hi
    if lo == hi:
        return float(lo)
    r = rng.random()
    if r < 0.06 and lo > -math.inf and not iv.lo_open:
        return float(lo)
    if r < 0.12 and hi < math.inf and not iv.hi_open:
        return float(hi)
    s = scale or rng.choice([1.0, 3.0, 30.0, 120.0])
    if lo == -math.inf and hi == math.inf:
        return rng.uniform(-s, s)
    if lo == -math.inf:
        return float(hi) - rng.random() * s - 1e-6
    if hi == math.inf:
        return float(lo) + rng.random() * s + 1e-6
    r = 0.001 + 0.998 * rng.random()
    if lo >= 0 and hi > 20 and rng.random() < 0.5:
        b = max(float(lo), float(hi) * 1e-4)
        return b * (float(hi) / b) ** r
    return float(lo) + (float(hi) - float(lo)) * r


def refute(a, b, facts, tol=1e-7, scale=None):
    """A valuation on which a and b differ, or None."""
    if has_unk(a) or has_unk(b):
        return None
    n = 400 if N.size(a) + N.size(b) < 150 else 120
    goal = b if isinstance(b, Node) and b.op == 'ite' and zero_one(b) else None
    for named, env in valuations(facts, [a, b], n=n, scale=scale, aim=True,
                                 goal=goal):
        try:
            x, y = evalt(a, env), evalt(b, env)
        except NoValue:
            continue
        if differ(x, y, tol) and not unclear(env, (a, b)) \
                and not unstable(env, (a, b), tol):
            return named, x, y
    return None


def differ(x, y, tol):
    if isinstance(x, tuple) or isinstance(y, tuple):
        return (not isinstance(x, tuple) or not isinstance(y, tuple)
                or len(x) != len(y)
                or any(differ(p, q, tol) for p, q in zip(x, y)))
    if isinstance(x, bool) and isinstance(y, bool):
        return x != y
    if isinstance(x, (int, float)) and isinstance(y, (int, float)):
        if math.isnan(x) or math.isnan(y):
            return False
        if math.isinf(x) or math.isinf(y):
            return x != y
        return abs(x - y) > tol * max(1.0, abs(x), abs(y))
    return x != y


def sat(cond_terms, facts, tries=4000, scale=None):
    """A valuation allowed by the facts making all (term, truth) hold."""
    terms = [t for t, _ in cond_terms if isinstance(t, Node)]
    for named, env in valuations(facts, terms, n=400, tries=tries,
                                 scale=scale):
        try:
            if all(bool(evalt(t, env)) == b for t, b in cond_terms):
                return named
        except NoValue:
            continue
    return None
