"""Hash-consed value graph, rational normal forms, sign/interval facts.

A *node* is an interned term standing for the value an expression of the
analysed program computes.  Nothing here evaluates the analysed program: terms
are built from its syntax tree, compared through a rational normal form (value
numbering), and ordered through a sign/interval abstract domain (`Facts`).
"""

from __future__ import annotations

import math
from fractions import Fraction

INF = math.inf


class Node:
    __slots__ = ('op', 'args', 'id', '_nf', '_deps', '__weakref__')

    def __repr__(self):
        return show(self)

    # identity hashing: nodes are interned
    def __bool__(self):
        raise TypeError('abstract value used as a concrete truth value')


_TABLE: dict = {}


def mk(op, *args):
    key = (op, tuple(_k(a) for a in args))
    n = _TABLE.get(key)
    if n is None:
        n = Node()
        n.op = op
        n.args = args
        n.id = len(_TABLE)
        n._nf = None
        n._deps = None
        _TABLE[key] = n
    return n


def _k(a):
    if isinstance(a, Node):
        return ('n', a.id)
    if isinstance(a, tuple):
        return ('t',) + tuple(_k(x) for x in a)
    return (type(a).__name__, a)


_uid = [0]


def fresh(tag, *deps):
    _uid[0] += 1
    return mk('unk', f'{tag}#{_uid[0]}', *deps)


def sym(name, kind='num'):
    return mk('sym', name, kind)


def const(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, Fraction):
        return mk('const', v)
    if isinstance(v, int):
        return mk('const', Fraction(v))
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            return mk('const', v)
        return mk('const', Fraction(repr(v)))
    raise TypeError(v)


ZERO = const(0)
ONE = const(1)
ABSENT = mk('absent')      # element excluded by a boolean mask


def is_const(n):
    return isinstance(n, Node) and n.op == 'const'


def cval(n):
    return n.args[0]


def finite(n):
    return is_const(n) and isinstance(n.args[0], Fraction)


# ---------------------------------------------------------------- arithmetic
def _num(a):
    if isinstance(a, Node):
        return a
    if isinstance(a, (bool, int, float, Fraction)):
        return const(a)
    raise TypeError(f'not numeric: {a!r}')


def add(a, b):
    a, b = _num(a), _num(b)
    if a is ABSENT or b is ABSENT:
        return ABSENT
    if is_const(a) and is_const(b):
        return const(cval(a) + cval(b))
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    for x, y in ((a, b), (b, a)):
        ny = neg(y)
        if x is ny:
            return ZERO
        if x.op == 'add':
            if x.args[0] is ny:
                return x.args[1]
            if x.args[1] is ny:
                return x.args[0]
    return mk('add', a, b) if a.id < b.id else mk('add', b, a)


def neg(a):
    a = _num(a)
    if a is ABSENT:
        return a
    if is_const(a):
        return const(-cval(a))
    if a.op == 'neg':
        return a.args[0]
    return mk('neg', a)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    a, b = _num(a), _num(b)
    if a is ABSENT or b is ABSENT:
        return ABSENT
    if is_const(a) and is_const(b):
        try:
            return const(cval(a) * cval(b))
        except (OverflowError, ValueError):
            return const(float(cval(a)) * float(cval(b)))
    if a is ONE:
        return b
    if b is ONE:
        return a
    if (a is ZERO) or (b is ZERO):
        return ZERO
    return mk('mul', a, b) if a.id < b.id else mk('mul', b, a)


def div(a, b):
    a, b = _num(a), _num(b)
    if a is ABSENT or b is ABSENT:
        return ABSENT
    if finite(b) and cval(b) != 0:
        if finite(a):
            return const(cval(a) / cval(b))
        if b is ONE:
            return a
    if a is ZERO:
        return ZERO
    return mk('div', a, b)


def power(a, b):
    a, b = _num(a), _num(b)
    if a is ABSENT or b is ABSENT:
        return ABSENT
    if b is ONE:
        return a
    if b is ZERO:
        return ONE
    if finite(a) and finite(b):
        x, y = cval(a), cval(b)
        if y.denominator == 1 and abs(y) <= 64 and not (x == 0 and y < 0):
            return const(x ** int(y))
        if x == 1:
            return ONE
        if x == 0 and y > 0:
            return ZERO
    return mk('pow', a, b)


def fabs(a):
    a = _num(a)
    if a is ABSENT:
        return a
    if is_const(a):
        return const(abs(cval(a)))
    if a.op == 'neg':
        return fabs(a.args[0])
    if a.op in ('abs',):
        return a
    if a.op in ('mul', 'div'):
        x, y = a.args
        r = fabs(x), fabs(y)
        return mul(*r) if a.op == 'mul' else div(*r)
    return mk('abs', a)


def call(name, *args):
    return mk('call', name, *args)


# ---------------------------------------------------------------- booleans
def not_(c):
    if isinstance(c, bool):
        return not c
    if c.op == 'not':
        return c.args[0]
    return mk('not', c)


def and_(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    if a is b:
        return a
    return mk('and', a, b)


def or_(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    if a is b:
        return a
    return mk('or', a, b)


FOLD = False    # choices of the smaller or larger of two are min and max


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    if a is True and b is False:
        return c
    if a is False and b is True:
        return not_(c)
    if isinstance(c, Node) and c.op == 'not':
        return ite(c.args[0], b, a)
    if FOLD and isinstance(c, Node) and c.op == 'cmp' \
            and c.args[0] in ('lt', 'le') and isinstance(a, Node) \
            and isinstance(b, Node) and (
                a is c.args[1] and b is c.args[2]
                or b is c.args[1] and a is c.args[2]):
        return mk('min' if a is c.args[1] else 'max',
                  *sorted((a, b), key=lambda n: n.id))
    return mk('ite', c, a, b)


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Node):
        return False
    try:
        return a == b
    except TypeError:
        return False


def lt(a, b):
    return cmp_('lt', a, b)


def le(a, b):
    return cmp_('le', a, b)


def cmp_(op, a, b):
    a, b = _num(a), _num(b)
    if a is ABSENT or b is ABSENT:
        return False
    if is_const(a) and is_const(b):
        x, y = cval(a), cval(b)
        return {'lt': x < y, 'le': x <= y, 'eq': x == y}[op]
    if a is b:
        return op != 'lt'
    if op == 'eq' and a.id > b.id:
        a, b = b, a
    return mk('cmp', op, a, b)


# ---------------------------------------------------------------- dependence
def deps(v, out=None):
    """Names of the symbols a value depends on."""
    return set(_deps(v))


def _deps(v):
    if isinstance(v, Node):
        if v._deps is None:
            if v.op == 'sym':
                v._deps = frozenset([v.args[0]])
            else:
                s = frozenset()
                for a in v.args:
                    s |= _deps(a)
                v._deps = s
        return v._deps
    if isinstance(v, (tuple, list)):
        s = frozenset()
        for a in v:
            s |= _deps(a)
        return s
    return frozenset()


def walk(v, seen=None):
    if seen is None:
        seen = set()
    if isinstance(v, Node):
        if v.id in seen:
            return
        seen.add(v.id)
        yield v
        for a in v.args:
            yield from walk(a, seen)
    elif isinstance(v, (tuple, list)):
        for a in v:
            yield from walk(a, seen)


_SIZE: dict = {}


def size(n):
    """Number of distinct nodes of a term (capped)."""
    if not isinstance(n, Node):
        return 1
    r = _SIZE.get(n.id)
    if r is None:
        r = 0
        for _ in walk(n):
            r += 1
            if r >= 1000:
                break
        _SIZE[n.id] = r
    return r


# ---------------------------------------------------------------- polynomials
# monomial: tuple of (atom_id, exp) sorted; poly: dict monomial -> Fraction
_ATOM: dict = {}


def p_const(c):
    return {(): Fraction(c)} if c else {}


def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
        if d[a] == 0:
            del d[a]
    return tuple(sorted(d.items()))


MAXTERMS = 4000


class TooBig(Exception):
    pass


def p_mul(a, b):
    if len(a) * len(b) > MAXTERMS:
        raise TooBig
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def p_pow(a, n):
    r = p_const(1)
    for _ in range(n):
        r = p_mul(r, a)
    return r


def m_gcd(p):
    """Largest monomial (exponents may be negative) dividing every term."""
    it = iter(p)
    try:
        g = dict(next(it))
    except StopIteration:
        return ()
    for m in it:
        d = dict(m)
        for a in list(g):
            e = min(g[a], d.get(a, 0)) if a in d else min(g[a], 0)
            if e:
                g[a] = e
            else:
                del g[a]
        for a, e in d.items():
            if a not in g and e < 0:
                g[a] = e
    return tuple(sorted(g.items()))


def m_inv(m):
    return tuple((a, -e) for a, e in m)


def p_scale(p, m, c=1):
    return {m_mul(k, m): v * c for k, v in p.items()}


def p_key(p):
    return tuple(sorted(p.items()))


def p_lead(p):
    return p[max(p)]


def atom(n):
    _ATOM[n.id] = n
    return {((n.id, 1),): Fraction(1)}


def nf(n):
    """Rational normal form (num, den) of a numeric node."""
    if not isinstance(n, Node):
        n = _num(n)
    if n._nf is None:
        try:
            n._nf = _reduce(*_nf(n))
        except TooBig:
            n._nf = (atom(n), p_const(1))
    return n._nf


_SINCOS: dict = {}    # atom id of sin(x) -> atom id of cos(x)


def _roots(num, den):
    """Apply sin^2 = 1 - cos^2 and (b^(p/q))^q = b^p inside a fraction."""
    for _ in range(40):
        hit = None
        for part in (num, den):
            for m in part:
                for a, e in m:
                    if e < 2:
                        continue
                    if a in _SINCOS:
                        hit = (a, 2)
                    elif a in _POWOF and _POWOF[a][1] is not None:
                        b, rest = _POWOF[a]
                        if set(rest) == {()}:
                            q = rest[()].denominator
                            if q <= 6 and e >= q:
                                hit = (a, q)
                    if hit:
                        break
                if hit:
                    break
            if hit:
                break
        if not hit:
            return num, den
        a, q = hit
        if a in _SINCOS:
            rn = p_add(p_const(1), {((_SINCOS[a], 2),): Fraction(1)}, -1)
            rd = p_const(1)
        else:
            (bn, bd), rest = _POWOF[a]
            k = rest[()].numerator
            rn, rd = p_pow(bn, k), p_pow(bd, k)
        num, d1 = _repl(num, a, q, rn, rd)
        den, d2 = _repl(den, a, q, rn, rd)
        if d1 != d2:
            num, den = p_mul(num, d2), p_mul(den, d1)
    return num, den


def _repl(p, a, q, rn, rd):
    """p with atom a**q replaced by rn/rd: (numerator, denominator)."""
    top = 0
    parts = []
    for m, c in p.items():
        d = dict(m)
        k = d.get(a, 0) // q if d.get(a, 0) > 0 else 0
        if k:
            d[a] -= k * q
            if d[a] == 0:
                del d[a]
        parts.append((tuple(sorted(d.items())), c, k))
        top = max(top, k)
    out = {}
    one = rd == p_const(1)
    for m, c, k in parts:
        t = {m: c}
        if k:
            t = p_mul(t, p_pow(rn, k))
        if not one and top - k:
            t = p_mul(t, p_pow(rd, top - k))
        out = p_add(out, t)
    return out, (p_const(1) if one else p_pow(rd, top))


def _reduce(num, den):
    if not num:
        return {}, p_const(1)
    if _SINCOS or _POWOF:
        num, den = _roots(num, den)
        if not num:
            return {}, p_const(1)
    # clear negative exponents, strip common monomials and the constant factor
    g = m_gcd(den)
    if g:
        num, den = p_scale(num, m_inv(g)), p_scale(den, m_inv(g))
    # move remaining negative exponents of num into den
    gneg = tuple((a, e) for a, e in m_gcd(num) if e < 0)
    if gneg:
        num, den = p_scale(num, m_inv(gneg)), p_scale(den, m_inv(gneg))
        # may now share nothing by construction
    c = p_lead(den)
    if c != 1:
        num = {m: v / c for m, v in num.items()}
        den = {m: v / c for m, v in den.items()}
    if len(den) > 1:
        # try exact division num/den or den/num-like cancellation
        q = _exact_div(num, den)
        if q is not None:
            return q, p_const(1)
        q = _exact_div(den, num) if len(num) > 1 else None
        if q is not None and len(q) >= 1:
            c = p_lead(q)
            return p_const(1 / c), {m: v / c for m, v in q.items()}
    return num, den


def _exact_div(a, b):
    """a / b if b divides a exactly (lex order), else None."""
    if len(b) > len(a) + 40 or len(a) > 400:
        return None
    q = {}
    r = dict(a)
    lm = max(b, key=_mkey)
    lc = b[lm]
    for _ in range(200):
        if not r:
            return q
        m = max(r, key=_mkey)
        t = m_mul(m, m_inv(lm))
        if any(e < 0 for _, e in t):
            return None
        c = r[m] / lc
        q[t] = q.get(t, 0) + c
        r = p_add(r, p_scale(b, t), -c)
    return None


def _mkey(m):
    # lex order on atoms: compare as dense exponent by atom id descending
    return tuple((a, e) for a, e in sorted(m, key=lambda x: -x[0]))


def _nf(n):
    op = n.op
    if op == 'const':
        v = n.args[0]
        if isinstance(v, Fraction):
            return p_const(v), p_const(1)
        return atom(n), p_const(1)
    if op == 'add':
        a, b = nf(n.args[0]), nf(n.args[1])
        if a[1] == b[1]:
            return p_add(a[0], b[0]), a[1]
        return (p_add(p_mul(a[0], b[1]), p_mul(b[0], a[1])),
                p_mul(a[1], b[1]))
    if op == 'neg':
        a = nf(n.args[0])
        return {m: -c for m, c in a[0].items()}, a[1]
    if op == 'mul':
        a, b = nf(n.args[0]), nf(n.args[1])
        return p_mul(a[0], b[0]), p_mul(a[1], b[1])
    if op == 'div':
        a, b = nf(n.args[0]), nf(n.args[1])
        if not b[0]:
            return atom(n), p_const(1)
        return p_mul(a[0], b[1]), p_mul(a[1], b[0])
    if op == 'pow':
        return _nf_pow(*n.args)
    if op == 'abs':
        a = nf(n.args[0])
        return _even_atom(n, a)
    if op == 'call':
        return _nf_call(n)
    return atom(n), p_const(1)


def _nf_call(n):
    """Applications with equal normal forms of the arguments are equal."""
    name = n.args[0]
    if name in ('cos', 'sin', 'tan') and len(n.args) == 2:
        x, sg = n.args[1], 1
        while isinstance(x, Node) and x.op == 'neg':
            x, sg = x.args[0], -sg
        if (isinstance(x, Node) and x.op == 'call' and x.args[0] == 'atan2'
                and name != 'tan'):
            b, a = x.args[1], x.args[2]
            r = power(add(mul(a, a), mul(b, b)), const(Fraction(1, 2)))
            if name == 'cos':
                return nf(div(a, r))
            return nf(div(b if sg > 0 else neg(b), r))
        a = nf(x)
        if not a[0]:
            return (p_const(1) if name == 'cos' else {}), p_const(1)
        if p_lead(a[0]) < 0:
            a = ({m: -c for m, c in a[0].items()}, a[1])
            sg = -sg
        key = (p_key(a[0]), p_key(a[1]))
        k = mk('call*', name, *key)
        _ATOM.setdefault(k.id, k)
        if name != 'tan':
            ks, kc = mk('call*', 'sin', *key), mk('call*', 'cos', *key)
            _SINCOS[ks.id] = kc.id
            _ATOM.setdefault(ks.id, ks)
            _ATOM.setdefault(kc.id, kc)
        p = {((k.id, 1),): Fraction(1)}
        if sg < 0 and name != 'cos':
            p = {m: -c for m, c in p.items()}
        return p, p_const(1)
    args = []
    plain = True
    for x in n.args[1:]:
        if isinstance(x, Node) and x.op in ('add', 'mul', 'div', 'neg',
                                            'pow', 'abs', 'call'):
            a = nf(x)
            args.append((p_key(a[0]), p_key(a[1])))
            plain = False
        elif isinstance(x, Node) and x.op in ('sym', 'const'):
            a = nf(x)
            args.append((p_key(a[0]), p_key(a[1])))
        else:
            args.append(x)
    if plain:
        return atom(n), p_const(1)
    k = mk('call*', name, *args)
    _ATOM.setdefault(k.id, n)
    _CANON.setdefault(k.id, n)
    r = _CANON[k.id]
    return atom(r), p_const(1)


_CANON: dict = {}


def _even_atom(n, a):
    num, den = a
    if num and p_lead(num) < 0:
        num = {m: -c for m, c in num.items()}
    k = mk('abs*', p_key(num), p_key(den))
    _ABSOF.setdefault(k.id, (num, den))
    return atom(k), p_const(1)


_ABSOF: dict = {}
_POWOF: dict = {}


def _nf_pow(base, ex):
    # power of a power / of a square root: merge exponents (base >= 0)
    if base.op == 'pow':
        return _nf_pow(base.args[0], mul(base.args[1], ex))
    b = nf(base)
    e = nf(ex)
    if not b[0]:
        return {}, p_const(1)
    if b == (p_const(1), p_const(1)):
        return b
    if e[1] == p_const(1):
        c = e[0].get((), Fraction(0))
        rest = {m: v for m, v in e[0].items() if m != ()}
        ip = c.numerator // c.denominator
        fp = c - ip
        if abs(ip) <= 12:
            if ip >= 0:
                num, den = p_pow(b[0], ip), p_pow(b[1], ip)
            else:
                num, den = p_pow(b[1], -ip), p_pow(b[0], -ip)
            if fp or rest:
                rest = dict(rest)
                if fp:
                    rest[()] = fp
                # single-monomial base: distribute over the atoms
                k = mk('pow*', p_key(b[0]), p_key(b[1]), p_key(rest))
                _POWOF.setdefault(k.id, (b, rest))
                num = p_mul(num, atom(k))
            return num, den
    if b == (p_const(1), p_const(1)):
        return p_const(1), p_const(1)
    # b**(c + r) = b**c * b**r with the integer part c taken off
    lm = max(e[1], key=_mkey)
    c = e[0].get(lm, Fraction(0)) / e[1][lm]
    ip = c.numerator // c.denominator
    if e[1] != p_const(1) and ip and abs(ip) <= 12:
        e = _reduce(p_add(e[0], e[1], -ip), e[1])
        num, den = (b if ip > 0 else (b[1], b[0]))
        num, den = p_pow(num, abs(ip)), p_pow(den, abs(ip))
        k = mk('powx*', p_key(b[0]), p_key(b[1]), p_key(e[0]), p_key(e[1]))
        _POWOF.setdefault(k.id, (b, None))
        return p_mul(num, atom(k)), den
    k = mk('powx*', p_key(b[0]), p_key(b[1]), p_key(e[0]), p_key(e[1]))
    _POWOF.setdefault(k.id, (b, None))
    return atom(k), p_const(1)


def nf_equal(a, b):
    na, nb = nf(a), nf(b)
    if na == nb:
        return True
    try:
        if p_mul(na[0], nb[1]) == p_mul(nb[0], na[1]):
            return True
        if _SINCOS or _POWOF:
            d = p_add(p_mul(na[0], nb[1]), p_mul(nb[0], na[1]), -1)
            return not _roots(d, p_const(1))[0]
        return False
    except TooBig:
        return False


def nf_zero(a):
    return not nf(a)[0]


# ---------------------------------------------------------------- derivative
def diff(n, x):
    """Symbolic derivative of a term with respect to symbol node x."""
    if n is x:
        return ONE
    if x.args[0] not in _deps(n):
        return ZERO
    op = n.op
    if op == 'add':
        return add(diff(n.args[0], x), diff(n.args[1], x))
    if op == 'neg':
        return neg(diff(n.args[0], x))
    if op == 'mul':
        a, b = n.args
        return add(mul(diff(a, x), b), mul(a, diff(b, x)))
    if op == 'div':
        a, b = n.args
        return div(sub(mul(diff(a, x), b), mul(a, diff(b, x))), mul(b, b))
    if op == 'pow':
        a, b = n.args
        if x.args[0] in _deps(b):
            return None
        return mul(mul(b, power(a, sub(b, ONE))), diff(a, x))
    if op == 'call' and n.args[0] == 'exp':
        return mul(n, diff(n.args[1], x))
    raise ValueError(f'no derivative for {op}')


# ---------------------------------------------------------------- substitution
def subst(v, mapping, memo=None):
    """Replace nodes by nodes (rebuilds arithmetic)."""
    if memo is None:
        memo = {}
    if isinstance(v, tuple):
        return tuple(subst(a, mapping, memo) for a in v)
    if not isinstance(v, Node):
        return v
    if v in mapping:
        return mapping[v]
    if v.id in memo:
        return memo[v.id]
    args = [subst(a, mapping, memo) for a in v.args]
    r = rebuild(v.op, args)
    memo[v.id] = r
    return r


def rebuild(op, args):
    f = {
        'add': add, 'mul': mul, 'div': div, 'pow': power, 'neg': neg,
        'abs': fabs, 'not': not_, 'and': and_, 'or': or_, 'ite': ite,
    }.get(op)
    if f is not None:
        return f(*args)
    if op == 'cmp':
        return cmp_(*args)
    if op == 'const':
        return const(args[0])
    return mk(op, *args)


# ---------------------------------------------------------------- intervals
class Iv:
    """Interval with open/closed ends over the extended reals."""

    __slots__ = ('lo', 'hi', 'lo_open', 'hi_open')

    def __init__(self, lo=-INF, hi=INF, lo_open=False, hi_open=False):
        self.lo, self.hi = lo, hi
        self.lo_open = lo_open or lo == -INF
        self.hi_open = hi_open or hi == INF

    def __repr__(self):
        return (('(' if self.lo_open else '[') + f'{_f(self.lo)}, {_f(self.hi)}'
                + (')' if self.hi_open else ']'))

    def __eq__(self, o):
        return (self.lo, self.hi, self.lo_open, self.hi_open) == (
            o.lo, o.hi, o.lo_open, o.hi_open)

    def empty(self):
        return self.lo > self.hi or (
            self.lo == self.hi and (self.lo_open or self.hi_open))

    def mask(self):
        """Possible signs: 1 negative, 2 zero, 4 positive."""
        m = 0
        if self.lo < 0:
            m |= 1
        if self.hi > 0:
            m |= 4
        if ((self.lo < 0 or (self.lo == 0 and not self.lo_open))
                and (self.hi > 0 or (self.hi == 0 and not self.hi_open))):
            m |= 2
        return m

    def meet(self, o):
        if o.lo > self.lo or (o.lo == self.lo and o.lo_open):
            lo, lop = o.lo, o.lo_open
        else:
            lo, lop = self.lo, self.lo_open
        if o.hi < self.hi or (o.hi == self.hi and o.hi_open):
            hi, hop = o.hi, o.hi_open
        else:
            hi, hop = self.hi, self.hi_open
        return Iv(lo, hi, lop, hop)

    def join(self, o):
        if o.lo < self.lo or (o.lo == self.lo and not o.lo_open):
            lo, lop = o.lo, o.lo_open
        else:
            lo, lop = self.lo, self.lo_open
        if o.hi > self.hi or (o.hi == self.hi and not o.hi_open):
            hi, hop = o.hi, o.hi_open
        else:
            hi, hop = self.hi, self.hi_open
        return Iv(lo, hi, lop, hop)

    def neg(self):
        return Iv(-self.hi, -self.lo, self.hi_open, self.lo_open)

    def add(self, o):
        return Iv(_plus(self.lo, o.lo, -INF), _plus(self.hi, o.hi, INF),
                  self.lo_open or o.lo_open, self.hi_open or o.hi_open)

    def mul(self, o):
        c = []
        for a, ao in ((self.lo, self.lo_open), (self.hi, self.hi_open)):
            for b, bo in ((o.lo, o.lo_open), (o.hi, o.hi_open)):
                if a == 0 or b == 0:
                    # 0 attained if the zero end is closed
                    z_open = (ao if a == 0 else True) and (bo if b == 0 else True)
                    c.append((Fraction(0), z_open))
                else:
                    c.append((_times(a, b), ao or bo))
        lo = min(x for x, _ in c)
        hi = max(x for x, _ in c)
        return Iv(lo, hi, all(op for x, op in c if x == lo),
                  all(op for x, op in c if x == hi))

    def inv(self):
        m = self.mask()
        if m == 4:
            return Iv(Fraction(0) if self.hi == INF else 1 / _fr(self.hi),
                      INF if self.lo == 0 else 1 / _fr(self.lo),
                      self.hi_open, self.lo_open)
        if m == 1:
            return self.neg().inv().neg()
        if m == 6:
            return Iv(Fraction(0) if self.hi == INF else 1 / _fr(self.hi),
                      INF, self.hi_open, True)
        if m == 3:
            return self.neg().inv().neg()
        return Iv()

    def powi(self, n):
        if n == 0:
            return Iv(Fraction(1), Fraction(1))
        if n < 0:
            return self.powi(-n).inv()
        if n % 2:
            return Iv(_pw(self.lo, n), _pw(self.hi, n),
                      self.lo_open, self.hi_open)
        a, ao = abs(self.lo), self.lo_open
        b, bo = abs(self.hi), self.hi_open
        if a > b or (a == b and bo):
            a, ao, b, bo = b, bo, a, ao
        if self.mask() & 2 or self.mask() == 5:
            return Iv(Fraction(0), _pw(b, n), False, bo)
        return Iv(_pw(a, n), _pw(b, n), ao, bo)


def _pw(x, n):
    return x if x in (INF, -INF) else x ** n


def _fr(x):
    return Fraction(x) if x not in (INF, -INF) else x


def _plus(a, b, d):
    if a in (INF, -INF) or b in (INF, -INF):
        if a in (INF, -INF) and b in (INF, -INF) and a != b:
            return d
        return a if a in (INF, -INF) else b
    return a + b


def _times(a, b):
    if a in (INF, -INF) or b in (INF, -INF):
        return INF if (a > 0) == (b > 0) else -INF
    return a * b


def _f(x):
    return str(x) if isinstance(x, float) else str(float(x))


TOP = Iv()
POS = Iv(Fraction(0), INF, True)
NONNEG = Iv(Fraction(0), INF)
NEG = Iv(-INF, Fraction(0), False, True)
UNIT = Iv(Fraction(-1), Fraction(1))


# ---------------------------------------------------------------- facts
_COND: dict = {}


def open_conds(v, facts, out=None):
    """Undecided conditions of the conditionals in a term."""
    out = [] if out is None else out
    for x in walk(v):
        if x.op == 'ite' and isinstance(x.args[0], Node):
            c = x.args[0]
            if c not in out and facts.decide(c) is None:
                out.append(c)
        elif x.op == 'abs':
            c = lt(x.args[0], ZERO)
            if isinstance(c, Node) and c not in out \
                    and facts.decide(c) is None:
                out.append(c)
    return out


def subst_known(v, facts):
    return facts.simplify(v)


def prove(facts, goal, depth=6):
    """Does the goal (a condition) hold in every case of the facts?"""
    if facts.bad:
        return True
    d = facts.decide(goal)
    if d is not None or depth == 0:
        return d is True
    if facts.alts:
        for a in facts.alts:
            f = a.copy()
            for i, t in facts.bools.items():
                if i not in f.bools and i in _COND:
                    f.assume(_COND[i], t)
            if f.bad or not f.refresh():
                continue
            if not prove(f, subst_known(goal, f), depth):
                return False
        return True
    cs = open_conds(goal, facts)
    if not cs:
        for i in list(facts.bools):
            c = _COND.get(i)
            if c is not None and _has_cond(c):
                cs = open_conds(c, facts)
                if cs:
                    break
    if not cs:
        return False
    c = min(cs, key=lambda n: n.id)
    for t in (True, False):
        f = facts.copy()
        if not f.assume(c, t) or not f.refresh() or not f.refresh():
            continue
        if not prove(f, goal, depth - 1):
            return False
    return True


class Facts:
    """Sign/interval/boolean facts: the ordering abstract domain."""

    def __init__(self):
        self.rng: dict = {}      # node id -> Iv   (atoms)
        self.poly: dict = {}     # canonical polynomial key -> sign mask
        self.polys: dict = {}    # key -> poly
        self.bools: dict = {}    # node id -> bool
        self.bad = False
        self.alts = None         # cases after a loop: one of them holds

    def copy(self):
        f = Facts()
        f.alts = self.alts
        f.rng = dict(self.rng)
        f.poly = dict(self.poly)
        f.polys = dict(self.polys)
        f.bools = dict(self.bools)
        f.bad = self.bad
        return f

    def meet_only(self, o):
        """Facts holding in both (join of two branch states)."""
        f = Facts()
        if self.alts is o.alts:
            f.alts = self.alts
        for k, v in self.rng.items():
            if k in o.rng:
                f.rng[k] = v.join(o.rng[k])
        for k, v in self.poly.items():
            if k in o.poly:
                f.poly[k] = v | o.poly[k]
                f.polys[k] = self.polys[k]
        for k, v in self.bools.items():
            if o.bools.get(k) == v:
                f.bools[k] = v
        f.bad = self.bad and o.bad
        return f

    # ----------------------------------------------------------- intervals
    def set_range(self, n, iv):
        self.rng[n.id] = iv

    def atom_iv(self, aid):
        n = _ATOM.get(aid)
        iv = self._atom_iv(n)
        if aid in self.rng:
            iv = iv.meet(self.rng[aid])
        return iv

    def _atom_iv(self, n):
        op = n.op
        if op == 'abs*':
            num, den = _ABSOF[n.id]
            s = self.sign_p(num) if len(den) == 1 and den == p_const(1) else 7
            return NONNEG if s & 2 else POS
        if op in ('pow*', 'powx*'):
            b, rest = _POWOF[n.id]
            iv = self.poly_iv(b[0])
            if b[1] != p_const(1):
                iv = iv.mul(self.poly_iv(b[1]).inv())
            if rest is not None and list(rest) == [()]:
                e = rest[()]
                lo = 0 if iv.lo <= 0 else iv.lo
                if lo == INF:
                    return POS
                try:
                    flo = _froot(lo, e)
                    fhi = INF if iv.hi == INF else _froot(max(iv.hi, 0), e)
                    return Iv(flo, fhi, iv.lo_open if iv.lo >= 0 else False,
                              iv.hi_open)
                except OverflowError:
                    return NONNEG
            return POS if iv.mask() == 4 else NONNEG
        return self.iv(n, atom=True)

    def iv(self, n, atom=False):
        """Interval of a node."""
        if not isinstance(n, Node):
            if isinstance(n, (bool, int, float)):
                c = const(n)
                return self.iv(c)
            return TOP
        memo = self.memo
        if memo is None:
            if n.op in ('const', 'sym', 'unk'):
                r = self._iv(n)
            else:
                self.memo = {}
                try:
                    r = self._iv(n)
                finally:
                    self.memo = None
        else:
            r = memo.get(n.id)
            if r is None:
                r = memo[n.id] = self._iv(n)
        own = self.rng.get(n.id)
        return r if own is None else r.meet(own)

    def _iv(self, n):
        op = n.op
        a = n.args
        if op == 'const':
            v = a[0]
            if isinstance(v, float) and math.isnan(v):
                return TOP
            return Iv(v, v) if isinstance(v, Fraction) else Iv(v, v)
        if op == 'sym' or op == 'unk':
            return TOP
        if op == 'add':
            r = self.iv(a[0]).add(self.iv(a[1]))
            return self._refine(n, r)
        if op == 'neg':
            return self.iv(a[0]).neg()
        if op == 'mul':
            if a[0] is a[1]:
                return self.iv(a[0]).powi(2)
            return self.iv(a[0]).mul(self.iv(a[1]))
        if op == 'div':
            return self.iv(a[0]).mul(self.iv(a[1]).inv())
        if op == 'pow':
            b = self.iv(a[0])
            if finite(a[1]):
                e = cval(a[1])
                if e.denominator == 1 and abs(e) <= 64:
                    return b.powi(int(e))
                lo = max(b.lo, 0)
                try:
                    f = Iv(_froot(lo, abs(e)) if lo != INF else INF,
                           INF if b.hi == INF else _froot(max(b.hi, 0), abs(e)),
                           b.lo_open and b.lo >= 0, b.hi_open)
                except OverflowError:
                    return NONNEG
                return f if e > 0 else f.inv()
            return POS if b.mask() == 4 else (NONNEG if b.mask() == 6 else TOP)
        if op == 'abs':
            b = self.iv(a[0])
            m = b.mask()
            if m & 1 == 0:
                return b
            if m & 4 == 0:
                return b.neg()
            hi = max(abs(b.lo), abs(b.hi))
            return Iv(Fraction(0), hi, not (m & 2),
                      b.lo_open if abs(b.lo) == hi else b.hi_open)
        if op == 'ite':
            c = self.decide(a[0])
            if c is True:
                return self.iv(a[1])
            if c is False:
                return self.iv(a[2])
            return self.iv(a[1]).join(self.iv(a[2]))
        if op == 'min':
            ivs = [self.iv(x) for x in a]
            r = ivs[0]
            for o in ivs[1:]:
                lo, lop = min((r.lo, r.lo_open), (o.lo, o.lo_open))
                if r.hi < o.hi or (r.hi == o.hi and r.hi_open):
                    hi, hop = r.hi, r.hi_open
                else:
                    hi, hop = o.hi, o.hi_open
                r = Iv(lo, hi, lop, hop)
            return r
        if op == 'max':
            r = self._iv(mk('min', *[neg(x) for x in a]))
            return r.neg()
        if op == 'call':
            f = a[0]
            if f == 'exp':
                b = self.iv(a[1])
                m = b.mask()
                if m & 4 == 0:
                    return Iv(Fraction(0), Fraction(1), True,
                              not m & 2)
                if m & 1 == 0:
                    return Iv(Fraction(1), INF, not m & 2)
                return POS
            if f in ('sin', 'cos'):
                return UNIT
            if f == 'len':
                return NONNEG
        return TOP

    depth = 0
    memo = None       # intervals found during one query

    def _refine(self, n, r):
        if self.depth > 6:
            return r
        try:
            num, den = nf(n)
        except TooBig:
            return r
        if len(num) <= 60:
            self.depth += 1
            try:
                m = self._sign_nf(num, den, quick=True)
            finally:
                self.depth -= 1
            if m & 1 == 0:
                r = r.meet(NONNEG if m & 2 else POS)
            if m & 4 == 0:
                r = r.meet(Iv(-INF, Fraction(0), False, not m & 2))
        return r

    def poly_iv(self, p):
        r = Iv(Fraction(0), Fraction(0))
        for m, c in p.items():
            t = Iv(c, c)
            for a, e in m:
                t = t.mul(self.atom_iv(a).powi(e))
            r = r.add(t)
        return r

    # ----------------------------------------------------------- signs
    def sign(self, n):
        """Sign mask of a numeric node (1 neg, 2 zero, 4 pos)."""
        if is_const(n):
            v = cval(n)
            return 4 if v > 0 else (1 if v < 0 else 2)
        try:
            num, den = nf(n)
        except TooBig:
            return self.iv(n).mask()
        return self._sign_nf(num, den) & (self.iv(n).mask() or 7)

    def _sign_nf(self, num, den, quick=False):
        s = self.sign_p(num, quick)
        if den != p_const(1):
            d = self.sign_p(den, quick)
            d &= 5
            s = smul(s, d)
        return s

    def sign_p(self, p, quick=False):
        if not p:
            return 2
        g = m_gcd(p)
        s = 4
        if g:
            for a, e in g:
                sa = self.atom_iv(a).mask()
                if e % 2 == 0:
                    sa = (2 if sa & 2 else 0) | (4 if sa & 5 else 0)
                if e < 0:
                    sa &= 5
                s = smul(s, sa)
            p = p_scale(p, m_inv(g))
        if list(p) == [()]:
            return smul(s, 4 if p[()] > 0 else 1)
        return smul(s, self._sign_prim(p, quick))

    def _sign_prim(self, p, quick):
        c = p_lead(p)
        k = {m: v / abs(c) for m, v in p.items()}
        flip = c < 0
        if flip:
            k = {m: -v for m, v in k.items()}
        key = p_key(k)
        r = 7
        if key in self.poly:
            r = self.poly[key]
        r &= self.poly_iv(k).mask()
        if r not in (1, 2, 4) and len(k) <= 12:
            # k = f*t + rest with a known-sign fact f and rest of known sign
            for fk, fm in self.poly.items():
                f = self.polys[fk]
                if len(f) > 4 or fm == 7:
                    continue
                for sgn in (1, -1):
                    rest = p_add(k, f, -sgn)
                    if len(rest) >= len(k):
                        continue
                    rm = self.poly_iv(rest).mask() if rest else 2
                    if rest:
                        rc = p_lead(rest)
                        rk = {m: v / rc for m, v in rest.items()}
                        hit = self.poly.get(p_key(rk))
                        if hit is not None:
                            rm &= hit if rc > 0 else sflip(hit)
                    r &= ssum(fm if sgn > 0 else sflip(fm), rm)
                if r in (1, 2, 4):
                    break
        return sflip(r) if flip else r

    # ----------------------------------------------------------- decisions
    def decide(self, c):
        """Truth of a condition under the facts: True, False or None."""
        if isinstance(c, bool):
            return c
        if c.id in self.bools:
            return self.bools[c.id]
        op = c.op
        if op == 'not':
            r = self.decide(c.args[0])
            return None if r is None else not r
        if op == 'and':
            a, b = self.decide(c.args[0]), self.decide(c.args[1])
            if a is False or b is False:
                return False
            return True if a and b else None
        if op == 'or':
            a, b = self.decide(c.args[0]), self.decide(c.args[1])
            if a is True or b is True:
                return True
            return False if a is False and b is False else None
        if op == 'cmp':
            o, a, b = c.args
            s = self.sign_diff(a, b)
            if s == 0:
                return None
            if o == 'lt':
                return True if s == 1 else (None if s & 1 else False)
            if o == 'le':
                return True if not s & 4 else (False if s == 4 else None)
            if o == 'eq':
                return True if s == 2 else (None if s & 2 else False)
        if op == 'ite':
            a = self.decide(c.args[0])
            if a is True:
                return self.decide(c.args[1])
            if a is False:
                return self.decide(c.args[2])
            x, y = self.decide(c.args[1]), self.decide(c.args[2])
            return x if x == y else None
        return None

    def sign_diff(self, a, b):
        if is_const(b) and not isinstance(cval(b), Fraction):
            ia = self.iv(a)
            if cval(b) == INF:
                return 1 if ia.hi < INF or ia.hi_open else 3
            if cval(b) == -INF:
                return 4 if ia.lo > -INF or ia.lo_open else 6
            return 7
        if is_const(a) and not isinstance(cval(a), Fraction):
            return sflip(self.sign_diff(b, a))
        a2, b2 = self.simplify(a), self.simplify(b)
        s = self.iv(a2).add(self.iv(b2).neg()).mask()
        s2 = self.sign(sub(a2, b2))
        return s & s2

    def simplify(self, n):
        """Resolve decided conditionals, abs, min and max inside a term."""
        if not isinstance(n, Node):
            return n
        if not _has_cond(n):
            return n
        return self._simp(n, {})

    def _simp(self, v, memo):
        if isinstance(v, tuple):
            return tuple(self._simp(x, memo) for x in v)
        if not isinstance(v, Node) or not _has_cond(v):
            return v
        if v.id in memo:
            return memo[v.id]
        if v.op == 'ite':
            c = self.decide(v.args[0])
            if c is True:
                r = self._simp(v.args[1], memo)
            elif c is False:
                r = self._simp(v.args[2], memo)
            else:
                r = ite(self._simp(v.args[0], memo),
                        self._simp(v.args[1], memo),
                        self._simp(v.args[2], memo))
        elif v.op == 'abs':
            a = self._simp(v.args[0], memo)
            r = self.mk_abs(a)
        elif v.op in ('min', 'max'):
            r = self.mk_minmax(v.op, [self._simp(a, memo) for a in v.args])
        else:
            r = rebuild(v.op, [self._simp(a, memo) for a in v.args])
        memo[v.id] = r
        return r

    def mk_abs(self, a):
        if is_const(a):
            return fabs(a)
        m = self.sign(a)
        if not m & 1:
            return a
        if not m & 4:
            return neg(a)
        return fabs(a)

    def mk_minmax(self, op, xs):
        out = []
        for x in xs:
            keep = True
            for i, y in enumerate(out):
                s = self.sign_diff(x, y)
                if op == 'max':
                    s = sflip(s)
                if not s & 4:      # x <= y (min): y redundant
                    out[i] = None
                elif not s & 1:    # x >= y: x redundant
                    keep = False
            out = [y for y in out if y is not None]
            if keep:
                out.append(x)
        if len(out) == 1:
            return out[0]
        return mk(op, *sorted(set(out), key=lambda n: n.id))

    def assume(self, c, truth=True):
        """Add a condition; returns False when it contradicts the facts."""
        if isinstance(c, bool):
            if c != truth:
                self.bad = True
            return not self.bad
        d = self.decide(c)
        if d is not None and d != truth:
            self.bad = True
            return False
        self.bools[c.id] = truth
        _COND[c.id] = c
        op = c.op
        if op == 'not':
            return self.assume(c.args[0], not truth)
        if op == 'and':
            if truth:
                return self.assume(c.args[0]) and self.assume(c.args[1])
            for i, j in ((0, 1), (1, 0)):
                if self.decide(c.args[i]) is True:
                    return self.assume(c.args[j], False)
            return True
        if op == 'or':
            if not truth:
                return (self.assume(c.args[0], False)
                        and self.assume(c.args[1], False))
            for i, j in ((0, 1), (1, 0)):
                if self.decide(c.args[i]) is False:
                    return self.assume(c.args[j], True)
            return True
        if op == 'cmp':
            o, a, b = c.args
            m = {'lt': 1, 'le': 3, 'eq': 2}[o]
            if not truth:
                m = 7 & ~m
            return self.assume_sign(sub(self.simplify(a), self.simplify(b)), m)
        return True

    def assume_sign(self, d, m):
        """Assume the sign mask of a numeric node."""
        if is_const(d):
            if not (self.sign(d) & m):
                self.bad = True
            return not self.bad
        try:
            num, den = nf(d)
        except TooBig:
            return True
        if not num:
            if not m & 2:
                self.bad = True
            return not self.bad
        if den != p_const(1):
            ds = self.sign_p(den) & 5
            if ds == 1:
                m = sflip(m)
            elif ds == 5:
                return True
        g = m_gcd(num)
        if g:
            s = 4
            for a, e in g:
                sa = self.atom_iv(a).mask()
                if e % 2 == 0:
                    sa = (2 if sa & 2 else 0) | (4 if sa & 5 else 0)
                s = smul(s, sa)
            rest = p_scale(num, m_inv(g))
            if list(rest) == [()]:
                # plain monomial
                if len(g) == 1 and g[0][1] == 1:
                    c = rest[()]
                    self._bound_atom(g[0][0], m if c > 0 else sflip(m),
                                     Fraction(0))
                elif len(g) > 1:
                    self._monomial(g, m if rest[()] > 0 else sflip(m))
                return not self.bad
            if s == 4:
                num = rest
            elif s == 1:
                num, m = rest, sflip(m)
            else:
                return True
        c = p_lead(num)
        k = {x: v / abs(c) for x, v in num.items()}
        if c < 0:
            k = {x: -v for x, v in k.items()}
            m = sflip(m)
        key = p_key(k)
        cur = self.poly.get(key, 7)
        m &= cur
        if m == 0:
            self.bad = True
            return False
        self.poly[key] = m
        self.polys[key] = k
        # single atom linear: refine the interval
        mons = [x for x in k if x != ()]
        if len(mons) == 1 and len(mons[0]) == 1 and mons[0][0][1] == 1:
            bound = -k.get((), Fraction(0)) / k[mons[0]]
            mm = m if k[mons[0]] > 0 else sflip(m)
            self._bound_atom(mons[0][0][0], mm, bound)
        elif all(len(x) == 1 and x[0][1] == 1 for x in mons) and len(mons) <= 4:
            # linear in several atoms: bound each by the others
            for x in mons:
                rest = {y: v for y, v in k.items() if y != x}
                riv = self.poly_iv(rest)
                a = x[0][0]
                cx = k[x]
                # cx*a + rest  (sign m)  =>  a (m') -rest/cx
                biv = riv.neg().mul(Iv(1 / cx, 1 / cx))
                mm = m if cx > 0 else sflip(m)
                if not mm & 4 and biv.hi < INF:
                    self._meet(a, Iv(-INF, biv.hi, False,
                                     biv.hi_open or not mm & 2))
                if not mm & 1 and biv.lo > -INF:
                    self._meet(a, Iv(biv.lo, INF, biv.lo_open or not mm & 2))
        return not self.bad

    def _monomial(self, g, m):
        """Sign of the only factor of unknown sign from that of the product.
        """
        s, free = 4, None
        for a, e in g:
            sa = self.atom_iv(a).mask()
            if e % 2 == 0:
                sa = (2 if sa & 2 else 0) | (4 if sa & 5 else 0)
                if sa == 6 and not m & 2:
                    sa = 4
            if not m & 2:
                sa &= 5
            if sa in (1, 4):
                s = smul(s, sa)
            elif free is None and e % 2:
                free = a
            else:
                return
        if free is None:
            if not s & m:
                self.bad = True
            return
        self._bound_atom(free, m if s == 4 else sflip(m), Fraction(0))

    def refresh(self):
        """Use conditions again whose parts have been decided meanwhile."""
        for i, t in list(self.bools.items()):
            c = _COND.get(i)
            if c is None or self.bad:
                continue
            if c.op == 'cmp':
                if not _has_cond(c):
                    # products may have become decidable
                    if c.args[2] is not ZERO and c.args[1] is not ZERO:
                        continue
                o, a, b = c.args
                m = {'lt': 1, 'le': 3, 'eq': 2}[o]
                self.assume_sign(sub(self.simplify(a), self.simplify(b)),
                                 m if t else 7 & ~m)
            elif c.op in ('and', 'or', 'not'):
                del self.bools[i]
                self.assume(c, t)
        return not self.bad

    def _meet(self, aid, iv):
        r = self.atom_iv(aid).meet(iv)
        if r.empty():
            self.bad = True
        self.rng[aid] = r

    def _bound_atom(self, aid, m, b):
        if m == 1:
            self._meet(aid, Iv(-INF, b, False, True))
        elif m == 3:
            self._meet(aid, Iv(-INF, b))
        elif m == 4:
            self._meet(aid, Iv(b, INF, True))
        elif m == 6:
            self._meet(aid, Iv(b, INF))
        elif m == 2:
            self._meet(aid, Iv(b, b))
        elif m == 5:
            iv = self.atom_iv(aid)
            if iv.lo == b:
                self._meet(aid, Iv(b, INF, True))
            elif iv.hi == b:
                self._meet(aid, Iv(-INF, b, False, True))


def _froot(x, e):
    """x**e for e>0, exact for 0 and 1, rounded otherwise."""
    if x == 0:
        return Fraction(0)
    if x == 1:
        return Fraction(1)
    return Fraction(float(x) ** float(e))


_HC: dict = {}


def _has_cond(v):
    if isinstance(v, tuple):
        return any(_has_cond(x) for x in v)
    if not isinstance(v, Node):
        return False
    r = _HC.get(v.id)
    if r is None:
        r = v.op in ('ite', 'abs', 'min', 'max') or any(
            _has_cond(a) for a in v.args)
        _HC[v.id] = r
    return r


def smul(a, b):
    r = 0
    if (a & 2) or (b & 2):
        r |= 2
    if (a & 4 and b & 4) or (a & 1 and b & 1):
        r |= 4
    if (a & 4 and b & 1) or (a & 1 and b & 4):
        r |= 1
    return r


def sflip(m):
    return (m & 2) | (4 if m & 1 else 0) | (1 if m & 4 else 0)


def ssum(a, b):
    """Possible signs of x+y given sign masks."""
    r = 0
    for x in (1, 2, 4):
        if not a & x:
            continue
        for y in (1, 2, 4):
            if not b & y:
                continue
            if x == 2:
                r |= y
            elif y == 2 or x == y:
                r |= x
            else:
                r |= 7
    return r


def equal(a, b, facts, depth=0):
    """Are two values equal on every valuation allowed by the facts?

    Returns True when the normal forms agree (after splitting on undecided
    conditionals), False otherwise.
    """
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(
            equal(x, y, facts, depth) for x, y in zip(a, b))
    if not isinstance(a, Node) and not isinstance(b, Node):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return type(a) is type(b) and a == b
    if not isinstance(a, Node):
        a = const(a) if isinstance(a, (bool, int, float)) else None
    if not isinstance(b, Node):
        b = const(b) if isinstance(b, (bool, int, float)) else None
    if a is None or b is None:
        return False
    a, b = facts.simplify(a), facts.simplify(b)
    if a is b:
        return True
    c = _first_cond(a)
    if c is None:
        c = _first_cond(b)
    if c is None or depth > 24:
        if nf_equal(a, b):
            return True
        m = pinned(facts, (a, b))
        if m and nf_equal(subst(a, m), subst(b, m)):
            return True
        if size(a) + size(b) < 400 and facts.sign(sub(a, b)) == 2:
            return True
        if _same_shape(a, b, facts, depth):
            return True
        x = _merge_minmax(a, b, facts, depth)
        if x is not None:
            return equal(x[0], x[1], facts, depth)
        return _split_minmax(a, b, facts, depth)
    if depth == 0:
        x = _merge_minmax(a, b, facts, depth)
        if x is not None and equal(x[0], x[1], facts, 1):
            return True
    alias = _aliases(c, (a, b)) if depth < 5 else []
    for t in (True, False):
        f = facts.copy()
        if not f.assume(c, t) or f.bad:
            continue
        x, y = _force(a, c, t), _force(b, c, t)
        for e in alias:
            x, y = _force(x, e, t), _force(y, e, t)
        if not equal(x, y, f, depth + 1):
            return False
    return True


def _merge_minmax(a, b, facts, depth):
    """Replace the least/largest values of a and b by shared symbols.

    Both terms with equal ones replaced, or None when nothing was gained.
    """
    ms = sorted({x.id: x for x in walk((a, b))
                 if x.op in ('min', 'max')}.values(), key=size)
    if not ms or depth > 6 or len(ms) > 24:
        return None
    reps, mp, gain = [], {}, False
    for m in ms:
        q = subst(m, mp)
        if not isinstance(q, Node) or q.op != m.op:
            mp[m] = q
            continue
        for r, s in reps:
            if r is q or (r.op == q.op and len(r.args) == len(q.args) and
                          _same_args(r, q, facts)):
                mp[m] = s
                gain = gain or r is not q
                break
        else:
            s = sym(f'{m.op}#{m.id}')
            reps.append((q, s))
            mp[m] = s
    if not gain:
        return None
    memo: dict = {}
    return subst(a, mp, memo), subst(b, mp, memo)


def _same_args(p, q, facts):
    rest = list(q.args)
    for x in p.args:
        y = next((y for y in rest if x is y or nf_equal(x, y)), None)
        if y is None:
            return False
        rest.remove(y)
    return True


def _split_minmax(a, b, facts, depth):
    """Compare for each argument that may be the least (largest) one."""
    ms = [x for x in walk((a, b)) if x.op in ('min', 'max')]
    if not ms or depth > 14 or len(ms) > 14:
        return False
    m = next((x for x in ms if not any(
        y is not x and y.op in ('min', 'max') for y in walk(x))), ms[0])
    if len(m.args) > 4:
        return False
    for i, x in enumerate(m.args):
        f = facts.copy()
        ok = True
        for j, y in enumerate(m.args):
            if i != j:
                c = le(x, y) if m.op == 'min' else le(y, x)
                if isinstance(c, bool):
                    ok = ok and c
                elif not f.assume(c, True) or f.bad:
                    ok = False
        if not ok:
            continue
        if not equal(subst(a, {m: x}), subst(b, {m: x}), f, depth + 1):
            return False
    return True


def pinned(facts, v):
    """Symbols of v with only one value left."""
    m = {}
    for x in walk(v):
        if x.op == 'sym':
            r = facts.iv(x, True)
            if r.lo == r.hi and not (r.lo_open or r.hi_open):
                m[x] = const(r.lo)
    return m


def _same_shape(a, b, facts, depth):
    """Uninterpreted applications with pairwise equal arguments."""
    if depth > 30 or a.op != b.op or len(a.args) != len(b.args):
        return False
    if a.op == 'cmp' and a.args[0] == b.args[0] and depth < 12:
        return equal(sub(a.args[1], a.args[2]), sub(b.args[1], b.args[2]),
                     facts, depth + 1)
    if a.op in ('not', 'and', 'or'):
        return all(equal(x, y, facts, depth + 1)
                   for x, y in zip(a.args, b.args))
    if a.op in ('call', 'item', 'attr', 'fn', 'neg', 'mul', 'add', 'div',
                'pow', 'abs'):
        return all(
            (x == y) if not isinstance(x, (Node, tuple)) else
            equal(x, y, facts, depth + 1)
            for x, y in zip(a.args, b.args))
    return False


def _aliases(c, terms):
    """Other comparisons of the same two values."""
    if c.op != 'cmp':
        return []
    out, d = [], None
    for x in walk(terms):
        if x.op != 'ite':
            continue
        e = x.args[0]
        if e is c or e in out or not isinstance(e, Node) or e.op != 'cmp' or (
                e.args[0] != c.args[0]):
            continue
        if not all(isinstance(y, Node) for y in e.args[1:] + c.args[1:]):
            continue
        if size(e) < 30:
            continue        # short ones are decided by the facts
        d = d if d is not None else sub(c.args[1], c.args[2])
        if nf_equal(d, sub(e.args[1], e.args[2])):
            out.append(e)
    return out


def _first_cond(n):
    for x in walk(n):
        if x.op == 'ite':
            return x.args[0]
    return None


def _force(n, c, t, memo=None):
    if memo is None:
        memo = {}
    if isinstance(n, tuple):
        return tuple(_force(x, c, t, memo) for x in n)
    if not isinstance(n, Node):
        return n
    if n is c:
        return t
    if n.id in memo:
        return memo[n.id]
    if n.op == 'ite':
        cc = n.args[0]
        if cc is c:
            r = _force(n.args[1] if t else n.args[2], c, t, memo)
        else:
            r = ite(_force(cc, c, t, memo), _force(n.args[1], c, t, memo),
                    _force(n.args[2], c, t, memo))
    else:
        r = rebuild(n.op, [_force(a, c, t, memo) for a in n.args])
    memo[n.id] = r
    return r


def show(v, depth=0):
    if isinstance(v, tuple):
        return '(' + ', '.join(show(x, depth) for x in v) + ')'
    if not isinstance(v, Node):
        return repr(v)
    if depth > 8:
        return '…'
    op, a = v.op, v.args
    d = depth + 1
    if op == 'const':
        x = a[0]
        if isinstance(x, Fraction):
            return str(x.numerator) if x.denominator == 1 else f'{float(x):.6g}'
        return str(x)
    if op in ('sym', 'unk'):
        return str(a[0])
    b = {'add': '+', 'mul': '*', 'div': '/', 'pow': '**'}.get(op)
    if b:
        return f'({show(a[0], d)} {b} {show(a[1], d)})'
    if op == 'neg':
        return f'-{show(a[0], d)}'
    if op == 'cmp':
        s = {'lt': '<', 'le': '<=', 'eq': '=='}[a[0]]
        return f'({show(a[1], d)} {s} {show(a[2], d)})'
    if op == 'ite':
        return f'({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})'
    if op == 'call':
        return f'{a[0]}(' + ', '.join(show(x, d) for x in a[1:]) + ')'
    if op == 'attr':
        return f'{show(a[0], d)}.{a[1]}'
    if op == 'item':
        return f'{show(a[0], d)}[{show(a[1], d)}]'
    return f'{op}(' + ', '.join(show(x, d) for x in a) + ')'
