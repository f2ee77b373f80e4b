"""Arrays of known shape (0, 1 or 2 dimensions) over value-graph nodes.

A two-dimensional array is an HArr whose items are tuples (its rows).
"""

from __future__ import annotations

from . import nodes as N
from .nodes import Node


def _i():
    from . import interp
    return interp


def nd(I, v, st, depth=0):
    """(shape, flat values) of a value of known shape, else None."""
    M = _i()
    if isinstance(v, (bool, int, float)):
        return (), [N.const(v) if not isinstance(v, bool) else v]
    if isinstance(v, Node):
        if v.op in ('tuple?',):
            return None
        if v.op == 'ite' and any(isinstance(x, M.Ref) for x in v.args[1:]):
            # one of two arrays of the same shape
            d = st.facts.decide(v.args[0])
            if d is not None:
                return nd(I, v.args[1 if d else 2], st, depth)
            p, q = (nd(I, x, st, depth) for x in v.args[1:])
            if p is None or q is None or p[0] != q[0]:
                return None
            return p[0], [N.ite(v.args[0], x, y) for x, y in zip(p[1], q[1])]
        return (), [v]
    if isinstance(v, M.Ref):
        o = I.h(st, v)
        if isinstance(o, M.HArr):
            if o.items is None:
                return None
            return nd(I, tuple(o.items), st, depth + 1)
        if isinstance(o, M.HList) and isinstance(o.items, tuple) and (
                o.kind in ('list', 'tuple')) and o.tag != 'elementwise':
            return nd(I, o.items, st, depth + 1)
        return None
    if isinstance(v, M.Iter):
        return nd(I, tuple(v.items), st, depth + 1)
    if isinstance(v, tuple):
        if v and v[0] == 'slice':
            return None
        parts = [nd(I, x, st, depth + 1) for x in v]
        if any(p is None for p in parts):
            return None
        if not parts:
            return (0,), []
        sh = parts[0][0]
        if any(p[0] != sh for p in parts) or len(sh) > 1:
            return None
        return (len(parts),) + sh, [x for p in parts for x in p[1]]
    return None


def make(I, st, shape, flat, dtype='float'):
    M = _i()
    if shape == ():
        return flat[0]
    if len(shape) == 1:
        return I.alloc(st, M.HArr(None, tuple(flat), dtype))
    n, m = shape
    return I.alloc(st, M.HArr(None, tuple(
        tuple(flat[i * m:(i + 1) * m]) for i in range(n)), dtype))


def is2d(o):
    return o.items is not None and any(isinstance(x, tuple) for x in o.items)


def bshape(a, b):
    a, b = (1,) * (2 - len(a)) + a, (1,) * (2 - len(b)) + b
    out = []
    for x, y in zip(a, b):
        if x == y or y == 1:
            out.append(x)
        elif x == 1:
            out.append(y)
        else:
            return None
    return tuple(out)


def at(s, f, i, j):
    """Broadcast element."""
    s = (1,) * (2 - len(s)) + s
    return f[(i if s[0] > 1 else 0) * s[1] + (j if s[1] > 1 else 0)]


def zipnd(x, y, fn):
    (sa, fa), (sb, fb) = x, y
    sh = bshape(sa, sb)
    if sh is None:
        return None
    flat = [fn(at(sa, fa, i, j), at(sb, fb, i, j))
            for i in range(sh[0]) for j in range(sh[1])]
    k = max(len(sa), len(sb))
    return (sh[2 - k:], flat)


def matmul(x, y):
    (sa, fa), (sb, fb) = x, y
    if not sa or not sb:
        return None
    ra = sa if len(sa) == 2 else (1,) + sa
    rb = sb if len(sb) == 2 else sb + (1,)
    if ra[1] != rb[0]:
        return None
    n, k, m = ra[0], ra[1], rb[1]
    out = []
    for i in range(n):
        for j in range(m):
            t = N.ZERO
            for q in range(k):
                t = N.add(t, N.mul(fa[i * k + q], fb[q * m + j]))
            out.append(t)
    sh = (() if len(sa) == 1 else (n,)) + (() if len(sb) == 1 else (m,))
    return sh, out


def transpose(x):
    if x is None:
        return None
    s, f = x
    if len(s) < 2:
        return x
    n, m = s
    return (m, n), [f[i * m + j] for j in range(m) for i in range(n)]


def stack(parts, how):
    """hstack / vstack / column_stack of known arrays."""
    if how == 'h':
        parts = [((1,), f) if s == () else (s, f) for s, f in parts]
        parts = [p for p in parts if p[0] != (0,)] or parts[:1]
        if all(len(s) == 1 for s, _ in parts):
            flat = [x for _, f in parts for x in f]
            return (len(flat),), flat
        return transpose(stack([transpose(p) for p in parts], 'v'))
    if how == 'c':
        return transpose(stack([p if len(p[0]) == 1 else transpose(p)
                                for p in parts], 'v'))
    rows, m = [], None
    for s, f in parts:
        if s == ():
            s = (1, 1)
        if len(s) == 1:
            s = (1,) + s
        if s[0] == 0:
            m = s[1] if m is None else m
            continue
        if m is not None and s[1] != m:
            return None
        m = s[1]
        rows += [f[i * m:(i + 1) * m] for i in range(s[0])]
    return (len(rows), m or 0), [x for r in rows for x in r]


def sel(k, n):
    """(indices, keep dimension) selected by an index."""
    M = _i()
    i = M.as_int(k)
    if i is not None:
        if -n <= i < n:
            return [i % n], False
        return None
    if isinstance(k, tuple) and k and k[0] == 'slice':
        try:
            return list(range(n))[M._pyslice(k)], True
        except TypeError:
            return None
    return None


def item(x, k):
    """x[k] for a 2-d x and k an int, slice or pair of those."""
    (n, m), f = x
    if isinstance(k, tuple) and len(k) == 2 and k[0] != 'slice':
        a, b = sel(k[0], n), sel(k[1], m)
    else:
        a, b = sel(k, n), (list(range(m)), True)
    if a is None or b is None:
        return None
    sh = ((len(a[0]),) if a[1] else ()) + ((len(b[0]),) if b[1] else ())
    return sh, [f[i * m + j] for i in a[0] for j in b[0]]


def store(x, k, v):
    """x with x[k] = v (v: (shape, flat)); None if unknown."""
    (n, m), f = x
    if isinstance(k, tuple) and len(k) == 2 and k[0] != 'slice':
        a, b = sel(k[0], n), sel(k[1], m)
    else:
        a, b = sel(k, n), (list(range(m)), True)
    if a is None or b is None:
        return None
    f = list(f)
    s, g = v
    want = (len(a[0]) if a[1] else 1, len(b[0]) if b[1] else 1)
    if s != () and bshape(s, want) != want:
        if not (len(s) == 1 and s[0] == want[0] * want[1]):
            return None
        s = want
    for p, i in enumerate(a[0]):
        for q, j in enumerate(b[0]):
            f[i * m + j] = at(s, g, p, q)
    return (n, m), f
