"""Loops with unknown trip count: relational loop invariants.

The loop variables are unknown at the head of the loop, except for facts
that hold on entry and are preserved by every pass of the body: values
that are the same function of another loop variable (`v = T(e)`) and
signs.  Candidates that a pass does not preserve are dropped until the
rest is inductive.  After the loop, the state is the one on entry or the
one at the end of a pass, with the loop condition false.
"""

from __future__ import annotations

import ast
import itertools

from . import nodes as N
from .interp import Dead, UNDEF, assigned_names
from .nodes import Node

_n = itertools.count()
DEBUG = False


def _sign_splits(I, s, fr, st, names):
    """Case distinction on the sign of what the loop condition compares."""
    test = getattr(s, 'test', None)
    if test is None:
        used = [x.id for t in ast.walk(s) if isinstance(t, ast.If)
                for x in ast.walk(t.test) if isinstance(x, ast.Name)]
    else:
        used = [x.id for x in ast.walk(test) if isinstance(x, ast.Name)]
    states = [st]
    for n in dict.fromkeys(used):
        if n not in names or len(states) > 4:
            continue
        v = st.frames[fr.fid].get(n, UNDEF)
        if not isinstance(v, Node) or N.is_const(v) or v.op in (
                'and', 'or', 'not', 'cmp'):
            continue
        nxt = []
        for q in states:
            v = q.facts.simplify(v)
            m = q.facts.sign(v)
            if m in (1, 2, 4):
                nxt.append(q)
                continue
            c = N.lt(N.ZERO, v)
            for t in (True, False):
                k = q.fork(c, t)
                if k is not None and k.facts.refresh() \
                        and k.facts.refresh():
                    nxt.append(k)
        states = nxt
    return states


def loop(I, s, fr, st, target=None):
    """Run a while loop, or a for loop whose target is unknown."""
    names = assigned_names(s)
    outs = []
    for q in _sign_splits(I, s, fr, st, names):
        try:
            outs += _induct(I, s, fr, q, names, target)
        except Dead:
            pass
    if not outs:
        return False
    if len(outs) == 1:
        st.become(outs[0])
        return True
    base = st.guard
    for i, q in enumerate(outs):
        g = base
        for j in range(i + 1):
            if j == len(outs) - 1:
                break
            g += ((case_(outs, j), j == i),)
            q.facts.assume(case_(outs, j), j == i)
        q.guard = g
    m = I.merge_states(outs)
    m.facts.alts = [q.facts for q in outs]
    st.become(m)
    return True


_cases = {}


def case_(outs, j):
    k = (id(outs), j)
    if k not in _cases:
        _cases[k] = (N.mk('truth', N.fresh('loop-exit')), outs)
    return _cases[k][0]


def _signs(facts, v, depth=4):
    """Possible signs of a term, by cases."""
    if facts.bad:
        return 0
    if not isinstance(v, Node):
        return 7
    v = facts.simplify(v)
    m = facts.sign(v)
    if m in (1, 2, 4) or depth == 0:
        return m
    cs = N.open_conds(v, facts)
    if not cs:
        return m
    c = min(cs, key=lambda n: n.id)
    r = 0
    for t in (True, False):
        f = facts.copy()
        if f.assume(c, t) and f.refresh():
            r |= _signs(f, v, depth - 1)
    return r & m


def _same(facts, a, b, depth=4):
    if facts.bad:
        return True
    if a is UNDEF or b is UNDEF:
        return a is b
    if not isinstance(a, Node) or not isinstance(b, Node):
        return N.same(a, b)
    a, b = facts.simplify(a), facts.simplify(b)
    cs = N.open_conds((a, b), facts)
    if not cs or depth == 0:
        return bool(N.equal(a, b, facts))
    c = min(cs, key=lambda n: n.id)
    for t in (True, False):
        f = facts.copy()
        if f.assume(c, t) and f.refresh() and not _same(f, a, b, depth - 1):
            return False
    return True


def _templates(entry, names, phi, end=None):
    """v -> [(e, T)] where T is a term over phi[e] and loop-invariant terms.
    """
    out = {}
    nodes = {n: entry[n] for n in names if isinstance(entry.get(n), Node)
             and not N.is_const(entry[n])}
    for v, tv in nodes.items():
        c = []
        for e, te in nodes.items():
            if e == v or te is tv or te.op not in (
                    'sym', 'unk', 'add', 'mul', 'neg', 'div', 'ite', 'call'):
                continue
            if any(x is te for x in N.walk(tv)):
                c.append((N.size(te), e, N.subst(tv, {te: phi[e]})))
        c.sort(key=lambda x: -x[0])
        if c:
            out.setdefault(v, []).extend((e, t) for _, e, t in c)
    if end is not None:
        for v in names:
            a = end.get(v)
            if not isinstance(a, Node) or v not in phi:
                continue
            for e in names:
                b = end.get(e)
                if e == v or e not in phi or not isinstance(b, Node):
                    continue
                for x, y in _leaves(a, b):
                    if x is phi[v] or y is phi[e] or N.is_const(y):
                        continue
                    if x is y or not any(k is y for k in N.walk(x)):
                        continue
                    t = N.subst(x, {y: phi[e]})
                    if any(k is p for k in N.walk(t) for q, p in phi.items()
                           if q != e):
                        continue
                    out.setdefault(v, []).append((e, t))
    return out


def _leaves(a, b):
    if isinstance(a, Node) and isinstance(b, Node) and a.op == b.op == 'ite' \
            and a.args[0] is b.args[0]:
        return _leaves(a.args[1], b.args[1]) + _leaves(a.args[2], b.args[2])
    if isinstance(a, Node) and a.op == 'ite':
        return _leaves(a.args[1], b) + _leaves(a.args[2], b)
    if isinstance(b, Node) and b.op == 'ite':
        return _leaves(a, b.args[1]) + _leaves(a, b.args[2])
    return [(a, b)]


def _induct(I, s, fr, entry, names, target):
    fid = fr.fid
    env0 = entry.frames[fid]
    for n, v in env0.items():
        if isinstance(v, Node):
            env0[n] = entry.facts.simplify(v)
    k = next(_n)
    phi = {n: N.fresh(f'{n}.{k}') for n in names
           if isinstance(env0.get(n), (Node, int, float))
           and not isinstance(env0.get(n), bool)}
    strs = {n for n in names if n not in phi and env0.get(n, UNDEF)
            is not UNDEF}
    defs = {}
    signs = {}
    for n in phi:
        v = env0[n]
        v = v if isinstance(v, Node) else N.const(v)
        m = entry.facts.sign(v)
        if m != 7:
            signs[n] = m
    # sides of the loop variables with respect to given values
    sides = {}
    for n in phi:
        v = env0[n]
        v = v if isinstance(v, Node) else N.const(v)
        for x in I.opts.get('anchors', ()):
            m = _signs(entry.facts, N.sub(v, x))
            if m != 7:
                sides[n, x] = m
    cand = _templates(env0, names, phi)
    done_end = False
    mut = set()
    loose = set()       # other variables changed by the body
    n0 = len(fr.exits)
    for attempt in range(24):
        # acyclic choice of definitions
        defs = {}
        for v in names:
            for e, t in cand.get(v, ()):
                if v in defs or e in defs or any(
                        d[0] == v for d in defs.values()):
                    continue
                defs[v] = (e, t)
        head = entry.copy()
        env = head.frames[fid]
        for n, p in phi.items():
            env[n] = defs[n][1] if n in defs else p
        for n in loose:
            env[n] = N.fresh(n) if n in strs else UNDEF
        for c in mut:
            if c in head.heap:
                head.heap[c] = I.havoc_heap(entry.heap[c], mut_new[c], c)
        ok = True
        for n, m in signs.items():
            v = env[n]
            if m != 7 and isinstance(v, Node):
                ok = head.facts.assume_sign(head.facts.simplify(v), m) and ok
        for (n, x), m in sides.items():
            if m != 7 and isinstance(env[n], Node):
                ok = head.facts.assume_sign(head.facts.simplify(
                    N.sub(env[n], x)), m) and ok
        del fr.exits[n0:]
        if not ok:
            break
        body = head
        if target is not None:
            I.assign(target, N.fresh('it'), fr, body)
        dead = False
        if isinstance(s, ast.While):
            try:
                c = I.cond(s.test, fr, body)
                if isinstance(c, Node):
                    body = body.fork(c, True)
                    dead = body is None
                else:
                    dead = c is False
            except Dead:
                dead = True
        if dead:
            ends, br = [], []
        else:
            fr.loops.append(([], []))
            r = I.exec_block(s.body, fr, body)
            br, co = fr.loops.pop()
            ends = ([body] if r else []) + co
        changed = False
        ids = set(phi)
        if not done_end and ends:
            done_end = True
            e0 = I.merge_states(ends) if len(ends) > 1 else ends[0]
            raw = {n: e0.frames[fid].get(n) for n in names}
            more = _templates(env0, names, phi, raw)
            new = False
            for v, lst in more.items():
                for e, t in lst:
                    if any(e == a and t is b for a, b in cand.get(v, ())):
                        continue
                    # holds on entry?
                    if e in env0 and isinstance(env0.get(v), Node) and _same(
                            entry.facts, env0[v],
                            N.subst(t, {phi[e]: env0[e]})):
                        cand.setdefault(v, []).append((e, t))
                        new = True
            if new:
                continue
        for q in ends:
            e = q.frames[fid]
            for c, o in q.heap.items():
                if c in entry.heap and entry.heap[c] is not o \
                        and c not in mut:
                    mut.add(c)
                    changed = True
            mut_new = {c: q.heap[c] for c in mut if c in q.heap}
            for v, (x, t) in defs.items():
                if not isinstance(e.get(v), Node) or not isinstance(
                        e.get(x), Node) or not _same(
                        q.facts, e[v], N.subst(t, {phi[x]: e[x]})):
                    cand[v] = [y for y in cand[v] if y[1] is not t]
                    changed = True
        if changed:
            continue
        for q in ends:
            e = q.frames[fid]
            for n, m in list(signs.items()):
                w = e.get(n)
                if isinstance(w, (int, float)):
                    w = N.const(w)
                r = _signs(q.facts, w) if isinstance(w, Node) else 7
                if r & ~m:
                    if DEBUG: print('SIGN', n, m, r, N.show(w) if isinstance(w, Node) else w, 'head', env.get(n), defs)
                    signs[n] = m | r
                    changed = True
            for (n, x), m in list(sides.items()):
                w = e.get(n)
                if isinstance(w, (int, float)):
                    w = N.const(w)
                r = _signs(q.facts, N.sub(w, x)) if isinstance(
                    w, Node) else 7
                if r & ~m:
                    sides[n, x] = m | r
                    changed = True
            for n in sorted(strs - loose):
                if not N.same(e.get(n, UNDEF), env0[n]):
                    w = e.get(n, UNDEF)
                    if not (isinstance(w, type(env0[n]))
                            and not isinstance(w, Node)
                            and getattr(w, 'id', 0) == getattr(
                                env0[n], 'id', 1)):
                        loose.add(n)
                        changed = True
        if DEBUG: print('ROUND', attempt, changed, signs, {k:(a,N.show(b)) for k,(a,b) in defs.items()})
        if not changed:
            break
    else:
        raise RuntimeError('loop invariants do not settle')
    if 'phis' in I.opts:
        I.opts['phis'].extend((p, [env0[n]] + [
            q.frames[fid].get(n) for q in ends]) for n, p in phi.items())
    # states after the loop
    outs = []
    if isinstance(s, ast.While):
        for q in [entry.copy()] + ends:
            try:
                c = I.cond(s.test, fr, q)
            except Dead:
                continue
            if isinstance(c, Node):
                q = q.fork(c, False)
                if q is None:
                    continue
                q.facts.refresh()
                if q.facts.bad:
                    continue
            elif c is True:
                continue
            if s.orelse and not I.exec_block(s.orelse, fr, q):
                continue
            outs.append(q)
    else:
        for q in ends:
            if s.orelse and not I.exec_block(s.orelse, fr, q):
                continue
            outs.append(q)
    return outs + br
