"""C07 (arguments are left alone) and C08 (no shared mutable state)."""

from __future__ import annotations

import ast

from . import effects as F
from .repo import AnalysisBroken, loc

ARRAYS = ('ArrayLike', 'ndarray', 'Sequence', 'List', 'list', 'Iterable')
# the documented ways to change something for all later calls
SETTERS = {'set_design_code', 'set_national_annex'}


def public(f):
    parts = f.qual.split('.')
    if f.kind == 'setter':
        return False
    return all(not p.startswith('_') or p.startswith('__')
               and p.endswith('__') for p in parts)


def world(chk, repo):
    W = F.World(repo)
    W.run()
    if not W.stable:
        chk.unknown('effects', 'summaries', 'not stable after 14 rounds')
    for f in W.fns.values():
        chk.functions.add((f.module.name, f.qual))
    chk.notes.append(
        f'{len(W.fns)} functions, {sum(f.calls for f in W.fns.values())} '
        f'call evaluations, {W.rounds} rounds to the fixed point')
    return W


def c07(repo, chk):
    W = world(chk, repo)
    chk.minimum = 900
    if len(W.fns) < 400 or 'get_stress' not in W.by_method:
        raise AnalysisBroken('the functions of the package are not found')
    for f in W.fns.values():
        if not public(f):
            continue
        own = {'self', 'cls'} if f.cls is not None else set()
        for p in f.pos + f.kwonly + ['*', '**']:
            if p in own or p == '*' and not f.vararg or (
                    p == '**' and not f.kwarg):
                continue
            con = f'{f.module.name}.{f.qual}({p})'
            hits = [(w, t, o) for (o, _fld), (w, t) in f.muts.items()
                    if o[0] == 'p' and o[1] == p]
            if hits:
                w, t, o = sorted(hits)[0]
                chk.violation('argument', con, w,
                              f'the call changes its argument {path(o)}: '
                              f'{t}')
            else:
                chk.ok('argument', con)
        if f.name == '__init__':
            retained(chk, f)
        if f.cls is not None and f.name != '__init__':
            receiver(chk, W, f)
    for k in W.classes.values():
        initialised(chk, W, k)


def path(o):
    return o[1] + ''.join(x if x == '[]' else '.' + x for x in o[2])


def retained(chk, f):
    for o, fld, v in sorted(f.stores):
        if o != ('p', 'self', ()) or v[0] != 'p' or v[1] == 'self' or v[2]:
            continue
        a = f.ann.get(v[1])
        t = ast.unparse(a) if a is not None else ''
        con = f'{f.module.name}.{f.cls.name}.{fld}'
        if any(w in F_words(t) for w in ARRAYS):
            chk.violation('retained', con, loc(f.module, f.node),
                          f'{f.cls.name} keeps the array or list given as '
                          f'{v[1]} in {fld} (a later change by the caller '
                          'changes the object)')
        else:
            chk.ok('retained', con)


def initialised(chk, W, k):
    """Attributes that queries read are set when the object is made."""
    mro = k.mro()
    known = set()
    for c in mro:
        known |= set(c.attrs) | set(c.methods) | set(c.setters)
        if not any(W.resolve(b, c.module) for b in c.node.bases) and (
                c.node.bases) and not all(
                ast.unparse(b).split('.')[-1] in ('ABC', 'object', 'Protocol')
                for b in c.node.bases):
            return
        if any('dataclass' in ast.unparse(d)
               for d in c.node.decorator_list):
            known |= set(c.ann)
    later = set()
    seen, todo = set(), []
    for c in mro:
        if '__init__' in c.methods:
            todo.append(c.methods['__init__'])
            if not any(isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr == '__init__'
                    for n in ast.walk(c.methods['__init__'].node)):
                break
        if '__post_init__' in c.methods:
            todo.append(c.methods['__post_init__'])
    while todo:
        f = todo.pop()
        if f.key in seen:
            continue
        seen.add(f.key)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(
                    n.value, ast.Name) and n.value.id == 'self':
                if isinstance(n.ctx, ast.Store):
                    known.add(n.attr)
                for c in mro:
                    if n.attr in c.methods:
                        todo.append(c.methods[n.attr])
                        break
                for c in mro:
                    if n.attr in c.setters and isinstance(
                            n.ctx, ast.Store):
                        todo.append(c.setters[n.attr])
                        break
    loads = {}
    for c in mro:
        for f in list(c.methods.values()) + list(c.setters.values()):
            for n in ast.walk(f.node):
                if not (isinstance(n, ast.Attribute) and isinstance(
                        n.value, ast.Name) and n.value.id == 'self'):
                    continue
                if isinstance(n.ctx, ast.Store):
                    later.add(n.attr)
                elif not protected(n, f):
                    loads.setdefault(n.attr, (f, n))
    if k.allsubs()[1:] and k.name.startswith('_') or any(
            'abstract' in ast.unparse(d) for f in k.methods.values()
            for d in f.node.decorator_list):
        return
    for a, (f, n) in sorted(loads.items()):
        if a.startswith('__') or a not in known and a not in later:
            continue
        con = f'{k.module.name}.{k.name}.{a}'
        if a in known:
            chk.ok('initialised', con)
        else:
            chk.violation('initialised', con, loc(f.module, n),
                          f'self.{a} is read, but it is set only by an '
                          'earlier call of another method: the first query '
                          'fails')


def protected(n, f):
    """The read is prepared: set before, or the failure is handled."""
    for s in ast.walk(f.node):
        if isinstance(s, ast.Attribute) and isinstance(
                s.ctx, ast.Store) and s.attr == n.attr and isinstance(
                s.value, ast.Name) and s.value.id == 'self' and (
                s.lineno <= n.lineno):
            return True
        if isinstance(s, ast.Call) and isinstance(
                s.func, ast.Name) and s.func.id in (
                'hasattr', 'getattr') and any(isinstance(
                    x, ast.Constant) and x.value == n.attr for x in s.args):
            return True
    x = n
    while x is not None and x is not f.node:
        if isinstance(x, ast.Try):
            return True
        x = getattr(x, '_parent', None)
    return False


def F_words(t):
    out = ''.join(c if c.isalnum() or c == '_' else ' ' for c in t)
    return out.split()


def stateful(k):
    """Calculators keep intermediate results (see C09)."""
    return any(c.name == 'SectionCalculator' for c in k.mro())


def receiver(chk, W, f):
    """Queries and operators leave the object they are asked of alone."""
    if f.kind in ('setter', 'classmethod'):
        return
    keeps = stateful(f.cls)
    con = f'{f.module.name}.{f.qual}(self)'
    hits = []
    for (o, fld), (w, t) in f.muts.items():
        if o[0] != 'p' or o[1] != 'self':
            continue
        if registry(f.cls, o, fld) or private_result(W, f, o, fld):
            continue
        if keeps and (not o[2] and (
                fld.startswith('_') or fld == 'integration_data') or o[2]
                and o[2][0] == 'integration_data'):
            continue
        if any(x in ('section_calculator',) for x in o[2]):
            continue
        hits.append((w, t, o))
    if hits:
        w, t, o = sorted(hits)[0]
        chk.violation('receiver', con, w,
                      f'the call changes the state of the object '
                      f'({path(o)}): {t}')
    else:
        chk.ok('receiver', con)


def registry(k, o, fld):
    """A dictionary of the object's own, made in __init__."""
    if len(o[2]) != 1 or fld != '[]':
        return False
    f = k.methods.get('__init__')
    if f is None:
        return False
    for s in ast.walk(f.node):
        if isinstance(s, ast.Assign) and any(
                isinstance(t, ast.Attribute) and t.attr == o[2][0]
                for t in s.targets) and isinstance(
                s.value, ast.Dict) and not s.value.keys:
            return True
    return False


def private_result(W, f, o, fld):
    """A stored result: set by a helper that is called when it is unset.

    The attribute starts as None (or not at all), is private, and no function
    of the class sets it elsewhere than in helpers of its own property.
    """
    if o[2] or not fld.startswith('_'):
        return False
    for k in f.cls.mro():
        if fld in k.attrs and isinstance(
                k.attrs[fld], ast.Constant) and k.attrs[fld].value is None:
            return guarded(f.cls, fld)
        g = k.methods.get('__init__')
        if g is None:
            continue
        for s in ast.walk(g.node):
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                if any(isinstance(t, ast.Attribute) and t.attr == fld
                       for t in ts) and isinstance(
                        s.value, ast.Constant) and s.value.value is None:
                    return guarded(f.cls, fld)
    return False


def guarded(k, fld):
    """Some method asks whether the attribute is None."""
    for c in k.mro() + k.allsubs():
        for g in c.methods.values():
            for n in ast.walk(g.node):
                if isinstance(n, ast.Compare) and isinstance(
                        n.left, ast.Attribute) and n.left.attr == fld and (
                        isinstance(n.comparators[0], ast.Constant)
                        and n.comparators[0].value is None):
                    return True
                if isinstance(n, ast.BoolOp) and any(
                        isinstance(x, ast.Attribute) and x.attr == fld
                        for x in n.values):
                    return True
    return False


# ------------------------------------------------------------------- C08
def c08(repo, chk):
    W = world(chk, repo)
    chk.minimum = 1500
    for f in W.fns.values():
        con = f'{f.module.name}.{f.qual}'
        where = loc(f.module, f.node)
        # writes to the module or the class
        bad = False
        for (o, fld), (w, t) in sorted(f.muts.items(), key=str):
            if not in_body(f, w):
                continue
            if o[0] == 'g':
                if fld == 'count' or fld == 'rebind' and (
                        f.name in SETTERS and o[1] == f.module.name):
                    continue
                bad = True
                chk.violation('global', f'{con}: {o[2]}', w,
                              f'the call changes {o[1]}.{o[2]}, which all '
                              f'later calls see: {t}')
            elif o[0] == 'p' and o[1] in ('self', 'cls') and o[2] and (
                    f.cls is not None) and class_level(f.cls, o[2][0]):
                bad = True
                chk.violation('global', f'{con}: {o[2][0]}', w,
                              f'the call changes the {o[2][0]} shared by '
                              f'all objects of the class: {t}')
        for (o, fld), (w, t) in sorted(f.muts.items(), key=str):
            # defaults of functions called here
            if o[0] == 'd':
                bad = True
                chk.violation('default', f'{o[1][0]}.{o[1][1]}({o[2]})', w,
                              f'the default of {o[2]} is changed and stays '
                              f'changed: {t}')
        if not bad:
            chk.ok('global', con)
        # mutable defaults that escape
        for p, d in f.defaults.items():
            pcon = f'{con}({p})'
            if not F.mutable_expr(d):
                chk.ok('default', pcon)
                continue
            root = ('p', p, ())
            if any(o[0] == 'p' and o[1] == p for o, _f in f.muts):
                chk.violation('default', pcon, where,
                              f'the mutable default of {p} is changed by '
                              'the call')
            elif root in f.rets or any(v == root for _o, _f, v in f.stores):
                chk.violation('default', pcon, where,
                              f'the mutable default of {p} is handed out')
            else:
                chk.ok('default', pcon)
        # tables handed out
        if public(f):
            tables(chk, W, f, con, where)
        # what the result may depend on besides the arguments
        hit = [(k, w) for k, w in f.ambient.items() if in_body(f, w)]
        if hit:
            for k, w in hit:
                chk.violation('ambient', f'{con}: {k}', w,
                              f'{k} is used: the result (or that of later '
                              'calls) depends on more than the arguments')
        else:
            chk.ok('ambient', con)
        cached(chk, W, f, con, where)
        order(chk, f, con)
    for k in W.classes.values():
        for n, v in k.attrs.items():
            con = f'{k.module.name}.{k.name}.{n}'
            if F.mutable_expr(v):
                chk.ok('class table', con)


def in_body(f, w):
    p, _, n = w.rpartition(':')
    return p == f.module.rel and f.node.lineno <= int(n) <= (
        f.node.end_lineno)


def class_level(k, attr):
    for c in k.mro():
        if attr in c.attrs and F.mutable_expr(c.attrs[attr]):
            for d in k.mro():
                g = d.methods.get('__init__')
                if g is not None and any(
                        isinstance(s, ast.Attribute) and s.attr == attr
                        and isinstance(s.ctx, ast.Store)
                        for s in ast.walk(g.node)):
                    return False
            return True
    return False


def literal(W, o):
    """The expressions a table holds at a path."""
    if o[0] == 'g':
        if '.' in o[2]:
            kn, _, an = o[2].partition('.')
            k = W.classes.get((o[1], kn))
            e = k.attrs.get(an) if k else None
        else:
            r = W.ns.get(o[1], {}).get(o[2])
            e = r[3] if r and r[0] == 'var' else None
        fields = o[3]
    else:
        return []
    return at_path(e, fields)


def at_path(e, fields):
    es = [e] if e is not None else []
    for fld in fields:
        out = []
        for x in es:
            if isinstance(x, ast.Dict) and fld == '[]':
                out += x.values
            elif isinstance(x, (ast.List, ast.Tuple, ast.Set)) and (
                    fld == '[]'):
                out += x.elts
        es = out
    return es


def tables(chk, W, f, con, where):
    bad = []
    for o in f.rets:
        es = []
        if o[0] == 'g':
            es, name = literal(W, o), o[2]
        elif o[0] == 'p' and o[1] in ('self', 'cls') and o[2] and (
                f.cls is not None) and class_level(f.cls, o[2][0]):
            for c in f.cls.mro():
                if o[2][0] in c.attrs:
                    es, name = at_path(c.attrs[o[2][0]], o[2][1:]), o[2][0]
                    break
        if any(F.mutable_expr(e) for e in es):
            bad.append(name)
    if bad:
        chk.violation('table', con, where,
                      f'the result is (a part of) the table {bad[0]} '
                      'itself: a caller changing it changes all later '
                      'results')
    else:
        chk.ok('table', con)


def cached(chk, W, f, con, where):
    for d in f.node.decorator_list:
        x = d.func if isinstance(d, ast.Call) else d
        n = x.attr if isinstance(x, ast.Attribute) else getattr(x, 'id', '')
        if n not in ('lru_cache', 'cache', 'cached_property'):
            continue
        kinds = set()
        for r in ast.walk(f.node):
            if isinstance(r, ast.Return) and r.value is not None:
                kinds.add(type(r.value).__name__)
        fresh = any(o[0] == 'a' and o[1][-1] in (
            'List', 'Dict', 'Set', 'ListComp', 'DictComp', 'SetComp')
            or o[0] == 'a' and F.immutable_ann(f.node.returns) is False
            and o[1][-1] in ('Call', 'call') for o in f.rets)
        if fresh and n != 'cached_property':
            chk.violation('cache', con, where,
                          f'{n} hands out the same mutable result to all '
                          'callers')
        elif f.cls is not None and n != 'cached_property':
            chk.violation('cache', con, where,
                          f'{n} on a method: results outlive changes of '
                          'the object')
        else:
            chk.ok('cache', con)


def order(chk, f, con):
    """Iteration over a set: the order differs from run to run."""
    sets = set()
    for s in ast.walk(f.node):
        if isinstance(s, ast.Assign) and is_set(s.value, sets):
            sets |= {t.id for t in s.targets if isinstance(t, ast.Name)}
    bad = None
    for s in ast.walk(f.node):
        it = None
        if isinstance(s, (ast.For, ast.comprehension)):
            it = s.iter
        elif isinstance(s, ast.Call) and isinstance(
                s.func, ast.Name) and s.func.id in (
                'list', 'tuple', 'enumerate', 'next', 'iter') and s.args:
            it = s.args[0]
        if it is not None and is_set(it, sets):
            par = getattr(s, '_parent', None)
            if isinstance(s, ast.comprehension):
                g = getattr(par, '_parent', None)
                if isinstance(par, ast.SetComp) or isinstance(
                        g, ast.Call) and isinstance(
                        g.func, ast.Name) and g.func.id in (
                        'sorted', 'set', 'min', 'max', 'any', 'all',
                        'frozenset', 'len'):
                    continue
            if isinstance(par, ast.Call) and isinstance(
                    par.func, ast.Name) and par.func.id in (
                    'sorted', 'set', 'min', 'max', 'len', 'frozenset'):
                continue
            if isinstance(s, ast.For) and not any(
                    isinstance(x, (ast.Yield, ast.Break)) or isinstance(
                        x, ast.Call) and isinstance(
                        x.func, ast.Attribute) and x.func.attr in (
                        'append', 'extend', 'insert') or isinstance(
                        x, ast.Return) and not isinstance(
                        x.value, (ast.Constant, type(None)))
                    for b in s.body for x in ast.walk(b)):
                continue
            bad = s if isinstance(s, ast.stmt) or hasattr(
                s, 'lineno') else it
    if bad is not None:
        chk.violation('order', con, loc(f.module, bad),
                      'the elements of a set are taken one after another: '
                      'their order is not determined by the arguments')
    else:
        chk.ok('order', con)


def is_set(e, sets):
    if isinstance(e, (ast.Set, ast.SetComp)):
        return True
    if isinstance(e, ast.Name):
        return e.id in sets
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
        return e.func.id in ('set', 'frozenset')
    if isinstance(e, ast.BinOp) and isinstance(
            e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
        return is_set(e.left, sets) and is_set(e.right, sets)
    return False
