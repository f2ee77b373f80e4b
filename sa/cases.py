"""Case distinctions of the analysed code, followed one at a time.

Where the outcome depends on a comparison the facts of a scenario do not
decide, a structure (a list of parts, an object) can be left undecided.  The
check is then repeated with the comparison assumed to hold and not to hold;
a violation found so counts if the facts, the assumption included, can hold.
"""

from __future__ import annotations

import os
import time

from . import interp, util
from . import nodes as N
from .lawcheck import opaque
from .nodes import Node
from .refute import sat
from .report import Check


class CaseCheck(Check):
    """Violations count only where the assumption is possible."""

    def violation(self, rule, construct, where, text):
        W = util.CURRENT[0]
        if W is not None and not W.forced:
            return
        if 'raises' in text or 'Error' in text or W is None or sat(
                [], W.st.facts) is None:
            # not possible, or an input the code refuses
            self.unknown(rule, construct, 'case not known to be possible')
            return
        super().violation(rule, construct, where, text)


def usable(c):
    return isinstance(c, Node) and not N.is_const(c) and any(
        x.op == 'sym' for x in N.walk(c)) and not opaque(c)


def order(chk, conds):
    """Assumptions to make: the comparisons of one place in the source all
    true, all false, in turns, and single ones; those that show in an
    undecided item first."""
    texts = [' '.join(map(str, u)) for u in chk.undecided]
    groups = []
    for cs in conds.values():
        cs = [c for c in cs.values() if usable(c)]
        if cs:
            hit = [c for c in cs if any(N.show(c) in t for t in texts)]
            groups.append((not hit, (hit or cs)[:12]))
    groups.sort(key=lambda g: g[0])
    out = []
    for pat in (lambda i: True, lambda i: False, lambda i: i % 2 == 0,
                lambda i: i % 2 == 1):
        for _, cs in groups:
            f = [(c, pat(i)) for i, c in enumerate(cs)]
            if f not in out:
                out.append(f)
    for k in range(12):
        for _, cs in groups:
            if k < len(cs) and len(cs) > 1:
                out += [[(cs[k], True)], [(cs[k], False)]]
    return out


def follow(repo, chk, run, conds):
    budget = float(os.environ.get('SA_CASES', 240))
    t0 = time.monotonic()
    n = 0
    for facts in order(chk, conds):
        if chk.enough() or time.monotonic() - t0 > budget:
            return n
        one = CaseCheck(chk.pid, chk.rule, chk.technique)
        util.FORCED[:] = facts
        util.CURRENT[0] = None
        try:
            run(repo, one)
        except Exception:    # what it found still counts
            pass
        finally:
            util.FORCED[:] = []
            util.CURRENT[0] = None
        n += 1
        text = ' and '.join(('' if t else 'not ') + N.show(c)
                            for c, t in facts[:3])
        for key, (where, what) in one.viol.items():
            rule, con = key.split('|', 1)
            chk.violation(rule, con, where, f'{what} (where {text})')
        if len(chk.viol) > len(chk.known):
            return n
    return n


def collect():
    interp.COLLECT = {}
    return interp.COLLECT
