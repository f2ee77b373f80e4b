"""Verdict collection, known findings, evidence."""

from __future__ import annotations

import json
import os
import time

from .repo import AnalysisBroken

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Check:
    def __init__(self, pid, rule, technique):
        self.pid, self.rule, self.technique = pid, rule, technique
        self.t0 = time.time()
        self.known = load_known(pid)
        self.ok_n = 0
        self.by_rule = {}
        self.viol = {}           # key -> (where, text)
        self.undecided = []
        self.functions = set()
        self.modules = set()
        self.samples = {}
        self.minimum = 0
        self.notes = []

    def ok(self, rule, construct):
        self.ok_n += 1
        r = self.by_rule.setdefault(rule, [0, 0, 0])
        r[0] += 1
        self.samples.setdefault(rule, construct)

    def violation(self, rule, construct, where, text):
        r = self.by_rule.setdefault(rule, [0, 0, 0])
        r[1] += 1
        self.viol.setdefault(f'{rule}|{construct}', (where, text))

    def enough(self):
        """Many new violations: more of them tell nothing more."""
        new = len(self.viol) - len(self.viol.keys() & self.known.keys())
        return new >= 25 or new >= 3 and time.time() - self.t0 > 120

    def unknown(self, rule, construct, why):
        r = self.by_rule.setdefault(rule, [0, 0, 0])
        r[2] += 1
        self.undecided.append((rule, construct, str(why)[:200]))

    def seen(self, interp):
        self.functions |= interp.visited

    @property
    def total(self):
        return self.ok_n + sum(r[1] + r[2] for r in self.by_rule.values())

    def finish(self, repo):
        known = self.known
        new = []
        for key, (where, text) in sorted(self.viol.items()):
            if key in known:
                print(f'KNOWN-FINDING: property={self.pid} {key} — '
                      f'{known[key]} [{where}]')
            else:
                new.append((key, where, text))
        ev_dir = os.path.join(HERE, 'evidence')
        os.makedirs(ev_dir, exist_ok=True)
        decided = sum(r[0] + r[1] for r in self.by_rule.values())
        cov = {
            'obligations_decided': decided,
            'obligations_total': self.total,
            'functions': len(self.functions),
            'modules_parsed': len(repo.modules),
            'rules': {k: {'held': v[0], 'violated': v[1],
                          'undecided': v[2]}
                      for k, v in sorted(self.by_rule.items())},
            'explanation': (
                f'{self.technique}. Rule: {self.rule}. '
                f'{decided} of {self.total} obligations decided over '
                f'{len(self.functions)} analysed functions of '
                f'{len(repo.modules)} parsed modules; source digest '
                f'{repo.digest()[:16]}.'),
            'examples': {k: v for k, v in sorted(self.samples.items())},
            'undecided': [list(u) for u in self.undecided[:40]],
            'analysed_functions': sorted(
                f'{m}:{q}' for m, q in self.functions)[:400],
        }
        if self.notes:
            cov['notes'] = self.notes
        ev = {
            'property': self.pid,
            'tier': os.environ.get('VERIF_TIER', 'quick'),
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': 'other',
            'coverage': cov,
            'wall_s': round(time.time() - self.t0, 3),
            'violations': len(new),
        }
        if new:
            cov['violations'] = [{'key': k, 'where': w, 'text': t}
                                 for k, w, t in new]
        path = os.path.join(ev_dir, f'{self.pid}.json')
        with open(path, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print(f'{self.pid}: {self.ok_n} held, {len(new)} violated, '
              f'{len(self.undecided)} undecided, '
              f'{len(self.functions)} functions, '
              f'{time.time() - self.t0:.1f}s')
        if self.total < self.minimum:
            raise AnalysisBroken(
                f'{self.pid}: {self.total} obligations found, expected at '
                f'least {self.minimum}')
        if new:
            rdir = os.path.join(ev_dir, 'replay')
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, f'{self.pid}.txt')
            with open(rp, 'w') as f:
                for k, w, t in new:
                    f.write(f'{w}: [{k}] {t}\n')
            for k, w, t in new:
                print(f'  {w}: [{k}] {t}')
            print(f'VIOLATION property={self.pid} replay={rp}')
            return 1
        return 0


def load_known(pid):
    """KNOWN lines: 'KNOWN property=<id> key=<key> :: <text>'."""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if not os.path.exists(p):
        return out
    with open(p) as f:
        for line in f:
            if not line.startswith(f'KNOWN property={pid} '):
                continue
            body = line.split(' key=', 1)[1]
            key, _, text = body.partition(' :: ')
            out[key.strip()] = text.strip()
    return out
