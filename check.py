#!/usr/bin/env python3
"""Run one static check: check.py <property-id>."""

import importlib
import os
import signal
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

import spec  # noqa: E402
from sa.repo import AnalysisBroken, Repo  # noqa: E402
from sa.report import Check  # noqa: E402
from sa import cases  # noqa: E402

# properties of structures, where a case left open hides the outcome
CASES = {'C06', 'C09', 'C10', 'C14', 'C16', 'C18', 'C20', 'C25'}


class Late(BaseException):
    pass


def _late(*_):
    raise Late('time limit of the check')


def main():
    pid = sys.argv[1]
    p = spec.P[pid]
    mod, fn = p['entry'].split(':')
    run = getattr(importlib.import_module(f'sa.{mod}'), fn)
    try:
        repo = Repo()
        chk = Check(pid, p['rule'], p['technique'])
        try:
            signal.signal(signal.SIGALRM, _late)
            signal.alarm(int(os.environ.get('SA_ALARM', 700)))
            seen = cases.collect() if pid in CASES else None
            run(repo, chk)
            if seen and (chk.undecided or os.environ.get('SA_CASES')) and (
                    not chk.viol):
                n = cases.follow(repo, chk, run, seen)
                chk.notes.append(f'{n} cases followed')
        except (AnalysisBroken, KeyboardInterrupt):
            raise
        except BaseException as e:  # what was decided so far still counts
            tb = traceback.extract_tb(e.__traceback__)[-1]
            chk.unknown('analysis', f'{pid} rule stopped early',
                        f'{type(e).__name__}: {e} at {tb.filename}:'
                        f'{tb.lineno}')
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
        finally:
            signal.alarm(0)
        return chk.finish(repo)
    except AnalysisBroken as e:
        print(f'{pid}: ANALYSIS BROKEN: {e}', file=sys.stderr)
        return 3


if __name__ == '__main__':
    sys.exit(main())
