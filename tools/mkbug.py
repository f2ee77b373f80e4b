#!/usr/bin/env python3
"""Plant one bug: mkbug.py <json>; writes seeded/<id>/ from edits.

The JSON holds id, property, needs, breaks, edits [[file, old, new], ...]
and demo (python source). Applies to /repo to make the diff and restores.
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def git(*a):
    return subprocess.run(['git', '-C', REPO, *a], check=True,
                          capture_output=True, text=True).stdout


def make(b):
    d = f'{HERE}/seeded/{b["id"]}'
    os.makedirs(d, exist_ok=True)
    assert not git('status', '--porcelain').strip(), 'repo not clean'
    try:
        for f, old, new in b['edits']:
            p = f'{REPO}/{f}'
            with open(p) as h:
                s = h.read()
            assert s.count(old) == 1, (f, s.count(old), old)
            with open(p, 'w') as h:
                h.write(s.replace(old, new))
        diff = git('diff')
    finally:
        git('checkout', '--', '.')
    with open(f'{d}/patch.diff', 'w') as h:
        h.write(diff)
    with open(f'{d}/demo.py', 'w') as h:
        h.write(b['demo'])
    with open(f'{d}/demo.sh', 'w') as h:
        h.write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\n'
                'exec /opt/venv/bin/python "$d/demo.py"\n')
    os.chmod(f'{d}/demo.sh', 0o755)
    with open(f'{d}/meta.json', 'w') as h:
        json.dump({'property': b['property'], 'needs': b['needs'],
                   'what_it_breaks': b['breaks']}, h, indent=1)
        h.write('\n')


if __name__ == '__main__':
    with open(sys.argv[1]) as h:
        bugs = json.load(h)
    for b in bugs if isinstance(bugs, list) else [bugs]:
        make(b)
        print(b['id'])
