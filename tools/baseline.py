#!/usr/bin/env python3
"""Verify every contract on the current tree; record the results."""
import json
import os
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.path.insert(0, HERE)
import gen      # noqa
import check    # noqa


def one(mod, name, tmp):
    out = os.path.join(tmp, name)
    try:
        subprocess.run([check.PY, '-B', '-m', 'pyvc.prove', mod, name, out],
                       cwd=HERE, env=check.env(), timeout=300,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        r = json.load(open(out))
    except (subprocess.TimeoutExpired, OSError, ValueError) as e:
        r = {'status': 'timeout', 'time': 300, 'reason': str(e)[:80],
             'obligations': 0, 'discharged': 0}
    return mod, name, r


def main():
    path = os.path.join(HERE, 'baseline.json')
    try:
        base = json.load(open(path))
    except OSError:
        base = {}
    todo = [(m, n) for m, n, p in gen.contracts()
            if len(sys.argv) < 2 or m in sys.argv[1:] or n in sys.argv[1:]]
    tmp = tempfile.mkdtemp()
    with ThreadPoolExecutor(6) as ex:
        for mod, name, r in ex.map(lambda t: one(*t, tmp), todo):
            print('%-10s %-30s %3d/%-3d %6.1fs dropped=%s %s' % (
                r['status'], name, r['discharged'], r['obligations'],
                r['time'], r.get('dropped'), r.get('reason', '')[:100]),
                r.get('refuted', [])[:2], r.get('unknown', [])[:2])
            base[name] = {'status': r['status'],
                          'dropped': r.get('dropped', 0),
                          'bare': r.get('bare', 0),
                          'module': mod, 'obligations': r['obligations']}
            if r.get('kept'):
                base[name]['kept'] = r['kept']
            if r.get('shape') is not None:
                base[name]['shape'] = r['shape']
    known = {n for m, n, p in gen.contracts()}
    base = {k: v for k, v in base.items() if k in known}
    json.dump(base, open(path, 'w'), indent=1, sort_keys=True)


if __name__ == '__main__':
    main()
