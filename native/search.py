"""Bounded search for failing inputs of one property.

    python3-vt -m native.search C05 --seed 1 --budget 20 --out DIR

Runs in its own process; the parent (check.py) watches the heartbeat file to
notice hangs.
"""
import argparse
import hashlib
import json
import os
import random
import sys
import time

from . import registry
from .harness import Undecided, describe


def fingerprint(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def judge(prop, case):
    try:
        return prop.check(case)
    except Undecided:
        raise
    except RecursionError as e:
        return 'crash: ' + describe(e)


def shrink(prop, case, deadline):
    """Greedy: drop pieces while the property still fails."""
    def cands(x):
        if isinstance(x, str):
            n = len(x)
            step = n // 2
            while step:
                for i in range(0, n, step):
                    yield x[:i] + x[i + step:]
                step //= 2
        elif isinstance(x, list):
            n = len(x)
            step = n // 2 or n
            while step:
                for i in range(0, n, step):
                    yield x[:i] + x[i + step:]
                step //= 2
            for i, e in enumerate(x):
                for c in cands(e):
                    yield x[:i] + [c] + x[i + 1:]
        elif isinstance(x, dict):
            for k in x:
                if k not in prop.keep:
                    yield {a: b for a, b in x.items() if a != k}
            for k, e in x.items():
                for c in cands(e):
                    y = dict(x)
                    y[k] = c
                    yield y
    changed = True
    while changed and time.time() < deadline:
        changed = False
        for c in cands(case):
            if time.time() > deadline:
                break
            try:
                bad = judge(prop, c)
            except Exception:
                continue
            if bad:
                case = c
                changed = True
                break
    return case


def amplify(case, r, as_is=()):
    """Repeats a piece of the case: what holds for few holds for many."""
    places = []

    def visit(x, put):
        if isinstance(x, (str, list)) and x:
            places.append((x, put))
        if isinstance(x, list):
            for i, e in enumerate(x):
                visit(e, lambda v, i=i: put(x[:i] + [v] + x[i + 1:]))
        elif isinstance(x, dict):
            for k, e in x.items():
                if k in as_is:
                    continue
                visit(e, lambda v, k=k: put(dict(x, **{k: v})))
    visit(case, lambda v: v)
    if not places:
        return case
    x, put = r.choice(places)
    n = len(x)
    i = r.randrange(n)
    j = min(n, i + r.choice((1, 1, 1, 2, 3, 4, 8, 15, 40)))
    if isinstance(x, str) and '\n' in x and r.random() < .6:
        # whole lines
        i = x.rfind('\n', 0, i) + 1
        j = x.find('\n', j - 1) + 1 or n
    piece = x[i:j]
    times = min(r.choice((1, 2, 3, 4, 7, 15, 33, 70)),
                max(1, 2000 // max(1, len(piece))))
    return put(x[:j] + piece * times + x[j:])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--budget', type=float, default=20)
    ap.add_argument('--out', required=True)
    ap.add_argument('--part', type=int, default=0)
    ap.add_argument('--parts', type=int, default=1)
    ap.add_argument('--replay')
    a = ap.parse_args()
    prop = registry.load(a.prop)
    prop.keep = getattr(prop, 'keep', ('a.conf',))
    t0 = time.time()
    res = {'property': a.prop, 'evaluations': 0, 'distinct_nontrivial': 0,
           'fixed': 0, 'samples': [], 'violations': [], 'undecided': None,
           'rule': prop.rule, 'findings': {}}
    beat = os.path.join(a.out, 'beat.%d.json' % a.part)
    outfile = os.path.join(a.out, 'search.%d.json' % a.part)

    def finish():
        res['wall_s'] = round(time.time() - t0, 2)
        with open(outfile + '.tmp', 'w') as fp:
            json.dump(res, fp)
        os.replace(outfile + '.tmp', outfile)

    if a.replay:
        with open(a.replay) as fp:
            case = json.load(fp)['case']
        print('case: %s' % json.dumps(case))
        bad = judge(prop, case)
        print('result: %s' % (bad or 'the property holds'))
        return 1 if bad else 0

    rng = random.Random('%s/%s/%s' % (a.prop, a.seed, a.part))
    seen = set()

    def attempt(case):
        with open(beat, 'w') as fp:
            json.dump({'t': time.time(), 'case': case}, fp)
        bad = judge(prop, case)
        res['evaluations'] += 1
        if prop.nontrivial(case):
            seen.add(fingerprint(case))
        if len(res['samples']) < 3 and res['evaluations'] % 97 == 3:
            res['samples'].append(case)
        if not bad:
            return False
        known = prop.known(case, bad) if hasattr(prop, 'known') else None
        if known:
            res['findings'][known] = bad
            return False
        small = shrink(prop, case, time.time() + 10)
        res['violations'].append({'case': small, 'what': judge(prop, small)
                                  or bad, 'original': case})
        return True

    try:
        prop.setup() if hasattr(prop, 'setup') else None
        done = False
        for n, case in enumerate(prop.fixed()):
            if n % a.parts != a.part:
                continue
            res['fixed'] += 1
            if attempt(case):
                done = True
                break
        while not done and time.time() - t0 < a.budget:
            case = prop.gen(rng)
            if rng.random() < prop.amplify:
                case = amplify(case, rng, prop.as_is)
            if attempt(case):
                done = True
    except (Undecided, ImportError) as e:
        res['undecided'] = '%s: %s' % (type(e).__name__, e)
    res['distinct_nontrivial'] = len(seen)
    finish()
    return 0


if __name__ == '__main__':
    sys.exit(main())
