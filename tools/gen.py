#!/usr/bin/env python3
"""meta.py + contracts + baseline.json -> properties.jsonl, plan.json,
MANIFEST.json."""
import ast
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import meta     # noqa
import claims   # noqa


def contracts():
    """(module, class, props) by reading the sources; nothing is imported."""
    out = []
    d = os.path.join(HERE, 'contracts')
    for n in sorted(os.listdir(d)):
        if n.startswith('c_') and n.endswith('.py'):
            tree = ast.parse(open(os.path.join(d, n)).read())
            for node in tree.body:
                if isinstance(node, ast.ClassDef):
                    for st in node.body:
                        if isinstance(st, ast.Assign) and \
                                getattr(st.targets[0], 'id', '') == 'props':
                            out.append((n[:-3], node.name,
                                        ast.literal_eval(st.value)))
    return out


def main():
    keys = ('id', 'title', 'statement', 'quantifier', 'why_tests_cant',
            'anchors')
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fp:
        for p in meta.PROPS:
            fp.write(json.dumps({k: p[k] for k in keys}) + '\n')
    try:
        base = json.load(open(os.path.join(HERE, 'baseline.json')))
    except OSError:
        base = {}
    cs = contracts()
    plan, checks, na = {}, [], []
    for p in meta.PROPS:
        pid = p['id']
        c = claims.CLAIMS.get(pid)
        if c is None:
            na.append({'property': pid, 'reason': claims.NOT.get(
                pid, 'not built yet')})
            continue
        mine = [(m, n) for m, n, props in cs if pid in props]
        proved = [n for m, n in mine if base.get(n, {}).get('status') ==
                  'proved']
        plan[pid] = {
            'level': c['level'], 'contracts': mine,
            'baseline': {n: base[n] for m, n in mine if n in base},
            'assumptions': c.get('assumptions', []),
            'trusted': c.get('trusted', []),
            'bounded': c.get('bounded', []),
            'explanation': c.get('note', ''),
        }
        for k in ('budget', 'budget_thorough', 'proof_limit'):
            if k in c:
                plan[pid][k] = c[k]
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 check.py ' + pid,
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + pid,
            'technique': c.get('technique', TECHNIQUE),
            'level': c['level'],
            'level_note': c['note'],
        })
    json.dump(plan, open(os.path.join(HERE, 'plan.json'), 'w'), indent=1,
              sort_keys=True)
    json.dump({
        'version': 1,
        'setup_cmd': 'python3 check.py setup',
        'hooks': {'guard': 'none', 'enable': 'no hooks are needed',
                  'source_commits': []},
        'checks': checks, 'not_applicable': na,
    }, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'claimed', len(na), 'not')
    for pid in plan:
        print(pid, plan[pid]['level'], [
            '%s:%s' % (n, base.get(n, {}).get('status')) for m, n in
            plan[pid]['contracts']])


TECHNIQUE = ('contract-based deductive verification of the real Python code '
             '(pyvc: z3/cvc5), with executable contracts for counterexamples')

if __name__ == '__main__':
    main()
