#!/usr/bin/env python3
"""check.py PROPERTY | check.py replay FILE | check.py setup

Decides one property on the current tree of /repo:

1. every contract of the property is verified against the current source
   (pyvc: one process per contract);
2. the real code is executed against the executable specification, to find a
   concrete failing input (bounded; never counted as proved).

Exit 0: held on everything explored.  Exit 1: a VIOLATION line.
"""
import ast
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python3'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
EVIDENCE = os.path.join(HERE, 'evidence')
REPLAYS = os.path.join(EVIDENCE, 'replay')
HANG = 20
PROVERS = 6

TRUSTED = [
    'pyvc: the Python-subset semantics of this verifier (pyvc/interp.py and '
    'pyvc/models.py), which reads the function bodies from /repo on every run',
    'z3 and cvc5 (answers "unsat")',
    'CPython as parser of the source (ast) and as the runtime',
]


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
             PYTHONPATH=HERE, VERIF_REPO=REPO, LC_ALL='C.UTF-8')
    e.pop('ALINT_IGNORE', None)
    return e


def load_plan():
    with open(os.path.join(HERE, 'plan.json')) as fp:
        return json.load(fp)


def known_findings(pid):
    out = []
    try:
        with open(os.path.join(HERE, 'known-findings.txt')) as fp:
            for line in fp:
                if line.startswith('finding: property=%s ' % pid):
                    out.append(line.split(' ', 2)[2].strip())
    except OSError:
        pass
    return out


class Job:
    def __init__(self, argv, out, limit):
        self.argv, self.out, self.limit = argv, out, limit
        self.proc = None

    def start(self):
        self.t0 = time.time()
        self.log = open(self.out + '.log', 'w')
        self.proc = subprocess.Popen(
            self.argv, stdout=self.log, stderr=self.log, cwd=HERE, env=env(),
            start_new_session=True)

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()

    def done(self):
        if self.proc.poll() is not None:
            return True
        if time.time() - self.t0 > self.limit:
            self.kill()
            return True
        return False

    def result(self):
        try:
            with open(self.out) as fp:
                return json.load(fp)
        except (OSError, ValueError):
            return None


def run_checks(pid, plan, tmp):
    spec = plan[pid]
    budget = spec.get('budget_thorough', 240) if THOROUGH \
        else spec.get('budget', 25)
    parts = (6 if THOROUGH else 2) if spec.get('native', True) else 0
    searches = []
    for i in range(parts):
        out = os.path.join(tmp, 'search.%d.json' % i)
        searches.append(Job(
            [PY, '-B', '-m', 'native.search', pid, '--seed', str(SEED),
             '--budget', str(budget), '--out', tmp, '--part', str(i),
             '--parts', str(parts)], out, budget + 400))
    proofs = []
    for mod, name in spec.get('contracts', []):
        out = os.path.join(tmp, 'proof.%s.%s.json' % (mod, name))
        j = Job([PY, '-B', '-m', 'pyvc.prove', mod, name, out], out,
                spec.get('proof_limit', 150))
        j.mod, j.name = mod, name
        proofs.append(j)
    for j in searches:
        j.start()
    queue, live, hang = list(proofs), [], None
    running = list(searches)
    crashed = []
    while queue or live or running:
        while queue and len(live) < PROVERS:
            j = queue.pop(0)
            j.start()
            live.append(j)
        live = [j for j in live if not j.done()]
        still = []
        for j in running:
            if j.done():
                if j.result() is None:
                    crashed.append(j)
                continue
            i = searches.index(j)
            beat = os.path.join(tmp, 'beat.%d.json' % i)
            try:
                age = time.time() - os.path.getmtime(beat)
            except OSError:
                age = 0
            if age > HANG:
                try:
                    with open(beat) as fp:
                        case = json.load(fp)['case']
                except (OSError, ValueError):
                    case = None
                j.kill()
                if case is not None and confirm_hang(pid, case, tmp):
                    hang = case
                continue
            still.append(j)
        running = still
        if queue or live or running:
            time.sleep(.1)
    return searches, proofs, hang, crashed


def confirm_hang(pid, case, tmp):
    """Runs the case alone, with more time."""
    path = os.path.join(tmp, 'hang.json')
    with open(path, 'w') as fp:
        json.dump({'property': pid, 'case': case}, fp)
    j = Job([PY, '-B', '-m', 'native.search', pid, '--out', tmp, '--replay',
             path], os.path.join(tmp, 'hang.out'), 40)
    j.start()
    j.proc_done = False
    while j.proc.poll() is None:
        if time.time() - j.t0 > 40:
            j.kill()
            return True
        time.sleep(.1)
    return j.proc.returncode not in (0, 1) and j.proc.returncode < 0


def write_replay(pid, name, data):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, '%s-%s.json' % (pid, name))
    with open(path, 'w') as fp:
        json.dump(dict(data, property=pid), fp, indent=1)
        fp.write('\n')
    return os.path.relpath(path, HERE)


def check(pid):
    t0 = time.time()
    plan = load_plan()
    spec = plan[pid]
    tmp = tempfile.mkdtemp(prefix='vchk-')
    try:
        searches, proofs, hang, crashed = run_checks(pid, plan, tmp)
        results = []
        for j in proofs:
            r = j.result()
            if r is None:
                r = {'contract': j.name, 'module': j.mod, 'title': j.name,
                     'target': '?', 'status': 'timeout', 'obligations': 0,
                     'discharged': 0, 'refuted': [], 'unknown': [],
                     'dropped': 0, 'backends': {}, 'used': [], 'inlined': [],
                     'time': j.limit, 'solver': {}, 'models': [],
                     'reason': 'no answer in %ds' % j.limit}
            results.append(r)
        native = [j.result() for j in searches]
        native = [n for n in native if n]
        if hang is None and native and \
                not any(n['violations'] for n in native) and \
                any(refutes(spec, r) for r in results):
            native += second_chance(pid, tmp)
        return report(pid, spec, t0, results, native, hang, crashed)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def refutes(spec, r):
    """Does this refutation count?  Only of what is proved on the unchanged
    tree, by a proof that left out no more than then."""
    b = spec.get('baseline', {}).get(r['contract'])
    return bool(r['refuted'] and r['status'] == 'refuted' and b and
                b['status'] == 'proved' and
                set(b.get('kept', ())) <= set(r.get('kept', ())) and
                r.get('shape') == b.get('shape') and
                r.get('bare', 0) <= b.get('bare', 0) and
                r.get('dropped', 0) <= b.get('dropped', 0))


def second_chance(pid, tmp):
    """An obligation failed but no input was found: search on."""
    jobs = []
    for i in range(6):
        out = os.path.join(tmp, 'more%d' % i)
        os.mkdir(out)
        j = Job([PY, '-B', '-m', 'native.search', pid, '--seed',
                 str(SEED + 100 + i), '--budget', '75', '--out', out,
                 '--part', '0', '--parts', '1000000'],
                os.path.join(out, 'search.0.json'), 150)
        j.start()
        jobs.append(j)
    while jobs and not all([j.done() for j in jobs]):
        if any((j.result() or {}).get('violations') for j in jobs):
            break
        time.sleep(.2)
    for j in jobs:
        j.kill()
    return [r for r in (j.result() for j in jobs) if r and r['violations']]


def report(pid, spec, t0, results, native, hang, crashed):
    base = spec.get('baseline', {})
    violations = []
    lines = []
    for n in native:
        for v in n['violations']:
            violations.append(('input', v))
    if hang is not None:
        violations.append(('input', {'case': hang, 'what': 'no answer within '
                                     '40 s', 'original': hang}))
    findings = {}
    for n in native:
        findings.update(n.get('findings') or {})
    for r in results:
        if refutes(spec, r):
            violations.append(('proof', r))
    inputs = [v for k, v in violations if k == 'input']
    broken = [v for k, v in violations if k == 'proof']
    if inputs:
        v = min(inputs, key=lambda v: len(json.dumps(v['case'])))
        path = write_replay(pid, 'input', {
            'kind': 'input', 'case': v['case'], 'what': v['what'],
            'original': v.get('original'),
            'failed_obligations': [
                '%s: %s' % (r['title'], n) for r in broken
                for n, _ in r['refuted'][:5]],
            'replay': 'python3-vt check.py replay <this file>'})
        lines.append('  %s' % v['what'])
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
    elif broken:
        r = broken[0]
        path = write_replay(pid, 'obligation', {
            'kind': 'obligation', 'contract': r['contract'],
            'target': r['target'], 'module': r['module'],
            'obligations': r['refuted'][:10], 'models': r['models'],
            'loops': r.get('loops'),
            'others': [(x['title'], x['refuted'][:3]) for x in broken[1:]]})
        for n, d in r['refuted'][:3]:
            lines.append('  failed obligation: %s: %s %s' % (
                r['title'], n, str(d)[:300]))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found'
                     % (pid, path))
    for f in known_findings(pid):
        key = f.split(' ', 1)[0]
        if key in findings:
            print('KNOWN-FINDING: property=%s %s' % (pid, f))
    evidence(pid, spec, t0, results, native, violations, crashed)
    for r in results:
        print('%-9s %-44s %3d/%3d obligations %6.1fs %s' % (
            r['status'], r['title'], r['discharged'], r['obligations'],
            r['time'], r['reason'][:80]))
    for n in native:
        print('bounded   %d evaluations, %d distinct non-trivial %s' % (
            n['evaluations'], n['distinct_nontrivial'],
            n['undecided'] or ''))
    for j in crashed:
        print('search stopped without a result: %s' % j.out)
    for line in lines:
        print(line)
    return 1 if violations else 0


def evidence(pid, spec, t0, results, native, violations, crashed):
    os.makedirs(EVIDENCE, exist_ok=True)
    proved = [r for r in results if r['status'] == 'proved']
    other = [r for r in results if r['status'] != 'proved']
    backends = {}
    for r in results:
        for k, v in r['backends'].items():
            backends[k] = backends.get(k, 0) + v
    cov = {
        'obligations': sum(r['obligations'] for r in results),
        'discharged': sum(r['discharged'] for r in results),
        'checker_cmd': 'python3-vt check.py %s' % pid,
        'trusted_base': TRUSTED + spec.get('trusted', []),
        'functions_under_contract': [
            {'function': r['target'], 'contract': r['title'],
             'status': r['status'], 'obligations': r['obligations'],
             'discharged': r['discharged'], 'backends': r['backends'],
             'seconds': r['time'], 'solver_seconds': r['solver'],
             'callee_contracts_used': r['used'], 'inlined': r['inlined'],
             'loops': r.get('loops'), 'reason': r['reason']}
            for r in results],
        'back_ends': backends,
        'proved_contracts': len(proved),
        'unproved_contracts': ['%s: %s %s' % (r['title'], r['status'],
                                              r['reason']) for r in other],
        'bounded': {
            'what': 'concrete executions of the real code against the '
                    'executable specification; bounded, not proved',
            'parts': spec.get('bounded', []),
            'searches_without_result': len(crashed),
        },
    }
    if native:
        cov['evaluations'] = sum(n['evaluations'] for n in native)
        cov['distinct_nontrivial'] = sum(n['distinct_nontrivial']
                                         for n in native)
        cov['rule'] = native[0]['rule']
        cov['samples'] = [s for n in native for s in n['samples']][:4] or \
            [v['case'] for n in native for v in n['violations']][:2] or \
            ['(no case was sampled)']
        und = [n['undecided'] for n in native if n['undecided']]
        if und:
            cov['bounded']['undecided'] = und
    data = {
        'property': pid, 'tier': 'thorough' if THOROUGH else 'quick',
        'seed': SEED, 'level': spec['level'], 'coverage': cov,
        'assumptions': spec.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    if spec['level'] == 'other' and 'explanation' not in cov:
        cov['explanation'] = spec.get('explanation', '')
    path = os.path.join(EVIDENCE, pid + '.json')
    with open(path + '.tmp', 'w') as fp:
        json.dump(data, fp, indent=1, default=str)
        fp.write('\n')
    os.replace(path + '.tmp', path)


def replay(path):
    with open(path) as fp:
        data = json.load(fp)
    pid = data['property']
    if data['kind'] == 'input':
        tmp = tempfile.mkdtemp(prefix='vrep-')
        try:
            return subprocess.call(
                [PY, '-B', '-m', 'native.search', pid, '--out', tmp,
                 '--replay', os.path.abspath(path)], cwd=HERE, env=env())
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    print('failed obligations of %s (%s):' % (data['contract'],
                                              data['target']))
    tmp = tempfile.mkdtemp(prefix='vrep-')
    try:
        out = os.path.join(tmp, 'r.json')
        subprocess.call([PY, '-B', '-m', 'pyvc.prove', data['module'],
                         data['contract'], out], cwd=HERE, env=env())
        with open(out) as fp:
            r = json.load(fp)
        print('now: %s' % r['status'])
        for n, d in r['refuted']:
            print('  %s: %s' % (n, d))
        return 1 if r['status'] == 'refuted' else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def setup():
    """Nothing is compiled; the tools are checked and the files parse."""
    for root, _, names in os.walk(HERE):
        if '.git' in root or 'seeded' in root:
            continue
        for n in names:
            if n.endswith('.py'):
                with open(os.path.join(root, n)) as fp:
                    ast.parse(fp.read())
    load_plan()
    return subprocess.call([PY, '-B', '-c', 'import z3, cvc5'])


if __name__ == '__main__':
    if sys.argv[1] == 'replay':
        sys.exit(replay(sys.argv[2]))
    if sys.argv[1] == 'setup':
        sys.exit(setup())
    sys.exit(check(sys.argv[1]))
