"""C24..C32: messages, commands, func_odbc, mutator, modules, robustness."""
import contextlib
import io
import json
import os
import re
import shutil
import stat
import sys
import tempfile
from unittest import mock

from . import ref_app, ref_file
from .harness import (REPO, MemFS, Msg, Prop, Undecided, b2s, describe,
                      diff_msgs, messages, s2b, source_constants)
from .p_dialplan import DialplanProp, include_graphs, sample
from .p_file import FileProp
from .p_var import KNOWN, VarProp
from .ref_dialplan import Plan


@contextlib.contextmanager
def scratch():
    path = tempfile.mkdtemp(prefix='vp-native-')
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


def put(root, files):
    for name, data in files.items():
        path = os.path.join(root, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'wb') as fp:
            fp.write(data)


def forked(cwd, env, func):
    """Runs func() in a child that has not imported asterisklint.
    -> (status, stdout, stderr)"""
    assert 'asterisklint' not in sys.modules, 'must be fresh'
    paths = [os.path.join(cwd, '.' + n) for n in ('out', 'err')]
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            for n, p in zip((1, 2), paths):
                fd = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                os.dup2(fd, n)
            sys.stdout = io.TextIOWrapper(os.fdopen(1, 'wb', closefd=False),
                                          'utf-8', 'backslashreplace')
            sys.stderr = io.TextIOWrapper(os.fdopen(2, 'wb', closefd=False),
                                          'utf-8', 'backslashreplace')
            os.chdir(cwd)
            os.environ.update(env)
            try:
                ret = func()
                code = 0 if ret is None else ret if isinstance(ret, int) \
                    else 1
            except SystemExit as e:
                code = 0 if e.code is None else e.code \
                    if isinstance(e.code, int) else 1
            except BaseException:
                import traceback
                traceback.print_exc()
                code = 1
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(code & 0xff)
    _, status = os.waitpid(pid, 0)
    out = []
    for p in paths:
        with open(p, 'rb') as fp:
            out.append(fp.read().decode('utf-8', 'replace'))
        os.unlink(p)
    return os.waitstatus_to_exitcode(status), out[0], out[1]


def command(cwd, env, args, recorded=None):
    def run():
        sys.argv = ['asterisklint'] + list(args)
        try:
            from asterisklint.main import main
        except ImportError as e:
            print('UNDECIDED', e)
            return 98
        environ = dict(os.environ)
        environ.update(env)
        ret = main(list(args), environ)
        if recorded:
            from asterisklint.defines import MessageDefManager
            with open(recorded, 'w') as fp:
                json.dump([[name, m.where.lineno and m.where.filename,
                            m.where.lineno]
                           for name, ms in MessageDefManager.raised.items()
                           for m in ms], fp)
        return ret
    res = forked(cwd, env, run)
    if res[0] == 98 and 'UNDECIDED' in res[1]:
        raise Undecided(res[1])
    return res


class Messages(DialplanProp):
    id = 'C24'
    what = 'messages, muting and exit status'
    rule = ('random dialplans and func_odbc files, checked by the command in '
            'a fresh process under a random ALINT_IGNORE; the messages on '
            'standard error and the exit status are compared with the '
            'specification; non-trivial: some message is expected')
    keep = ('a.conf', 'ignore')
    p_bad = .4
    p_jump = 0

    def fixed(self):
        conf = self.data(['[a]', 'exten=s,1,NoOp()', 'foo => 1 ', '',
                          '', 'exten => s,1,NoOp() '])
        out = []
        for ig in ('', 'W_', 'E_', 'H_', 'W_WSH_', 'W_WSH_EOL', 'W_WSH', 'W',
                   ',', ',,', 'W_,E_,H_', 'W_WSH_EOL_', '_', 'w_', ' W_',
                   'W_ ,', 'E_DP_PRIO_DUPE', 'E_DP_PRIO_DUPE,H_',
                   'H_,E_DP_PRIO_DUPE,W_', 'E_CONF_KEY_INVALID,E_DP_,H_,W_',
                   'E_DP_PRIO_DUP', 'XE_DP_PRIO_DUPE', 'E_DP_PRIO_DUPEX'):
            out.append({'a.conf': conf, 'ignore': ig})
        clean = self.data(['[general]', '[globals]', '[a]',
                           'exten => s,1,NoOp()'])
        out.append({'a.conf': clean, 'ignore': ''})
        out.append({'a.conf': clean + ' \n', 'ignore': 'W_'})
        out.append({'a.conf': clean + ';x \n', 'ignore': 'W_WSH_EOL'})
        return out

    def gen(self, r):
        case = super().gen(r)
        case['a.conf'] = re.sub('[^\n -~]', '?', case['a.conf'])
        for k in list(case):
            case[k] = re.sub('[^\n -~]', '?', case[k])
        try:
            plan = Plan({k: s2b(v) for k, v in case.items()}, 'a.conf', str)
            names = sorted({m.name for m in plan.msgs}) or ['W_X']
        except Exception:
            names = ['W_X']
        ig = []
        for _ in range(r.choice((0, 1, 1, 2, 3, 5, 9))):
            n = r.choice(names)
            x = r.randrange(8)
            if x < 3:
                pass
            elif x < 6:
                cut = r.choice([i + 1 for i, c in enumerate(n) if c == '_'])
                n = n[:cut]
            elif x == 6:
                n = n[:r.randrange(1, len(n))]
            else:
                n = r.choice((n.lower(), n + '_', ' ' + n, n + 'X', '', 'W_'))
            ig.append(n)
        case['ignore'] = ','.join(ig)
        return case

    @staticmethod
    def ignored(name, ignore):
        return any(name == i or i.endswith('_') and name.startswith(i)
                   for i in ignore.split(','))

    def check(self, case):
        files = {k: s2b(v) for k, v in case.items() if k.endswith('.conf')}
        if any('Goto' in v or 'Gosub' in v or 'Exec' in v or '$' in v
               for v in case.values()):
            return None
        plan = Plan(files, 'a.conf', lambda raw: 's')
        ref_file.vertical(plan.reader.elements, plan.say)
        if any(not x.pat.raw for c in plan.contexts for x in c.exts):
            return None
        with scratch() as tmp:
            put(tmp, files)
            status, out, err = command(
                tmp, {'ALINT_IGNORE': case['ignore'], 'HOME': tmp,
                      'PYTHONDONTWRITEBYTECODE': '1'},
                ['dialplan-check', '--func-odbc=', 'a.conf'],
                os.path.join(tmp, 'recorded'))
            try:
                with open(os.path.join(tmp, 'recorded')) as fp:
                    recorded = json.load(fp)
            except (OSError, ValueError):
                recorded = None
        if 'Traceback' in err:
            return 'crash: ' + err[-300:]
        # muted or not, every message is recorded
        for m in plan.msgs:
            if recorded is not None and not m.name.startswith(
                    ('E_APP_', 'W_APP_', 'I_NOTIMPL_')):
                x = [m.name, m.lineno and m.filename, m.lineno]
                if recorded.count(x) < len([
                        1 for i in plan.msgs if i.name == m.name and
                        i.lineno == m.lineno and i.filename == m.filename]):
                    return '%r is not recorded' % (x,)
        got = []
        for line in err.splitlines():
            m = re.match(r'^([^:]+):(\d+) ([EWHI]_[A-Z0-9_]+): .+$', line)
            if not m:
                return 'bad line on standard error: %r' % line
            if not m.group(3).startswith(('E_APP_', 'W_APP_')):
                got.append((m.group(3), int(m.group(2)) and m.group(1),
                            int(m.group(2))))
        # messages about the applications themselves are not predicted
        want = [(m.name, m.lineno and m.filename, m.lineno)
                for m in plan.msgs if not self.ignored(m.name, case['ignore'])
                and m.name != 'I_NOTIMPL_TEMPLATES']
        got = [g for g in got if g[0] != 'I_NOTIMPL_TEMPLATES']
        extra = [g for g in got if got.count(g) > want.count(g)]
        missing = [w for w in want if want.count(w) > got.count(w)]
        if extra or missing:
            return 'printed but not expected %r; expected but not printed ' \
                '%r' % (extra[:3], missing[:3])
        for line in err.splitlines():
            name = line.split(':')[1].split()[1]
            if self.ignored(name, case['ignore']):
                return '%s is ignored but printed' % name
        if bool(err) != bool(status) or status not in (0, 1):
            return 'exit status %r with %d messages' % (
                status, len(err.splitlines()))
        return None

    def nontrivial(self, case):
        return bool(case['a.conf'].strip())


LOADED = '''\
"""%s"""
import json
def main(args, envs):
    print('RAN ' + json.dumps([%r, list(args)]))
    return %r
'''


class Commands(Prop):
    id = 'C28'
    what = 'commands'
    rule = ('command directories with random valid and invalid names in the '
            'user directory, and random command lines; non-trivial: a command '
            'is given')
    keep = ('cmds', 'args')
    WORDS = ['foo', 'foo-bar', 'foo_bar', 'x1', '9', 'a', 'ls2', 'Foo', '_x',
             'foo.bar', '-x', 'dialplan-check', 'b' * 30, 'a--b', 'fo\u00f6',
             'foo bar', '..', 'main', 'modules-show']

    def fixed(self):
        out = []
        cmds = {w: 0 for w in self.WORDS if w != '..'}
        out.append({'cmds': cmds, 'args': ['ls']})
        for w in self.WORDS + ['', 'nope', 'ls', '../foo', 'foo/', 'foo\n',
                               '.', '/', 'foo\x00', '*']:
            out.append({'cmds': cmds, 'args': [w]})
            out.append({'cmds': {'foo': 3}, 'args': [w, 'x', '-y']})
        for args in ([], ['-V'], ['--version'], ['-h'], ['--nope'], ['--'],
                     ['-x', 'foo', 'foo', '-x'], ['foo', 'ls'],
                     ['foo', 'foo', 'foo'], ['--', 'foo'], ['-', 'foo']):
            for status in (0, 1, 2, 77, None, True):
                out.append({'cmds': {'foo': status}, 'args': args})
        return out

    def gen(self, r):
        cmds = {}
        for _ in range(r.choice((0, 1, 2, 5))):
            w = r.choice(self.WORDS)
            if r.random() < .4:
                w = ''.join(r.choice('ab0_-.A') for _ in range(
                    r.choice((1, 2, 3, 5))))
            if w not in ('.', '..'):
                cmds[w] = r.choice((0, 0, 1, 2, 5, 255, None))
        args = []
        for _ in range(r.choice((0, 1, 2, 3, 4))):
            args.append(r.choice(list(cmds) + ['-v', '--x', 'ls', 'nope', 'x',
                                               '', '-', 'foo']))
        return {'cmds': cmds, 'args': args}

    def nontrivial(self, case):
        return bool(case['args'])

    def check(self, case):
        cmds, args = case['cmds'], case['args']
        valid = {c for c in cmds if re.fullmatch('[a-z0-9][a-z0-9_-]*', c)
                 and c.isascii()}
        builtin = {f[:-3] for f in os.listdir(
            os.path.join(REPO, 'asterisklint', 'commands'))
            if f.endswith('.py') and f[0] != '_'}
        first = next((a for a in args if not a.startswith('-')), None)
        if first in builtin and first not in valid:
            return None
        if any('\0' in a for a in args):
            return None
        with scratch() as tmp:
            put(tmp, {'.asterisklint/asterisklint/commands/%s.py' % c:
                      (LOADED % ('help ' + c, c, s)).encode()
                      for c, s in cmds.items()})
            status, out, err = command(
                tmp, {'HOME': tmp, 'PYTHONDONTWRITEBYTECODE': '1'}, args)
        if 'Traceback' in err:
            return 'crash: ' + err[-300:]
        ran = [json.loads(i[4:]) for i in out.splitlines()
               if i.startswith('RAN ')]
        if first in valid and first != 'ls':
            rest = list(args)
            rest.remove(first)
            want = int(cmds[first] or 0)
            if ran != [[first, rest]]:
                return '%r ran %r, expected %r' % (args, ran, [[first, rest]])
            if status != want:
                return '%r exits with %r, expected %r' % (args, status, want)
            return None
        if ran:
            return '%r ran %r' % (args, ran)
        if first == 'ls':
            if status:
                return 'ls exits with %r' % status
            names = [i.split()[0] for i in out.splitlines()
                     if re.match(r'^  [^ ]', i)]
            want = sorted(valid | builtin | {'ls'})
            if 'ls' in valid:
                want = sorted(want + ['ls'])
            if sorted(names) != want:
                return 'ls lists %r, expected %r' % (sorted(names), want)
            return None
        if first is None and any(
                a in ('-h', '--help', '-V', '--version') for a in args):
            return None
        if not status:
            return '%r exits with 0' % (args,)
        if not err.strip():
            return '%r gives no error' % (args,)
        return None


class Version(Prop):
    id = 'C29'
    what = 'the selected version'
    rule = ('all orders of selecting a version, using it and selecting '
            'another one; non-trivial: all')
    keep = ('steps',)
    STEPS = ('v11', 'v13', None, 'apps', 'funcs', 'both', 'check')

    def fixed(self):
        import itertools
        out = []
        for n in (1, 2, 3):
            for t in itertools.product(self.STEPS[:6], repeat=n):
                if n < 3 or t[1] in ('apps', 'funcs', 'both'):
                    out.append({'steps': list(t)})
        return out

    def gen(self, r):
        return {'steps': [r.choice(self.STEPS)
                          for _ in range(r.choice((2, 3, 4, 6)))]}

    def check(self, case):
        steps = list(case['steps'])

        def run():
            try:
                from asterisklint.version import AsteriskVersion
                from asterisklint.application import App, AppLoader
                from asterisklint.varfun import FuncLoader
                from asterisklint.where import Where
                from asterisklint.defines import MessageDefManager
            except ImportError:
                return 98
            MessageDefManager.muted = True
            where = Where('x', 1, b'')
            current = None
            objects = {}

            def probe(kind, fmt, name):
                from asterisklint.defines import MessageDefManager
                MessageDefManager.reset()
                App(fmt % name, where)
                return not MessageDefManager.raised.get(kind)

            for s in steps:
                if s in ('v11', 'v13', None):
                    try:
                        # (another text each time, as from arguments)
                        AsteriskVersion(s and ''.join(list(s)))
                    except Exception as e:
                        if current is None or s is None or s == current:
                            print('selecting %r fails: %r' % (s, e))
                            return 1
                    else:
                        if current is None:
                            current = s or 'v13'
                        elif s not in (None, current):
                            print('selecting %r after %r is accepted' % (
                                s, current))
                            return 1
                    continue
                if s not in ('apps', 'funcs', 'both', 'check'):
                    continue
                current = current or 'v13'
                want = KNOWN[current]
                if s in ('apps', 'both', 'check'):
                    every = set(KNOWN['v11']['apps']) | \
                        set(KNOWN['v13']['apps'])
                    got = {n for n in every
                           if probe('E_APP_MISSING', '%s()', n)}
                    if got != set(want['apps']):
                        print('known applications differ: %r' % sorted(
                            got ^ set(want['apps']))[:5])
                        return 1
                    o = AppLoader()
                    if objects.setdefault('a', o) is not o:
                        print('applications are loaded twice')
                        return 1
                if s in ('funcs', 'both', 'check'):
                    every = set(KNOWN['v11']['funcs']) | \
                        set(KNOWN['v13']['funcs'])
                    every -= {'UNKNOWN'}
                    got = {n for n in every
                           if probe('E_FUNC_MISSING', 'NoOp(${%s()})', n)}
                    if got != set(want['funcs']) - {'UNKNOWN'}:
                        print('known functions differ: %r' % sorted(
                            got ^ set(want['funcs']))[:5])
                        return 1
                    o = FuncLoader()
                    if objects.setdefault('f', o) is not o:
                        print('functions are loaded twice')
                        return 1
            return 0

        with scratch() as tmp:
            status, out, err = forked(
                tmp, {'HOME': tmp, 'PYTHONDONTWRITEBYTECODE': '1'}, run)
        if status == 98:
            raise Undecided('version')
        if status:
            return (out + err)[-400:]
        return None


class Modules(DialplanProp):
    id = 'C30'
    what = 'the modules report'
    rule = ('random dialplans with known and unknown, nested applications '
            'and functions; the output of modules-show is compared with the '
            'specification, and so is the layout of random lists; non-trivial: '
            'at least one line')
    p_bad = .05
    p_head = .08
    sizes = (1, 2, 4, 7, 12, 30)
    keep = ('a.conf', 'layout', 'apps', 'funcs')

    def setup(self):
        self.apps = KNOWN['v13']['apps']
        self.funcs = KNOWN['v13']['funcs']
        self.low_apps = {n.lower(): n for n in self.apps}
        self.low_funcs = {n.lower(): n for n in self.funcs}

    def gen(self, r):
        if r.random() < .2:
            return {'layout': {what: {
                ''.join(r.choice('ABc_1') for _ in range(r.choice(
                    (1, 3, 8, 25, 49, 50, 51, 60)))): 'func_%s' % (
                        'x' * r.randrange(k))
                for _ in range(r.choice((0, 1, 2, 5, 12, 30)))}
                for what, k in (('apps', 3), ('funcs', 2))}}
        return super().gen(r)

    def nontrivial(self, case):
        return any(case['layout'].values()) if 'layout' in case else \
            super().nontrivial(case)

    def func(self, r, depth):
        name = r.choice(sorted(self.funcs)) if r.random() < .85 else \
            r.choice(('NOPE', 'FOO', 'FOO2', 'FO', 'unknownfunc'))
        if r.random() < .08:
            name = name.lower()
        arg = r.choice(('x', '', '${V}', 'a,b'))
        if r.random() < .35 and depth < 3:
            arg = self.func(r, depth + 1)
        return '${%s(%s)}' % (name, arg)

    def app(self, r, depth=0):
        if r.random() < .25 and depth < 3:
            return 'ExecIf(${C}?%s%s)' % (
                self.app(r, depth + 1),
                ':' + self.app(r, depth + 1) if r.random() < .5 else '')
        name = r.choice(sorted(self.apps)) if r.random() < .9 else \
            r.choice(('Nope', 'FooBar', 'Xyzzy', 'Foo', 'Nopes'))
        if r.random() < .08:
            name = name.lower()
        data = r.choice(('', 'a', 'a,b'))
        if r.random() < .5:
            data = r.choice(('', 'a', '$[1+', 'x,')) + self.func(r, 0)
            if data.startswith('$['):
                data += ']'
        if name.lower() == 'set' or r.random() < .1:
            name = 'Set'
            data = r.choice(('A', self.func(r, 1)[2:-1])) + '=' + data
        return '%s(%s)' % (name, data)

    def fixed(self):
        head = ('[general]', '[globals]', '[a]')
        out = [{'a.conf': self.data(head)}, {'a.conf': ''}]
        for names, fmt in ((sorted(self.apps), '%s()'),
                           (sorted(self.funcs), 'NoOp(${%s()})')):
            for k in range(0, len(names), 9):
                out.append({'a.conf': self.data(
                    head + ('exten => s,1,NoOp()',) + tuple(
                        'same => n,' + fmt % n for n in names[k:k + 9]))})
            out.append({'a.conf': self.data(
                head + ('exten => s,1,NoOp()',) + tuple(
                    'same => n,' + fmt % n for n in names))})
        return out

    def note(self, raw, apps, funcs):
        app = ref_app.split_app(raw)
        if app is None:
            if not raw.split('(', 1)[0].strip():
                apps.add('')
            return
        name, data = app
        apps.add(name.lower())
        self.note_data(data, funcs)
        if name.lower() == 'set':
            left, eq, _ = self.cut(data, '=')
            if eq and left and left[-1] == ')' and '(' in left:
                f = left[:left.index('(')]
                if not ref_app.dynamic(f):
                    funcs.add(ref_app.text(f))
        if name.lower() == 'execif':
            yes, no, old, _ = ref_app.branches(data)
            for b in (yes, no):
                if old is None and b:
                    # (A name with variables in it is not looked up.)
                    if not ref_app.dynamic(self.cut(b, '(')[0]):
                        self.note(ref_app.text(b), apps, funcs)

    @staticmethod
    def cut(toks, t):
        if t in toks:
            i = toks.index(t)
            return toks[:i], True, toks[i + 1:]
        return toks, False, []

    def note_data(self, toks, funcs):
        for t in toks:
            if len(t) > 1:
                inner = ref_app.tokens(t[2:-1])
                self.note_data(inner, funcs)
                if t[1] == '{' and '(' in inner:
                    f = inner[:inner.index('(')]
                    if not ref_app.dynamic(f):
                        funcs.add(ref_app.text(f))

    def check(self, case):
        if 'layout' in case:
            return self.layout(case['layout'])
        files = {k: s2b(v) for k, v in case.items()}
        plan = Plan(files, 'a.conf', lambda raw: 's')
        if any(not x.pat.raw for c in plan.contexts for x in c.exts):
            return None
        # (Whether what cannot be parsed was used is left open.)
        if not all(self.closed(raw, '{}') and self.closed(raw, '[]')
                   for _, raw in plan.apps):
            return None
        apps, funcs = set(), set()
        for _, raw in plan.apps:
            if 'SET(' in raw.upper().replace('SET(', '', 1) or \
                    'unknown' in raw.lower() or 'background' in raw.lower():
                return None
            self.note(raw, apps, funcs)
        with scratch() as tmp:
            put(tmp, files)
            status, out, err = command(
                tmp, {'HOME': tmp, 'PYTHONDONTWRITEBYTECODE': '1'},
                ['modules-show', '--func-odbc=', 'a.conf'])
        if 'Traceback' in err:
            return 'crash: ' + err[-300:]
        got = self.read(out)
        if isinstance(got, str):
            return got
        want_apps, want_funcs = {}, {}
        for n in apps:
            if n in self.low_apps:
                p = self.low_apps[n]
                want_apps.setdefault(self.apps[p], set()).add(p)
        for n in {f.lower() for f in funcs}:
            if n in self.low_funcs:
                p = self.low_funcs[n]
                want_funcs.setdefault(self.funcs[p], set()).add(p)
        for what, have, want in (('applications', got[0], want_apps),
                                 ('functions', got[1], want_funcs)):
            if {k: set(v) for k, v in have} != want:
                return '%s listed %r, expected %r' % (what, have, want)
            if [k for k, v in have] != sorted(want) or \
                    any(v != sorted(set(v), key=str.lower) for k, v in have):
                return '%s are not listed once and sorted: %r' % (what, have)
        loads = sorted((set(want_apps) | set(want_funcs)) - {'<builtin>'})
        if got[2] != loads:
            return 'load statements %r, expected %r' % (got[2], loads)
        missing = any(n not in self.low_apps for n in apps) or \
            any(f.lower() not in self.low_funcs for f in funcs)
        if bool(status) != missing:
            return 'exit status %r, %s unknown names' % (
                status, 'some' if missing else 'no')
        for what, want in (
                ('applications', {n or '(none)' for n in apps
                                  if n not in self.low_apps}),
                ('functions', {f for f in funcs
                               if f.lower() not in self.low_funcs})):
            have = self.unknown(out, what)
            if what == 'applications':
                have = have.lower()
            text = ''.join(want)
            if ',' in text or not (text.isascii() and text.isprintable()):
                continue
            if set(have.split(', ')) != (want or {''}):
                return 'unknown %s %r, expected %r' % (
                    what, have, sorted(want))
        return None

    @staticmethod
    def closed(raw, pair):
        depth = 0
        for c in raw:
            depth += (c == pair[0]) - (c == pair[1])
            if depth < 0:
                return False
        return not depth

    @staticmethod
    def unknown(out, what):
        lines = out.split('\n')
        head = '; WARNING: The following unknown %s were seen:' % what
        if head not in lines:
            return ''
        return lines[lines.index(head) + 1][4:]

    def layout(self, case):
        if not all(re.fullmatch('[ABc_1]+', n) and
                   re.fullmatch('func_x{0,9}', m)
                   for d in case.values() for n, m in d.items()):
            return None

        def run():
            import importlib
            from types import SimpleNamespace as NS
            main = importlib.import_module(
                'asterisklint.commands.modules-show').Main()
            loaders = []
            for what in ('apps', 'funcs'):
                items = sorted((NS(name=n, module=m)
                                for n, m in case[what].items()),
                               key=lambda i: i.name.lower())
                loaders.append(NS(**{
                    'used_' + what: items,
                    'used_modules': sorted({i.module for i in items})}))
            main.print_modules_used(*loaders)
            return 0

        with scratch() as tmp:
            status, out, err = forked(
                tmp, {'HOME': tmp, 'PYTHONDONTWRITEBYTECODE': '1'}, run)
        if status:
            raise Undecided('the report of ' + err[-200:])
        got = self.read(out)
        if isinstance(got, str):
            return got
        for have, what in zip(got, ('apps', 'funcs')):
            want = {}
            for n in sorted(case[what], key=str.lower):
                want.setdefault(case[what][n], []).append(n)
            if have != sorted(want.items()):
                return 'listed %r, expected %r' % (have, sorted(want.items()))
        return None

    @staticmethod
    def read(out):
        parts, cur, loads = [[], []], None, []
        for line in out.splitlines():
            if line.startswith('; Application'):
                cur = parts[0]
            elif line.startswith('; Function'):
                cur = parts[1]
            elif line.startswith('; modules.conf'):
                cur = None
            elif line.startswith('; WARNING'):
                cur = None
                break
            elif line.startswith('load => '):
                loads.append(line[8:].replace('.so', ''))
            elif cur is not None and line.startswith(';   '):
                mod, names = line[4:24].strip(), line[24:].strip()
                if len(line) > 24 and line[24] != ' ' or \
                        line[4:].split(None, 1)[0] != mod and mod:
                    mod, names = line[4:].split(None, 1)
                if mod:
                    cur.append((mod, []))
                if not cur:
                    return 'no module for %r' % line
                cur[-1][1].extend(
                    i.strip()[:-2] for i in names.split(',') if i.strip())
        return parts[0], parts[1], loads


ORDER = ('prefix', 'synopsis', 'dsn', 'escapecommas', 'mode', 'rowlimit',
         'readhandle', 'writehandle', 'readsql', 'writesql', 'insertsql',
         'read', 'write')


class FuncOdbc(FileProp):
    id = 'C26'
    what = 'func_odbc definitions'
    rule = ('random func_odbc configurations, parsed by FileFuncOdbcParser '
            'and compared with the specification, including the functions '
            'that are known afterwards; non-trivial: at least one context')
    modules = ('asterisklint/func_odbc.py',)
    keep = ('lines',)
    counter = 0
    names = ('E_CONF_KEY_*', 'W_CONF_KEY_LATE', 'W_ODBC_*', 'E_ODBC_NOSQL',
             'H_CONF_HAS_ARROW', 'E_CONF_CTX_MISSING')

    def fixed(self):
        import itertools
        out = []
        for n in (1, 2, 3):
            for t in itertools.product(
                    ('prefix=P', 'readsql=x;', 'write=', 'dsn => d',
                     'prefix=', 'nope=1'), repeat=n):
                out.append({'lines': ['[@A]'] + list(t)})
        for a, b in itertools.product(ORDER, repeat=2):
            out.append({'lines': ['[@A]', a + '=x', b + '=y']})
        for name in ('A', 'A_B', '_A', 'A_', 'A__B', 'a', 'A-B', '1', '',
                     'A B', '\u00c9', 'Ab', 'A_B_C', '\u0661', 'A\u00e9',
                     'A_1', '__', 'A.B'):
            out.append({'lines': ['[@%s]' % name, 'readsql=x']})
            out.append({'lines': ['[%s@]' % name, 'dsn=x']})
        # Every short name.
        names = [''.join(t) for n in (1, 2, 3) for t in itertools.product(
            'AZ09_az- .', repeat=n)]
        names += [''.join(t) for n in (4, 5) for t in itertools.product(
            'B5_', repeat=n)]
        for i in range(0, len(names), 80):
            out.append({'lines': ['[%s]' % n for n in names[i:i + 80]]})
        return out

    def gen(self, r):
        lines = []
        for _ in range(r.choice((1, 2, 4, 7, 12))):
            if r.random() < .25 or not lines and r.random() < .9:
                lines.append('[%s@%s]' % (
                    r.choice(('', 'A', 'A_', 'a', '_', 'A__')),
                    r.choice(('', 'B', '_B', 'b', '_', '-', '1'))))
                continue
            key = r.choice(ORDER) if r.random() < .85 else r.choice((
                'syntax', 'Prefix', 'sql', 'readsqls', 'x',
                r.choice(source_constants(*self.modules)[0])))
            value = r.choice(('x', 'SELECT 1', 'SELECT 1;', '', ';', 'a;;',
                              'x\\;', 'x\\; ', 'P', 'ODBC', 'x ; y', '\\;'))
            lines.append(key + r.choice(('=', '=', '=', ' => ')) + value)
        return {'lines': lines}

    def nontrivial(self, case):
        return any(i.startswith('[') for i in case['lines'])

    def check(self, case):
        FuncOdbc.counter += 1
        tag = 'Q%dQ' % FuncOdbc.counter
        lines = [i.replace('@', tag).replace('\n', '') for i in case['lines']]
        files = {'a.conf': ''.join(i + '\n' for i in lines).encode()}
        try:
            from asterisklint import FileFuncOdbcParser
        except ImportError as e:
            raise Undecided(str(e))
        try:
            with messages() as msgs:
                p = FileFuncOdbcParser(opener=MemFS(files))
                p.include('a.conf')
                got = [(c.name, [(v.variable, v.value) for v in c])
                       for c in p]
            known = self.known_funcs(tag, got)
        except Exception as e:
            return 'crash: ' + describe(e)
        contexts, want, reader = ref_file.read_config(files, 'a.conf')
        want = list(want)

        def say(name, where, *args, previous=None):
            want.append(Msg(name, where, args, previous))
        for e in reader.elements:
            if e.kind == 'ctx':
                break
            if e.kind == 'set' and e.arrow:
                say('H_CONF_HAS_ARROW', e.where)
        shape, defined = [], set()
        for c, vs in contexts:
            if not re.fullmatch('[A-Z0-9](_?[A-Z0-9])*', c.name):
                say('W_ODBC_BADTOKENS', c.where, c.name)
            kept = []
            for v in vs:
                if v.arrow:
                    say('H_CONF_HAS_ARROW', v.where)
                if v.variable not in ORDER:
                    say('E_CONF_KEY_INVALID', v.where, v.variable)
                    continue
                old = [k for k in kept if k.variable == v.variable]
                if old:
                    say('E_CONF_KEY_DUPE', v.where, v.variable,
                        previous=old[0].where)
                    continue
                if kept and ORDER.index(v.variable) < \
                        ORDER.index(kept[-1].variable):
                    say('W_CONF_KEY_LATE', v.where, v.variable)
                if v.variable in ('read', 'write'):
                    say('W_ODBC_LEGACY', v.where)
                if v.variable in ('read', 'write', 'readsql', 'writesql',
                                  'insertsql') and v.value.endswith(';'):
                    say('W_ODBC_TAILSEMI', v.where)
                kept.append(v)
            shape.append((c.name, [(v.variable, v.value) for v in kept]))
            keys = {v.variable: v.value for v in kept}
            if set(keys) & {'read', 'write', 'readsql', 'writesql'}:
                defined.add((keys.get('prefix') or 'ODBC') + '_' + c.name)
            else:
                say('E_ODBC_NOSQL', c.where)
        if got != shape:
            return 'parsed %r, expected %r' % (got, shape)
        lower = [d.lower() for d in defined]
        for name, is_known in known.items():
            if lower.count(name.lower()) > 1:
                continue
            if is_known != (name in defined):
                return 'function %r is %s' % (
                    name, 'known' if is_known else 'not known')
        return diff_msgs(msgs, want, self.names)

    def known_funcs(self, tag, contexts):
        """Which of the possible names does a dialplan know?"""
        from asterisklint.application import App
        from asterisklint.where import Where
        out = {}
        for name, variables in contexts:
            if not re.fullmatch('[A-Za-z0-9_.-]*', name) or tag not in name:
                continue
            prefixes = {v for k, v in variables if k == 'prefix'} | \
                {'ODBC', '', 'P'}
            for p in sorted(prefixes):
                f = p + '_' + name
                if not re.fullmatch('[A-Za-z0-9_.-]*', f):
                    continue
                with messages() as msgs:
                    App('NoOp(${%s()})' % f, Where('x', 1, b''))
                out[f] = not any(m.name in (
                    'E_FUNC_MISSING', 'E_FUNC_BAD_CASE') for m in msgs)
        return out


class Mutator(Prop):
    id = 'C27'
    as_is = ('issues', 'how', 'mode', 'fail', 'answer')
    what = 'file mutation'
    rule = ('random files, issues and failures, run in a scratch directory; '
            'non-trivial: at least one issue')
    keep = ('data', 'issues', 'how', 'mode', 'fail', 'answer')
    modules = ('asterisklint/helper/mutator.py',)

    def fixed(self):
        out = []
        for data in ('a\nb\nc\n', 'a\nb', 'a\r\nb\r\n', '\n\n\n', 'a',
                     'a\rb\n\x00\xff\n'):
            n = len(ref_file.split_lines(s2b(data)))
            for i in range(n):
                for how in ('plain', 'link', 'deeplink'):
                    for fail in (-1, 0, 1):
                        out.append({'data': data, 'issues': [i], 'how': how,
                                    'mode': 0o640, 'fail': fail})
            out.append({'data': data, 'issues': list(range(n)), 'how': 'plain',
                        'mode': 0o600, 'fail': n - 1})
            out.append({'data': data, 'issues': list(range(n)), 'how': 'plain',
                        'mode': 0o755, 'fail': -1})
        for answer in ('y', 'n', '', 'Y', 'yes', ' y', 'y ', 'y\r', 'y\t',
                       'yy', 'ye', 'N', 'no', 'ny', '\xff', '1', 'j'):
            out.append({'data': 'a\nb\n', 'issues': [1], 'how': 'plain',
                        'mode': 0o600, 'fail': -1, 'answer': answer})
        return out

    def gen(self, r):
        lines = [r.choice(('a', 'bb', '', '\xff', ' x', '\t', 'k=v', '\x00',
                           '\x0c', '\x1c', '\x85')) + r.choice(
                               ('\n', '\n', '\r\n', '\r', '\n\n'))
                 for _ in range(r.choice((1, 2, 4, 8, 20)))]
        data = ''.join(lines) + r.choice(('', 'tail'))
        n = len(ref_file.split_lines(s2b(data)))
        issues = sorted({r.randrange(n + 2) for _ in range(
            r.choice((1, 1, 2, 5)))})
        return {'data': data, 'issues': issues,
                'how': r.choice(('plain', 'link', 'deeplink', 'cwd')),
                'mode': r.choice((0o644, 0o600, 0o640, 0o755, 0o400, 0o666)),
                'fail': r.choice((-1, -1, -1, 0, 1, 2)),
                'answer': r.choice((None, None, 'y', ''.join(
                    r.choice('yYnes \t1') for _ in range(r.randrange(4)))))}

    def nontrivial(self, case):
        return bool(case['issues'])

    @staticmethod
    def change(line):
        return b'<' + line.rstrip(b'\r\n') + b'>' + \
            line[len(line.rstrip(b'\r\n')):]

    def check(self, case):
        try:
            from asterisklint.helper.mutator import FileMutatorBase
        except ImportError as e:
            raise Undecided(str(e))
        data, issues = s2b(case['data']), case['issues']
        if not issues or not data:
            return None

        class Issue:
            def __init__(self, lineno):
                self.lineno = lineno

        class Boom(Exception):
            pass
        change, fail = self.change, case['fail']

        class Mut(FileMutatorBase):
            calls = 0

            def process_issue(self, issue, inline, outfile):
                if self.calls == fail:
                    outfile.write(b'partial')
                    raise Boom()
                self.calls += 1
                outfile.write(change(inline))

        lines = ref_file.split_lines(data)
        hits = [i for i in issues if i < len(lines)]
        answer = case.get('answer')
        if answer not in (None, 'y'):
            hits = []               # no permission: nothing happens
        raises = 0 <= fail < len(hits)
        want = data if raises else b''.join(
            change(x) if i in hits else x for i, x in enumerate(lines))
        with scratch() as tmp:
            real = os.path.join(tmp, 'd', 'real.conf')
            put(tmp, {'d/real.conf': data, 'e/other.conf': b'other'})
            os.chmod(real, case['mode'])
            name = real
            if case['how'] == 'link':
                name = os.path.join(tmp, 'd', 'link.conf')
                os.symlink('real.conf', name)
            elif case['how'] == 'deeplink':
                mid = os.path.join(tmp, 'e', 'mid.conf')
                os.symlink('../d/real.conf', mid)
                name = os.path.join(tmp, 'e', 'link.conf')
                os.symlink('mid.conf', name)
            before = self.tree(tmp)
            inode = os.stat(real).st_ino
            old = os.getcwd()
            handle = open(real, 'rb')
            try:
                if case['how'] == 'cwd':
                    os.chdir(os.path.join(tmp, 'd'))
                    name = 'real.conf'
                else:
                    os.chdir(tmp)
                with contextlib.redirect_stdout(io.StringIO()):
                    try:
                        mut = Mut({name: [Issue(i) for i in issues]})
                        if answer is None:
                            mut.process()
                        else:
                            with mock.patch('builtins.input',
                                            lambda *a: answer):
                                mut.request_permission_and_process()
                    except Boom:
                        if not raises:
                            return 'fails'
                    except Exception as e:
                        return 'crash: ' + describe(e)
                    else:
                        if raises:
                            return 'a failure is hidden'
            finally:
                os.chdir(old)
                still = handle.read()
                handle.close()
            after = self.tree(tmp)
            if not raises and hits and still != data:
                return 'the file is changed in place'
            expect = dict(before)
            kind, mode, _ = expect['d/real.conf']
            expect['d/real.conf'] = (kind, mode, want)
            if after != expect:
                return 'files afterwards: %r, expected %r' % (
                    sorted(set(after.items()) - set(expect.items()))[:2],
                    sorted(set(expect.items()) - set(after.items()))[:2])
        return None

    @staticmethod
    def tree(root):
        out = {}
        for base, dirs, files in os.walk(root):
            for f in files:
                p = os.path.join(base, f)
                st = os.lstat(p)
                if stat.S_ISLNK(st.st_mode):
                    v = ('link', 0, os.readlink(p))
                else:
                    with open(p, 'rb') as fp:
                        v = ('file', stat.S_IMODE(st.st_mode), fp.read())
                out[os.path.relpath(p, root)] = v
        return out


# Where one odd character is put.
ODD = ('\u00b2', '\u0663', '\u00bd', '\u0130', '\u00df', '\x85', '\u2028',
       '\x1c', '\xa0', '\u0301', '\ufeff', '\x00', '\x7f', '\U0001d7d8',
       '\u2460', '\u00aa', '-', '-2', '+1', '_', '1_0', '\\', "'", '{', '}',
       '[', ']', '(', ')', '%', '{0}', '{', '${', '$[', '${}', '$[]', ' ')
PLACES = ('exten => @,1,NoOp()', 'exten => _@,1,NoOp()',
          'exten => _X@,1,NoOp()', 'exten => _[@],1,NoOp()',
          'exten => _[1-@],1,NoOp()', 'exten => _[@-9],1,NoOp()',
          'exten => s,@,NoOp()', 'exten => s,1@,NoOp()',
          'exten => s,n+@,NoOp()', 'exten => s,1(@),NoOp()',
          'exten => s,1(a)@,NoOp()', 'exten => s,1,@', 'exten => s,1,@()',
          'exten => s,1,NoOp(@)', 'exten => s,1,NoOp(${x:@})',
          'exten => s,1,NoOp(${x:1:@})', 'exten => s,1,NoOp(${x:@:1})',
          'exten => s,1,NoOp(${x:-@})', 'exten => s,1,NoOp(${x:1:-@})',
          'exten => s,1,NoOp(${@})', 'exten => s,1,NoOp(${@:1})',
          'exten => s,1,NoOp(${@()})', 'exten => s,1,NoOp(${CUT(@)})',
          'exten => s,1,NoOp(${CUT()@})', 'exten => s,1,NoOp($[@])',
          'exten => s,1,Set(@=1)', 'exten => s,1,Set(x=@)',
          'exten => s,1,Set(CDR(@)=@)', 'exten => s,1,Goto(@)',
          'exten => s,1,Goto(s,@)', 'exten => s,1,Goto(b,s,@)',
          'exten => s,1,Goto(@,s,1)', 'exten => s,1,GotoIf(@?@:@)',
          'exten => s,1,Gosub(s,1(@))', 'exten => s,1,Gosub(s,@(x))',
          'exten => s,1,ExecIf(1?@:@)', 'exten => s,1,ExecIf(${x}?NoOp(@))',
          'exten => s,1,VoiceMail(1,@)', 'exten => s,1,Originate(x,@,y)',
          'include => @', 'same => @,NoOp()', 'same => n(@),NoOp()', '@',
          '@=1', 'x=@', '@ => @', '[@]', '[b](@)', '[b]@', '#include @',
          '#@ b', '#@', '[@]\nreadsql=@', '[X]\n@=x', '[X]\nwrite=@;')


class Robust(DialplanProp):
    id = 'C32'
    what = 'no crash, no hang'
    rule = ('random files of every kind, fed to the configuration, dialplan '
            'and func_odbc parsers; non-trivial: any byte')
    keep = ('a.conf',)

    def setup(self):
        self.files = FileProp()
        self.vars = VarProp()
        self.odbc = FuncOdbc()
        self.modules_ = Modules()
        self.modules_.setup()

    def fixed(self):
        return [{'a.conf': s} for s in (
            '', '\n', '\x00', '[', '[]', '[]\n=', '\xff' * 50, '[a]\n' * 50,
            '[a]\nexten => s,1,' + '(' * 500, '[a]\nexten => _' + '[' * 99,
            '[a]\nexten => s,1,NoOp(' + '${' * 60 + ')',
            '[a]\nexten => s,1,NoOp(' + '${' * 60 + '}' * 60 + ')',
            '#include a.conf\n', '[a]\ninclude => a\nexten => s,1,Goto(x,9)',
            '[a\x00]\nreadsql=x\n')] + [
                {'a.conf': b2s(('[general]\n[globals]\n[a]\n' + p.replace(
                    '@', c) + '\n').encode('utf-8'))}
                for p in PLACES for c in ODD] + [
                {'a.conf': '\n'.join(
                    ['[general]', '[globals]', '[a]',
                     'exten => s,1,Goto(a,x,%s)' % prio] + lines) + '\n'}
                for lines in include_graphs() for prio in ('1', 'x')]

    def app_text(self, r):
        x = r.random()
        if x < .3:
            return self.modules_.app(r)
        if x < .5:
            return r.choice(('NoOp', 'Set', 'Verbose', 'GotoIf', 'ExecIf',
                             'Gosub', 'VoiceMail', 'Originate')) + '(' + \
                self.vars.some(r) + r.choice((')', ')', ''))
        if x < .6:
            return 'Set(%s=%s)' % (self.vars.some(r), self.vars.some(r))
        if x < .65:
            return self.vars.some(r)
        return DialplanProp.app(self, r)

    p_jump = .3

    def app(self, r):
        return self.app_text(r).replace('\n', '')

    def gen(self, r):
        x = r.random()
        if x < .3:
            case = {k: v for k, v in FileProp.gen(self.files, r).items()}
        elif x < .8:
            case = DialplanProp.gen(self, r)
        else:
            case = {'a.conf': '\n'.join(
                i.replace('@', 'A') for i in self.odbc.gen(r)['lines'])}
            case['a.conf'] = b2s(case['a.conf'].encode())
        if r.random() < .3:
            s = case['a.conf']
            for _ in range(r.choice((1, 1, 2, 5))):
                i = r.randrange(len(s) + 1)
                y = r.random()
                if y < .4:
                    s = s[:i] + s[i + r.choice((1, 1, 3)):]
                elif y < .6:
                    s = s[:i] + chr(r.randrange(256)) + s[i:]
                elif y < .8:
                    s = s[:i] + b2s(r.choice(ODD).encode('utf-8')) + s[i:]
                else:
                    s = s[:i] + r.choice('${}[]()=>,;"\\:\n-_') + s[i:]
            case['a.conf'] = s
        return case

    def check(self, case):
        files = {k: s2b(v) for k, v in case.items()}
        try:
            import asterisklint
            kinds = [asterisklint.FileConfigParser,
                     asterisklint.FileDialplanParser,
                     asterisklint.FileFuncOdbcParser]
        except (ImportError, AttributeError) as e:
            raise Undecided(str(e))
        if re.search(r'\d{4000}', case['a.conf']):
            return None
        for k in kinds:
            walking = False
            try:
                with messages():
                    p = k(opener=MemFS(files))
                    p.include('a.conf')
                    for item in p:
                        if hasattr(item, 'walk_jump_destinations'):
                            walking = True
                            item.walk_jump_destinations()
                            walking = False
                            item.format_as_dialplan_show()
            except RecursionError as e:
                if not walking or sum(
                        v.count('include') for v in case.values()) > 60:
                    return None     # (a long chain of includes)
                bad = self.crash(k.__name__, e)
                if bad:
                    return bad
            except Exception as e:
                bad = self.crash(k.__name__, e)
                if bad:
                    return bad
        return None

    def crash(self, name, e):
        return '%s: crash: %s' % (name, describe(e))


class Reports(Robust):
    id = 'C25'
    what = 'every report can be formatted'
    rule = ('random inputs as for C32; every message must have a position '
            'and format; non-trivial: any byte')

    def fixed(self):
        sections = ('general', 'globals', 'a', 'default')
        return super().fixed() + [
            {'a.conf': '[%s]\n%s[%s]\n%s[%s]\n%s[%s]\n%s' % (
                a, x, b, y, a, z, b, x)}
            for a in sections for b in sections
            for x, y, z in (('', '', ''), ('x=1\n', '', ''),
                            ('', 'x=1\nx=2\n', 'x=3\n'),
                            ('exten => s,1(l),A()\n exten => s,1(l),A()\n',
                             'exten => s,n(l),A()\n', 'readsql=a\n'))]

    def crash(self, name, e):
        """Only what fails in a message, or in what prints it."""
        import traceback
        while e is not None:
            last = traceback.extract_tb(e.__traceback__)[-1:]
            for frame in last:
                if os.path.basename(frame.filename) in (
                        'defines.py', 'harness.py', 'where.py'):
                    return '%s: crash: %s' % (name, describe(e))
            e = e.__cause__ or e.__context__
        return None


PROPS = [Messages, Commands, Version, Modules, FuncOdbc, Mutator, Robust,
         Reports]
