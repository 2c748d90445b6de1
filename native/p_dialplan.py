"""C10..C12, C22, C23, C31: dialplans."""
from . import ref_app
from .harness import (MemFS, Prop, Undecided, b2s, describe, diff_msgs,
                      messages, s2b, source_constants)
from .ref_dialplan import Plan

SOURCES = ('asterisklint/dialplan.py', 'asterisklint/app/vall/builtin.py',
           'asterisklint/app/vall/app_stack.py',
           'asterisklint/app/vall/app_exec.py', 'asterisklint/app/base.py')
INTERFACE = ('FileDialplanParser', 'walk_jump_destinations', 'contexts',
             'jump_destinations', 'general', 'globals', 'app', 'raw',
             'format_as_dialplan_show', 'includes')


def interface(e):
    name = getattr(e, 'name', None)
    return name in INTERFACE


def real_dialplan(files, main, walk=False):
    try:
        from asterisklint import FileDialplanParser
    except ImportError as e:
        raise Undecided(str(e))
    with messages() as msgs:
        parser = FileDialplanParser(opener=MemFS(files))
        parser.include(main)
        dialplan = next(iter(parser))
        if walk:
            del msgs[:]
            dialplan.walk_jump_destinations()
    return dialplan, msgs


def sample(raw):
    from asterisklint.pattern import Pattern
    return Pattern(raw, None).example


def spot(w):
    return (w.filename, w.lineno)


def shape(dialplan):
    return [(c.name, [
        (x.pattern.raw, x.prio, x.label or None, x.app.raw, spot(x.where))
        for x in c], [i.context_name for i in c.includes])
        for c in dialplan.contexts]


def spec_shape(plan):
    return [(c.name, [(x.pat.raw, x.prio, x.label, x.app, x.where)
                      for x in c.exts], c.includes) for c in plan.contexts]


def variables(ctx):
    return [(v.variable, v.value, spot(v.where)) for v in ctx]


def spec_variables(ctx):
    return [(v.variable, v.value, v.where)
            for v in (ctx['vars'] if ctx else [])]


def first_diff(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and \
            type(a) is type(b):
        for x, y in zip(a, b):
            if x != y:
                return first_diff(x, y)
        return '%d items, expected %d: %.200r' % (
            len(a), len(b), (a[len(b):] or b[len(a):])[0])
    return '%r, expected %r' % (a, b)


NAMES = ['a', 'b', 'c', 'a-in', 'general', 'globals', 'x', 'sub']
PATTERNS = ['s', 's', '1', '12', '123', '1-2', '_X', '_x', '_X.', '_[0-9]',
            '_[1-3]', '_[123]', '_N', '_Z!', '_!', '_.', '_12', 'i', 'h', 't',
            '_[1', '_[]', '_X-X', '_[13-5]x', 'abc', '_abc', '_1XX', '100',
            '_10X', '\u00e9', '_', '_[5-3]', '_12.', '']
PRIOS = ['1', '1', '1', 'n', 'n', 'n', 'n', '2', '3', '4', '0', '10', '01',
         '', 'hint', 'x', '-1', '1.5', ' 1', 'n ', 'N', 's', '\u0661',
         '\u00b2', '5']
LABELS = ['', '', '', '', '(a)', '(b)', '(lbl)', '(', '(a', '()', '(a)b',
          '((a))', '(a b)', '(1)']
APPS = ['NoOp()', 'NoOp()', 'Answer()', 'NoOp', 'Verbose(1,x,y)', '',
        'Set(A=1)', 'NoOp(a,b(c),d)', 'Dial(SIP/1)', 'Hangup()', 'Wait(']


def include_graphs():
    import itertools
    pairs = list(itertools.permutations('abc', 2))
    for n in range(1 << len(pairs)):
        lines = []
        for ctx in 'abc':
            if ctx != 'a':
                lines.append('[%s]' % ctx)
            if ctx == 'c':
                lines.append('exten => 5,1(lbl),X')
            lines.extend('include => ' + b for i, (a, b) in enumerate(pairs)
                         if a == ctx and n >> i & 1)
        yield lines


class DialplanProp(Prop):
    modules = SOURCES
    names = None
    rule = ('random dialplans (headers, extension, include and junk lines, '
            'reopened contexts, jumps), parsed by FileDialplanParser and '
            'compared with the executable specification; non-trivial: at '
            'least one line')
    p_jump = .05
    p_bad = .25
    p_head = .12
    sizes = (1, 2, 3, 4, 6, 9, 14)
    contexts = NAMES
    patterns = PATTERNS
    keep = ('a.conf',)

    def label(self, r):
        return r.choice(('a', 'b', 'lbl', 'c', '1', '2', '3', 'x', '', 'Lbl',
                         'A', 'lb', 'lbl2', 'lbl '))

    def target(self, r):
        """-> comma separated destination"""
        prio = r.choice(('1', '1', '2', '3', 'n', '9', '01', '${P}', 'a${P}',
                         '\u00b2', '\u0661',
                         '1${P}', '${P}${Q}', self.label(r), self.label(r),
                         self.label(r)))
        ext = r.choice(('s', '1', '12', '123', '1-2', '${EXTEN}', '${X}', 'i',
                        '1${EXTEN}', '${X}1', '${EXTEN:1}', '${EXTEN:1}x',
                        '${EXTEN:-1}', '${EXTEN:0:1}', '9${EXTEN:-3:2}', '999', 'h', '', '5', 'abc', '4',
                        '${EXTEN:1}x${X}', '${EXTEN}${EXTEN}', '$[1+1]'))
        ctx = r.choice(('a', 'b', 'c', 'sub', 'x', 'a-in', 'nope', '${C}',
                        'a${C}', '', 'general', 'globals', '${CONTEXT}'))
        n = r.choice((1, 1, 2, 2, 3, 3, 3, 3, 4))
        return ','.join((ctx, ext, prio, 'y')[:n] if n > 3 else
                        (ctx, ext, prio)[3 - n:])

    def jump(self, r, depth=0):
        x = r.randrange(10)
        cond = r.choice(('${C}', '$[1=${C}]', '1', '', '${A}${B}', '"${C}"',
                         ' ${C} '))
        if x < 3:
            return r.choice(('Goto', 'Goto', 'Goto', 'goto', ' Goto',
                             'Goto ')) + '(%s)' % self.target(r)
        if x < 5:
            t = self.target(r)
            if r.random() < .6:
                t += '(%s)' % r.choice(('', 'a', 'a,b', '${A},b', '(x)'))
            return 'Gosub(%s)' % t
        yes, no = self.target(r), self.target(r)
        sep = r.choice((':', ':', ':', '', '?', '::'))
        quest = '?' if r.random() < .93 else ','
        if x < 8:
            name = r.choice(('GotoIf', 'GotoIf', 'GosubIf'))
            if name == 'GosubIf':
                yes += r.choice(('', '(a,b)', '()'))
                no += r.choice(('', '(a)', '(a,b'))
            form = r.random()
            if form < .1:
                yes = ''
            elif form < .3:
                no = sep = ''
            return '%s(%s%s%s%s%s)' % (name, cond, quest, yes, sep, no)
        if depth > 1:
            return 'NoOp()'
        yes, no = self.jump(r, depth + 1), self.jump(r, depth + 1)
        if r.random() < .4:
            sep = no = ''
        return 'ExecIf(%s%s%s%s%s)' % (cond, quest, yes, sep, no)

    def app(self, r):
        if r.random() < self.p_jump:
            return self.jump(r)
        if r.random() < .03:
            return r.choice(source_constants(*self.modules)[0] or [
                'a']).replace('\n', '')
        return r.choice(APPS)

    def line(self, r):
        if r.random() < self.p_head:
            return '[%s]' % r.choice(self.contexts)
        x = r.random()
        bad = r.random() < self.p_bad
        arrow = '=>' if r.random() < .04 else ' = ' if r.random() < .04 \
            else ' => '
        prio = r.choice(PRIOS if bad else ('1', 'n', 'n', '2', '3'))
        label = r.choice(LABELS if bad else ('', '', '(a)', '(b)', '(lbl)'))
        app = self.app(r)
        comma = ',' if r.random() < .97 else ''
        if x < .55:
            return 'exten%s%s,%s%s%s%s' % (
                arrow, r.choice(self.patterns), prio, label, comma, app)
        if x < .85:
            return 'same%s%s%s%s%s' % (arrow, prio, label, comma, app)
        if x < .93:
            return 'include%s%s' % (arrow, r.choice(self.contexts))
        return r.choice((
            'switch => x', 'ignorepat => 9', 'exten => 1', 'exten =>', 'same',
            'key=value', 'foo => bar', 'Exten => 1,1,NoOp()', 'junk', '',
            '; c', 'same =>', 'exten => 1,1', 'exten => 1,n', 'include =>',
            'exten => _[1,1,NoOp()', 'exten => 1,hint,SIP/1', 'hint => 1',
            'exten => 1,hint(a),SIP/1', 'exten => 1,1(a', 'a=b=c',
            'switch = x', 'ignorepat=9', 'include=b', 'exten=s,1,NoOp()'))

    def gen(self, r):
        lines = []
        if r.random() < .8:
            lines = ['[general]', '[globals]', '[a]']
        for _ in range(r.choice(self.sizes)):
            lines.append(self.line(r))
        case = {'a.conf': self.data(lines)}
        if r.random() < .1:
            lines.insert(r.randrange(len(lines) + 1), '#include b.conf')
            case = {'a.conf': self.data(lines), 'b.conf': self.data(
                [self.line(r) for _ in range(r.choice((1, 2, 4)))])}
        return case

    @staticmethod
    def data(lines):
        return b2s(''.join(i + '\n' for i in lines).encode('utf-8'))

    def nontrivial(self, case):
        return bool(case['a.conf'].strip())

    walk = False

    def check(self, case):
        files = {k: s2b(v) for k, v in case.items()}
        try:
            real = real_dialplan(files, 'a.conf', self.walk)
        except Undecided:
            raise
        except Exception as e:
            if interface(e):
                raise Undecided(describe(e))
            return 'crash: ' + describe(e)
        plan = Plan(files, 'a.conf', sample)
        if any(not x.pat.raw for c in plan.contexts for x in c.exts):
            return None
        try:
            return self.compare(real[0], real[1], plan)
        except AttributeError as e:
            if interface(e):
                raise Undecided(describe(e))
            raise

    def compare(self, dialplan, msgs, plan):
        raise NotImplementedError

    def compare_msgs(self, msgs, plan):
        def norm(ms):
            for m in ms:
                if m.lineno == 0:
                    m.filename = None
            return ms
        return diff_msgs(norm(msgs), norm(plan.msgs), self.names)

    def compare_shape(self, dialplan, plan):
        a, b = shape(dialplan), spec_shape(plan)
        if a != b:
            return 'the parsed dialplan differs: ' + first_diff(a, b)
        return None


class Lines(DialplanProp):
    id = 'C10'
    what = 'dialplan lines'
    names = ('E_DP_PRIO_INVALID', 'E_DP_PRIO_MISSING', 'E_DP_PAT_INVALID',
             'E_DP_LABEL_INVALID', 'I_NOTIMPL_*', 'E_CONF_KEY_INVALID',
             'H_CONF_NO_ARROW')
    p_bad = .7

    def fixed(self):
        out = []
        for pat in PATTERNS + ['1(2', 'a)b', ' 1']:
            body = ['[a]', 'exten => 9,1,NoOp()']
            for p in PRIOS:
                for lab in ('', '(a)', '(a'):
                    body.append('exten => %s,%s%s,NoOp(a,b)' % (pat, p, lab))
            out.append({'a.conf': self.data(body)})
        for p in PRIOS:
            body = ['[a]', 'exten => 9,1,NoOp()']
            for lab in LABELS:
                for tail in ('', ',', ',NoOp', ',NoOp(),x', ',a(b', ' ,x'):
                    body.append('same => %s%s%s' % (p, lab, tail))
                    body.append('exten => 1,%s%s%s' % (p, lab, tail))
            out.append({'a.conf': self.data(body)})
        return out

    def compare(self, dialplan, msgs, plan):
        names = self.names
        for m in list(msgs) + list(plan.msgs):
            if m.name == 'I_NOTIMPL_TEMPLATES':
                m.name = '-'
        return self.compare_shape(dialplan, plan) or \
            diff_msgs(msgs, plan.msgs, names)


class Priorities(DialplanProp):
    id = 'C11'
    what = 'priorities, labels, duplicates'
    names = ('E_DP_PRIO_*', 'E_DP_LABEL_DUPE', 'E_DP_PAT_MISSING',
             'W_DP_PRIO_BADORDER')
    p_bad = .1
    sizes = (2, 3, 5, 8, 12, 20)
    patterns = ['s', '1', '12', '_X', '_x', '_[0-9]', '_12', '1-2', '_X.',
                '_[13-5]', '_[3-51]']
    contexts = ('a', 'b', 'a', 'b', 'general', 'globals')

    def fixed(self):
        import itertools
        out = []
        lines = ('exten => s,1,A', 'exten => s,n(x),A', 'exten => 1,2,A',
                 'same => n(x),A', 'same => 3,A', '[b]', '[a]')
        for n in (1, 2, 3, 4):
            for t in itertools.product(lines, repeat=n):
                out.append({'a.conf': self.data(
                    ('[general]', '[globals]', '[a]') + t)})
        return out

    def compare(self, dialplan, msgs, plan):
        return self.compare_shape(dialplan, plan) or \
            self.compare_msgs(msgs, plan)


class Merge(DialplanProp):
    id = 'C12'
    what = 'contexts, general and globals'
    names = ('W_CONF_CTX_DUPE', 'E_DP_GLOBALS_DUPE', 'H_DP_*',
             'E_CONF_CTX_MISSING', 'W_DP_PRIO_BADORDER', 'E_DP_PRIO_MISSING',
             'E_DP_PRIO_DUPE')
    p_head = .45
    p_bad = .05
    contexts = ('general', 'globals', 'a', 'b', 'c', 'General', 'a', '', 'A',
                'B ', 'b-', '_a', 'Globals', 'aa', '\xc3\xa4', '\xc3\x84')

    def gen(self, r):
        case = super().gen(r)
        if r.random() < .6:
            case['a.conf'] = self.data(
                [self.line(r) for _ in range(r.choice(self.sizes))])
            case.pop('b.conf', None)
        return case

    def line(self, r):
        if r.random() < .2:
            return r.choice(('k=1', 'j=2', 'clearglobalvars=no', 'X => 1'))
        return super().line(r)

    def fixed(self):
        import itertools
        out = []
        lines = ('[general]', '[globals]', '[a]', '[b]', 'k=1',
                 'exten => s,1,A')
        for n in (1, 2, 3, 4):
            for t in itertools.product(lines, repeat=n):
                out.append({'a.conf': self.data(t)})
        for a, b in itertools.permutations(
                ('a', 'A', 'a-', 'aa', '_a', 'General', 'GLOBALS', '\xe4',
                 ' a', 'a ', ' general', 'general ', ' globals', 'globals ',
                 'generals', 'globals-', '\tgeneral', 'global',
                 '\xc3\xa4', '\xc3\x84', 'a b', 'ab'), 2):
            out.append({'a.conf': self.data(
                ['[general]', '[globals]', '[%s]' % a, 'exten => s,1,A',
                 '[%s]' % b, 'exten => s,n,A', '[%s]' % a,
                 'exten => 1,1,A'])})
        lines = ('[a]', '[b]', 'exten => s,1,A', 'exten => s,n,A',
                 'exten => 1,n,A', 'same => n,A')
        for n in (2, 3, 4):
            for t in itertools.product(lines, repeat=n):
                out.append({'a.conf': self.data(
                    ('[general]', '[globals]', '[a]', 'exten => s,1,B') + t)})
        for t in itertools.product(('[general]', '[globals]', '[a]'),
                                   repeat=5):
            out.append({'a.conf': self.data(
                j for i, x in enumerate(t) for j in (x, 'k%d=1' % i))})
        return out

    def compare(self, dialplan, msgs, plan):
        bad = self.compare_shape(dialplan, plan)
        if bad:
            return bad
        for name in ('general', 'globals'):
            a = variables(getattr(dialplan, name))
            b = spec_variables(getattr(plan, name))
            if a != b:
                return '[%s] holds %r, expected %r' % (name, a, b)
        return self.compare_msgs(msgs, plan)


def show(x):
    return x if isinstance(x, (int, str)) else ['dynamic', str(x)]


def spec_show(x):
    return ['dynamic', ref_app.text(x)] if isinstance(x, list) else x


class Jumps(DialplanProp):
    id = 'C22'
    what = 'jump destinations'
    names = ('E_APP_ARG_MANY',)
    p_jump = .9
    p_bad = .03
    sizes = (1, 2, 3, 5)
    patterns = ['s', '1', '_X', '_[2-5]X.', '1-2', '_9!', '_X[ab]', '\u00e9']
    contexts = ('a', 'b', 'sub')

    def fixed(self):
        out = []
        for app in ('Goto(%s)', 'Gosub(%s)', 'Gosub(%s(a,b))',
                    'GotoIf(${C}?%s)', 'GotoIf(${C}?%s:x)',
                    'GotoIf(${C}?x:%s)', 'GotoIf(${C}?:%s)',
                    'GosubIf(${C}?%s:%s)', 'GosubIf(${C}?%s(a):%s(b,c))',
                    'ExecIf(${C}?Goto(%s))', 'ExecIf(${C}?NoOp():Goto(%s))',
                    'ExecIf(${C}?GotoIf(${D}?%s:7):Gosub(%s))',
                    'GotoIf(${C},%s)', 'Goto(%s'):
            for ctx in ('b', '${X}', ''):
                for ext in ('12', '${EXTEN}', '${Y}', '', '${EXTEN}0'):
                    for prio in ('1', 'lbl', '${P}', 'n', '', '\u0661',
                                 '\u00b2', '1\u00b2', '-1', '1.0', ' 1'):
                        for t in (prio, ext + ',' + prio,
                                  ctx + ',' + ext + ',' + prio,
                                  ctx + ',' + ext + ',' + prio + ',z'):
                            out.append(app.replace('%s', t))
        out = sorted(set(out))
        cases = []
        for i in range(0, len(out), 30):
            cases.append({'a.conf': self.data(
                ['[general]', '[globals]', '[a]', 'exten => _2X,1,NoOp()'] +
                ['same => n,' + a for a in out[i:i + 30]])})
        return cases

    def compare(self, dialplan, msgs, plan):
        if any(m.name.startswith(('E_VAR_SUBSTR', 'E_FUNC_')) for m in msgs):
            return None     # parts of what was written are dropped: see C17
        a = [tuple(map(show, d[:3])) + (spot(d[3]),)
             for d in dialplan.jump_destinations]
        b = [tuple(map(spec_show, d[:3])) + (d[3],) for d in plan.jumps]
        if a != b:
            return 'jump destinations differ: ' + first_diff(a, b)
        many = sorted(m.lineno for m in msgs if m.name == 'E_APP_ARG_MANY' and
                      dict.fromkeys(ref_app.JUMPS.values()).keys() &
                      {i for i in m.args})
        want = [w[1] for w, app in plan.apps
                for _ in range(ref_app.jumps(app)[1])]
        if many != sorted(want):
            return 'too many arguments are reported at lines %r, expected ' \
                '%r' % (many, sorted(want))
        return None


class Walk(DialplanProp):
    id = 'C23'
    what = 'jumps are resolved'
    names = ('E_DP_GOTO_*', 'W_DP_GOTO_*')
    walk = True
    p_jump = .45
    p_bad = .02
    p_head = .2
    sizes = (2, 4, 6, 10, 16)
    contexts = ('a', 'b', 'c', 'sub', 'a', 'b')
    patterns = ['s', '1', '12', '123', '_X', '_X.', '_1!', 'i', '_[2-4]', 'h',
                '_1X', 'abc', '_.', '_!', '1-2']

    def fixed(self):
        def plan(*lines):
            return {'a.conf': self.data(
                ('[general]', '[globals]') + lines)}
        out = [
            plan('[a]', 'exten => s,1,Goto(b,1,1)', 'include => b', '[b]',
                 'include => a'),
            plan('[a]', 'exten => s,1,Goto(a,5,1)', '[b]', 'exten => 5,1,X'),
            plan('[a]', 'exten => s,1,Goto(a,5,1)', 'include => b', '[b]',
                 'include => c', '[c]', 'exten => _X,1,X'),
            plan('[a]', 'exten => s,1,Goto(a,5,2)', 'include => b', '[b]',
                 'exten => i,1,X'),
            plan('[a]', 'exten => s,1,Goto(a,5,lbl)', 'include => b', '[b]',
                 'exten => i,1(lbl),X'),
            plan('[a]', 'exten => s,1,Goto(${X},5,lbl)', '[b]',
                 'exten => i,1(lbl),X'),
            plan('[a]', 'exten => s,1,Goto(b,${X},lbl)', '[b]',
                 'exten => 1,1,X', '[c]', 'exten => 1,1(lbl),X'),
        ]
        n = 60
        out.append(plan(*(['[a]', 'exten => s,1,Goto(c0,x,1)'] + [
            j for i in range(n) for j in ('[c%d]' % i, 'include => c%d' % (
                (i + 1) % n), 'include => c%d' % ((i * 7) % n))])))
        for ext in ('1', '12', '123', 's', '9', 'i', '${X}', '${EXTEN}'):
            for prio in ('1', '2', '3', 'lbl', 'x', '${P}', 'Lbl', 'X', 'lb',
                         'lbl2', ' lbl', 'lbl ', '(lbl)', 'lbl${P}'):
                out.append(plan(
                    '[a]', 'exten => s,1,Goto(b,%s,%s)' % (ext, prio), '[b]',
                    'exten => _1.,1,X', 'exten => _1X,1,X', ' same => 2(lbl),X',
                    'exten => 123,1(x),X', 'include => c', '[c]',
                    'exten => _[1-9],1,X', 'exten => 12,3,X'))
        # Names and extensions in another case.
        for ext in ('ABC', 'Abc', 'abc', 'a-bc', 'S', 's', 'I', 'i'):
            for ctx in ('b', 'B', 'bb', ' b', 'b '):
                out.append(plan(
                    '[a]', 'exten => s,1,Goto(%s,%s,1)' % (ctx, ext), '[b]',
                    'exten => abc,1,X', 'exten => s,1,X', '[B]',
                    'exten => ABC,1,X'))
        # All ways in which three contexts can include each other.
        for lines in include_graphs():
            for ext in ('x', 'i', '5', '5,lbl', '5,nope'):
                out.append(plan('[a]', 'exten => s,1,Goto(a,%s%s)' % (
                    ext, '' if ',' in ext else ',1'), *lines))
        return out

    def compare(self, dialplan, msgs, plan):
        if any(m.name.startswith(('E_VAR_SUBSTR', 'E_FUNC_')) for m in msgs):
            return None     # parts of what was written are dropped: see C17
        # an empty label is reported where it is used
        return diff_msgs([m for m in msgs if '' not in m.args],
                         [m for m in plan.walk() if '' not in m.args],
                         self.names)


class Listing(DialplanProp):
    id = 'C31'
    what = 'the dialplan listing'
    p_bad = .05
    p_head = .15
    p_jump = .1
    sizes = (1, 3, 6, 12, 20)

    def fixed(self):
        return [
            {'a.conf': self.data(('[a]', 'include => b', 'exten => 2,1(x),A',
                                  'exten => 1,1,B()', 'exten => 2,2(y),C(',
                                  'exten => 2,n,D(a)b', 'include => c'))},
            {'a.conf': self.data(('[a]', '[b]', '[c]', '[a]'))},
            {'a.conf': ''},
        ]

    def compare(self, dialplan, msgs, plan):
        for reverse in (True, False):
            a = dialplan.format_as_dialplan_show(reverse=reverse)
            b = plan.listing(reverse)
            if a != b:
                return 'the listing differs: ' + first_diff(
                    a.split('\n'), b.split('\n'))
        return None


PROPS = [Lines, Priorities, Merge, Jumps, Walk, Listing]
