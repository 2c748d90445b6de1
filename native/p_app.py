"""C21: argument counts, options and conditions."""
from . import ref_app
from .harness import messages, source_constants
from .p_var import VarProp, api

# name: minimum, maximum, {position: option letters}
DECLARED = {
    'Milliwatt': (None, 1, {0: 'o'}),
    'VoiceMail': (1, 2, {1: 'bdgsuUP'}),
    'Originate': (3, 6, {}),
    'Goto': (1, 3, {}),
    'Gosub': (1, 3, {}),
}
CONDITIONAL = {'GotoIf': True, 'GosubIf': True, 'ExecIf': True,
               'GotoIfTime': False, 'ExecIfTime': False}
NAMES = {n.lower(): n for n in list(DECLARED) + list(CONDITIONAL)}


def expected(raw):
    app = ref_app.split_app(raw)
    if app is None:
        return []
    name = NAMES.get(app[0].lower())
    data = app[1]
    out = []
    if name in DECLARED:
        least, most, options = DECLARED[name]
        args = ref_app.separate(data, ',', False)
        if least is not None and (
                len(args) < least or least == 1 and args == [[]]):
            out.append('E_APP_ARG_FEW')
        elif len(args) > most:
            out.append('E_APP_ARG_MANY')
        for i, letters in options.items():
            if i < len(args):
                plain = [t for t in args[i] if len(t) == 1]
                if set(plain) - set(letters):
                    out.append('E_APP_ARG_BADOPT')
                if len(plain) != len(set(plain)):
                    out.append('E_APP_ARG_DUPEOPT')
        if name == 'Originate' and len(args) > 1 and \
                ref_app.text(args[1]) not in ('app', 'exten'):
            out.append('E_APP_ARG_BADOPT')
        if len(args) == 1 and '|' in args[0]:
            out.append('E_APP_ARG_PIPEDELIM')
    elif name in CONDITIONAL:
        yes, no, old, notes = ref_app.branches(data)
        out.extend(notes)
        cond = ref_app.separate(data, '?', True)[0] if old is None else \
            ref_app.separate(data, ',', False)[0]
        while cond and len(cond[0]) == 1 and cond[0].isspace():
            cond = cond[1:]
        while cond and len(cond[-1]) == 1 and cond[-1].isspace():
            cond = cond[:-1]
        if not cond:
            out.append('E_APP_ARG_IFEMPTY')
        elif CONDITIONAL[name] and any(len(t) == 1 for t in cond):
            out.append('E_APP_ARG_IFCONST')
        if name == 'ExecIf' and old is None:
            for b in (yes, no):
                if b and len(b[0]) == 1:
                    out.extend(expected(ref_app.text(b)))
        if name == 'GosubIf':
            for a in ([old] if old else
                      [ref_app.separate(b, ',', True)
                       for b in (yes, no) if b]):
                if len(a) > 3:
                    out.append('E_APP_ARG_MANY')
    return out


class Arguments(VarProp):
    id = 'C21'
    what = 'argument counts and options'
    rule = ('applications with declared arguments and conditions, with random '
            'argument lists; non-trivial: has an argument')
    modules = ('asterisklint/app/base.py',
               'asterisklint/app/vall/app_voicemail.py',
               'asterisklint/app/vall/app_originate.py',
               'asterisklint/app/vall/app_milliwatt.py')
    names = ('E_APP_ARG_FEW', 'E_APP_ARG_MANY', 'E_APP_ARG_BADOPT',
             'E_APP_ARG_DUPEOPT', 'E_APP_ARG_PIPEDELIM', 'E_APP_ARG_IFCONST',
             'E_APP_ARG_IFEMPTY', 'E_APP_ARG_IFSTYLE')

    def fixed(self):
        out = []
        for app in NAMES.values():
            for n in range(0, 9):
                for a in ('', 'a', '${a}', 'a|b', '(a,b)', '"a,b"'):
                    out.append('%s(%s)' % (app, ','.join([a] * n)))
            out.append(app)
        for c in map(chr, range(33, 127)):
            if c not in '(,)"\\[]':
                for app in ('Milliwatt(%s)', 'VoiceMail(1,%s)',
                            'VoiceMail(1,b%sb)', 'VoiceMail(1,b%s${x}d)',
                            'Milliwatt(o%s)', 'Originate(a,%s,b)'):
                    out.append(app % c)
        for app in CONDITIONAL:
            for cond in ('', ' ', '1', '${a}', ' ${a} ', '$[1]', '${a}x',
                         '${a} ${b}', '"${a}"', '""', '"1"', '\\ ', '\t',
                         '${a}${b}', '(${a})', '[${a}?]', '"?"'):
                for rest in ('', '?', '?1', '?1:', '?1:2', '?1:2:3', '?:',
                             '?1?2', ',1', ',1,2', '|1', '?a,b,c,d:e,f,g,h',
                             ':1', '?:2', '?"a?b"', '?(a:b):c'):
                    out.append('%s(%s%s)' % (app, cond, rest))
        for t in ('app', 'exten', 'App', 'ap', 'apps', '', 'appexten', ' app'):
            for tail in ('', ',a', ',a,b,c,d', ',a,b,c,d,e'):
                out.append('Originate(x,%s%s)' % (t, tail))
        return [{'s': s} for s in out]

    def data(self, r):
        out = ''
        for _ in range(r.choice((0, 1, 2, 4, 7, 11))):
            out += r.choice((',', ',', ',', 'a', '${a}', '$[1]', '?', ':', '|',
                             'b', 'd', 'g', 's', 'u', 'U', 'P', 'o', '(', ')',
                             '"', '\\', '[', ']', ' ', 'app', 'exten', '1',
                             r.choice(source_constants(*self.modules)[0])))
        return out

    def gen(self, r, depth=0):
        name = r.choice(sorted(NAMES.values()))
        if r.random() < .1:
            name = name.swapcase()
        data = self.data(r)
        if name in CONDITIONAL:
            act = [self.gen(r, depth + 1)['s'] if r.random() < .5 and
                   depth < 2 else self.data(r) for _ in range(2)]
            data = r.choice(('${a}', '$[1]', '', '1', ' ${a}', '"${b}"',
                             data)) + r.choice(('?', '?', '?', ',', '')) + \
                act[0] + r.choice((':', ':', '')) + act[1]
        return {'s': '%s(%s)' % (name, data.replace('\n', ''))}

    def nontrivial(self, case):
        return '(' in case['s'] and '()' not in case['s']

    def compare(self, case):
        _, _, _, where, App, _ = api()
        with messages() as msgs:
            App(case['s'], where)
        got = sorted(m.name for m in msgs if m.name in self.names)
        want = sorted(expected(case['s']))
        if got != want:
            return '%s gives %r, expected %r' % (case['s'], got, want)
        return None


PROPS = [Arguments]
