"""C16..C20: variables, arguments, balance, names."""
import json
import os
import re

from . import ref_app
from .harness import (REPO, MemFS, Prop, Undecided, describe, diff_msgs, messages,
                      source_constants)

SOURCES = ('asterisklint/varfun.py', 'asterisklint/variable.py',
           'asterisklint/app/base.py', 'asterisklint/application.py',
           'asterisklint/function.py', 'asterisklint/expression.py')
KNOWN = json.load(open(os.path.join(os.path.dirname(__file__),
                                    'known.json')))
LEGAL = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_')


def api():
    try:
        from asterisklint.varfun import VarLoader
        from asterisklint.varfun import VarParseError
        from asterisklint.variable import Var
        from asterisklint.where import Where
        from asterisklint.application import App
        from asterisklint.app.base import AppBase
    except ImportError as e:
        raise Undecided(str(e))
    if not hasattr(VarLoader(), 'parse_variables'):
        raise Undecided('parse_variables')
    return VarLoader, VarParseError, Var, Where('a.conf', 1, b''), App, AppBase


def parse(text):
    """-> (structure or None when it does not parse, messages)"""
    VarLoader, VarParseError, Var, where, App, AppBase = api()
    with messages() as msgs:
        try:
            data = VarLoader().parse_variables(text, where)
        except VarParseError:
            data = None
    return data, msgs


def spec_parse(text):
    try:
        return ref_app.tokens(text)
    except ref_app.Unparsable:
        return None


def numbers(text):
    """Integers in slices may be normalised."""
    return re.sub(r':(-?\d+)', lambda m: ':%d' % int(m.group(1)), text)


def flat(data):
    """The parts of a parsed structure."""
    if isinstance(data, str):
        return list(data)
    if isinstance(data, list):
        return [j for i in data for j in flat(i)]
    return [i if isinstance(i, str) else numbers(str(i)) for i in data]


def norm(toks):
    return [numbers(t) for t in toks]


CHARS = list('ab1_xX:=()[]{}"\'\\,;?|&$ -09') + [
    '\u00e9', '${', '$[', '}', ']', '$$', '\u0661', '{', '[', '(', ')']
NAMES = ['a', 'FOO', 'x1', 'a_b', '', '1', 'a b', 'a-b', '\u00e9', 'A.B',
         '\u0661', 'EXTEN', '_', 'a\u00b5', 'ABC', 'a/b']
OFFSETS = ['0', '1', '-1', '2', '-2', '-3', '3', '', 'x', '1x', '-', '--1',
           '+1', ' 1', '00', '-0', '\u0661', '\u00b2', '-\u00b2', '10', '-10', '1.0',
           '${n}', '-${n}', '$[1+1]', '${a}${b}']
FUNCS = ['CALLERID', 'LEN', 'INC', 'DEC', 'inc', 'callerid', 'NOPE', 'CDR',
         'IF', 'MATH', 'Len', 'SET', '']


class VarProp(Prop):
    modules = SOURCES
    rule = ('random texts with nested variables, functions, slices, '
            'expressions and stray brackets; non-trivial: holds a "$"')
    keep = ('s',)
    p_noise = .2

    def var(self, r, depth):
        x = r.random()
        inner = ''
        if x < .25:
            return '$[%s]' % self.some(r, depth + 1)
        if x < .45:
            inner = r.choice(NAMES)
        elif x < .75:
            name = r.choice(NAMES) if r.random() < .8 else \
                self.var(r, depth + 1) if depth < 3 else 'a'
            inner = name + ':' + r.choice(OFFSETS)
            if r.random() < .6:
                inner += ':' + r.choice(OFFSETS)
            if r.random() < .08:
                inner += ':' + r.choice(OFFSETS)
        elif x < .92:
            inner = '%s(%s)' % (r.choice(FUNCS), self.some(r, depth + 1)
                                if r.random() < .5 else r.choice(NAMES))
            if r.random() < .35:
                inner += r.choice(('', '', '', 'x', ')')) + ':' + \
                    r.choice(OFFSETS)
                if r.random() < .5:
                    inner += ':' + r.choice(OFFSETS)
            elif r.random() < .1:
                inner += r.choice(('x', ')', '(', ':', '::', '${a}'))
            if r.random() < .05:
                inner = inner.replace(')', '')
        else:
            inner = self.some(r, depth + 1)
        return '${%s}' % inner

    def some(self, r, depth=0):
        out = ''
        for _ in range(r.choice((0, 1, 1, 2, 3, 5) if depth else
                                (1, 1, 2, 3, 5, 8))):
            x = r.random()
            if x < .45 and depth < 4:
                out += self.var(r, depth)
            elif x < .45 + self.p_noise:
                out += r.choice(CHARS)
            elif x < .7:
                w = source_constants(*self.modules)[0]
                out += r.choice(w) if w and r.random() < .3 else \
                    r.choice(NAMES)
            else:
                out += r.choice(('a', 'b', ' ', '1', ':', ',', '=', '/'))
        return out

    def gen(self, r):
        return {'s': self.some(r).replace('\n', '')}

    def nontrivial(self, case):
        return '$' in case['s']

    def check(self, case):
        try:
            return self.compare(case)
        except Undecided:
            raise
        except (AttributeError, ImportError) as e:
            if isinstance(e, ImportError) or (
                    getattr(e, 'name', None) in
                    ('parse_variables', 'separate_args', '_list')):
                raise Undecided(describe(e))
            return 'crash: ' + describe(e)
        except Exception as e:
            return 'crash: ' + describe(e)


class Roundtrip(VarProp):
    id = 'C16'
    what = 'parsed variables print back'

    def fixed(self):
        import itertools
        out = []
        for n in range(1, 6):
            for t in itertools.product(('${', '$[', '}', ']', 'a'), repeat=n):
                out.append({'s': ''.join(t)})
        for n in range(1, 6):
            for t in itertools.product('${}[', repeat=n):
                out.append({'s': ''.join(t)})
        out.append({'s': '${' * 40 + 'a' + '}' * 40})
        out.append({'s': '$[' * 40 + 'a' + ']' * 40})
        return out

    def compare(self, case):
        s = case['s']
        data, msgs = parse(s)
        toks = spec_parse(s)
        if (data is None) != (toks is None):
            return '%r is %s' % (s, 'refused' if data is None else 'accepted')
        if data is None:
            return self.through_app(s)
        if any(m.name.startswith(('E_VAR_S', 'E_FUNC_PARENS', 'E_FUNC_TAIL'))
               for m in msgs):
            return None
        want = norm(toks)
        if numbers(str(data)) != numbers(''.join(want)):
            return '%r prints as %r' % (s, str(data))
        if flat(data) != want:
            return '%r consists of %r, expected %r' % (s, flat(data), want)
        if isinstance(data, str):
            return None
        return self.structure(data, want)

    def through_app(self, s):
        if '(' in s or ')' in s:
            return None
        _, _, _, where, App, _ = api()
        with messages() as msgs:
            App('NoOp(%s)' % s, where)
        got = [m.name for m in msgs if m.name == 'E_APP_PARSE_ERROR']
        if len(got) != 1:
            return 'NoOp(%s) gives %d parse errors' % (s, len(got))
        return None

    def structure(self, data, want):
        Var = api()[2]
        n = len(want)
        if len(data) != n:
            return '%r has length %d, expected %d' % (str(data), len(data), n)
        for i in range(-1, min(n, 12)):
            if flat([data[i]]) != want[i:][:1]:
                return 'part %d of %r is %r' % (i, str(data), data[i])
            for j in (i, i + 1, i + 3, n, -1):
                if i >= 0 and flat(data[i:j]) != want[i:j]:
                    return 'parts %d:%d of %r are %r' % (
                        i, j, str(data), flat(data[i:j]))
        joined = Var.join(list(data))
        if flat(joined) != want:
            return 'joining the parts of %r gives %r' % (str(data), joined)
        if n > 1:
            if not (data == joined):
                return '%r differs from its joined parts' % str(data)
            for token, limit in ((':', -1), ('=', 1), ('(', 1)):
                got = [flat(i) for i in data.split(token, limit)]
                exp = [[]]
                for t in want:
                    if t == token and (limit < 0 or len(exp) <= limit):
                        exp.append([])
                    else:
                        exp[-1].append(t)
                if got != exp:
                    return '%r split at %r gives %r, expected %r' % (
                        str(data), token, got, exp)
        return None


class Slices(VarProp):
    id = 'C17'
    what = 'slices and names'
    names = ('E_VAR_BAD_TOKENS', 'E_VAR_SUBSTR_ARGS', 'E_VAR_SUBSTR_START',
             'E_VAR_SUBSTR_LENGTH', 'E_FUNC_TAIL', 'E_FUNC_PARENS')
    p_noise = .08

    def fixed(self):
        out = []
        for a in OFFSETS + ['7', '-7']:
            for name in ('a', 'a-b', '', 'CALLERID(num)'):
                out.append('${%s:%s}' % (name, a))
                out.append('${%s:%s:}' % (name, a))
                for b in OFFSETS:
                    out.append('${%s:%s:%s}' % (name, a, b))
        for n in NAMES:
            out.append('${%s}' % n)
            out.append('${INC(%s)}' % n)
            out.append('${%s:1:2:3}' % n)
            out.append('${CALLERID(num)%s}' % n)
        for c in map(chr, range(1, 300)):
            if c not in '${}[]:(\n':
                out.append('${a%s}' % c)
        return [{'s': s} for s in out]

    def slice(self, toks, out, text):
        """-> name tokens, printed slice"""
        parts = [[]]
        for t in toks:
            if t == ':':
                parts.append([])
            else:
                parts[-1].append(t)
        if len(parts) not in (2, 3):
            out.append('E_VAR_SUBSTR_ARGS')
            return parts[0], ''
        vals = []
        for i, p in enumerate(parts[1:]):
            p_ = ''.join(p)
            if ref_app.dynamic(p):
                vals.append(p_)
                continue
            digits = p_[1:] if p_.startswith('-') else p_
            if not digits.isdecimal():
                # without an offset the length says nothing
                if i == 0:
                    out.append('E_VAR_SUBSTR_START')
                    return parts[0], ''
                out.append('E_VAR_SUBSTR_LENGTH')
                return parts[0], ''
            vals.append(int(p_))
        if len(vals) == 2 and isinstance(vals[1], int) and (
                vals[1] == 0 or isinstance(vals[0], int) and
                vals[0] < 0 and vals[1] >= -vals[0]):
            out.append('E_VAR_SUBSTR_LENGTH')
            vals.pop()
        if vals == [0]:
            out.append('E_VAR_SUBSTR_START')
            return parts[0], ''
        return parts[0], ''.join(':%s' % v for v in vals)

    def name(self, toks, out):
        if not ref_app.dynamic(toks) and set(''.join(toks)) - LEGAL:
            out.append('E_VAR_BAD_TOKENS')

    def walk(self, text, out):
        """Collects the expected messages; -> parts as they print"""
        printed = []
        for t in ref_app.tokens(text):
            if len(t) > 1:
                sub = self.walk(t[2:-1], out)
                if t[1] == '[':
                    t = '$[' + ''.join(sub) + ']'
                else:
                    t = '${' + self.variable(sub, out) + '}'
            printed.append(t)
        return printed

    def variable(self, toks, out):
        if '(' in toks:
            i = toks.index('(')
            ends = [k for k, t in enumerate(toks) if t == ')' and k > i]
            tail = []
            if ends:
                args, tail = toks[i + 1:ends[-1]], toks[ends[-1] + 1:]
            else:
                args = toks[i + 1:]
                out.append('E_FUNC_PARENS')
            shown = ''
            if len(tail) == 1 and len(tail[0]) > 1:
                out.append(None)    # reported as either
            elif tail:
                name, shown = self.slice(tail, out, '')
                if name:
                    out.append('E_FUNC_TAIL')
                    shown = ''
            func = ''.join(toks[:i])
            if func.lower() in ('inc', 'dec') and not ref_app.dynamic(args):
                self.name(args, out)
            return func + '(' + ''.join(args) + ')' + shown
        if ':' in toks:
            name, shown = self.slice(toks, out, '')
            self.name(name, out)
            return ''.join(name) + shown
        self.name(toks, out)
        return ''.join(toks)

    def compare(self, case):
        s = case['s']
        data, msgs = parse(s)
        if data is None or spec_parse(s) is None:
            return None
        want = []
        printed = ''.join(self.walk(s, want))
        got = sorted(m.name for m in msgs if m.name in self.names)
        if None in want:
            return None if got else '%r is not reported' % s
        if got != sorted(want):
            return '%r gives %r, expected %r' % (s, got, sorted(want))
        if numbers(str(data)) != numbers(printed):
            return '%r becomes %r, expected %r' % (s, str(data), printed)
        return None


class Separate(VarProp):
    id = 'C18'
    as_is = ('d', 'q')
    what = 'argument separation'
    modules = ('asterisklint/app/base.py',)
    p_noise = .5
    keep = ('s', 'd', 'q')

    def fixed(self):
        import itertools
        out = []
        for n in range(0, 6):
            for t in itertools.product('a,[]()"\\', repeat=n):
                if n < 5 or set(t) & set('"\\') and ',' in t:
                    out.append({'s': ''.join(t), 'd': ',', 'q': len(out) % 2})
        for a, b in '()', '[]':
            for t in itertools.product(a + b + ',', repeat=6):
                out.append({'s': a * 3 + ''.join(t), 'd': ',',
                            'q': len(out) % 2})
        return out

    def gen(self, r):
        s = ''
        for _ in range(r.choice((1, 3, 5, 8, 12))):
            s += r.choice((',', ',', 'a', '(', ')', '[', ']', '"', '\\', '?',
                           ':', '${a,b}', '$[1]', 'b', '=', '|', "'", '{',
                           '}', '\u00e9', '&', ';', ' ', '${F(x,"y)}',
                           r.choice('([)]') * r.choice((2, 3, 4)),
                           r.choice(source_constants(*self.modules)[0])))
        return {'s': s, 'd': r.choice((',', ',', ',', '?', ':', '|', '&', ';',
                                       '"')),
                'q': r.randrange(2)}

    def nontrivial(self, case):
        return case['d'] in case['s']

    def compare(self, case):
        AppBase = api()[5]
        if not hasattr(AppBase, 'separate_args') or len(case['d']) != 1:
            raise Undecided('separate_args') if len(case['d']) == 1 else \
                Exception('bad case')
        data, _ = parse(case['s'])
        toks = spec_parse(case['s'])
        if data is None or toks is None:
            return None
        if str(data) != case['s']:
            return None     # a function without its parenthesis: see C16
        try:
            args = AppBase.separate_args(data, case['d'], bool(case['q']))
        except TypeError as e:
            if 'argument' in str(e):
                raise Undecided(str(e))
            raise
        want = [norm(a) for a in ref_app.separate(toks, case['d'],
                                                  bool(case['q']))]
        got = [flat(a) for a in args]
        if got != want:
            return 'arguments of %r are %r, expected %r' % (
                case['s'], got, want)
        return None


def balanced(toks):
    stack, quote = [], None
    for t in toks:
        if len(t) > 1:
            continue
        if quote:
            if t == quote:
                quote = None
        elif t in '"\'':
            quote = t
        elif t in '([{':
            stack.append(t)
        elif t in ')]}':
            if not stack or stack.pop() + t not in ('()', '[]', '{}'):
                return False
    return not stack and not quote


class Balance(VarProp):
    id = 'C19'
    what = 'balance warnings'
    modules = ('asterisklint/variable.py',)

    def fixed(self):
        import itertools
        out = []
        for n in range(0, 5):
            for t in itertools.product('()[]{}"\'a', repeat=n):
                out.append({'s': ''.join(t)})
        return out

    def gen(self, r):
        s = ''
        for _ in range(r.choice((1, 2, 4, 6, 9, 14))):
            s += r.choice(('(', ')', '[', ']', '{', '}', '"', "'", 'a', '()',
                           '[]', '{}', '""', "''", '${x}', '$[1]', ',', '\\',
                           '"(', ')"', '`', '<', '>', '$', '\u00ab', 'X',
                           "'['", '"\'"', '\\"'))
        if r.random() < .5:
            s = s + ''.join({'(': ')', '[': ']', '{': '}'}.get(c, '')
                            for c in reversed(s))
        return {'s': s}

    def nontrivial(self, case):
        return bool(set(case['s']) & set('()[]{}"\''))

    def compare(self, case):
        _, _, _, where, App, _ = api()
        s = case['s']
        with messages() as msgs:
            App('NoOp(%s)' % s, where)
        toks = ref_app.substitute(s)
        got = [m.name for m in msgs if m.name == 'W_APP_BALANCE']
        want = ['W_APP_BALANCE'] * (not balanced(toks))
        if got != want:
            return 'NoOp(%s): %r, expected %r' % (s, got, want)
        # the same for functions
        if '$' in s:
            return None
        text = 'NoOp(${CALLERID(%s)})' % s
        toks = ref_app.substitute(text[5:-1])
        if len(toks) != 1:
            return None
        inner = toks[0][2:-1]
        end = inner.rfind(')')
        if end < 9 or inner[end + 1:]:
            return None
        want = ['W_FUNC_BALANCE'] * (
            not balanced(ref_app.tokens(inner[9:end])))
        with messages() as msgs:
            App(text, where)
        got = [m.name for m in msgs if m.name == 'W_FUNC_BALANCE']
        if got != want:
            return '%s: %r, expected %r' % (text, got, want)
        return None


PLACEHOLDERS = ('unknown', 'background')


class Names(VarProp):
    id = 'C20'
    what = 'names of applications and functions'
    rule = ('sequences of applications and functions, known and unknown, in '
            'any case; non-trivial: at least one item')
    keep = ('items',)

    counter = 0

    def setup(self):
        self.apps = {n.lower(): n for n in KNOWN['v13']['apps']}
        self.funcs = {n.lower(): n for n in KNOWN['v13']['funcs']}
        self.custom = {}

    def vary(self, r, name):
        x = r.random()
        if x < .4:
            return name
        if x < .5:
            return name.lower()
        if x < .6:
            return name.upper()
        if x < .7:
            return name.swapcase()
        if x < .8:
            return name + r.choice(('x', '1', '_', ' ', '\t'))
        if x < .9:
            i = r.randrange(len(name))
            return name[:i] + name[i + 1:]
        return r.choice((' ', '\t', '', '  ')) + name

    def fixed(self):
        import itertools
        out = []
        for kind, names in (('app', self.apps), ('func', self.funcs)):
            for low, name in sorted(names.items()):
                if low not in PLACEHOLDERS:
                    out.append({'items': [
                        [kind, x, '()'] for x in
                        ('x' + name, name, low, name.upper(), name + 'x',
                         name, name.swapcase())]})
                    out.append({'items': [[kind, name, '']]})
        # A function that func_odbc.conf defines, before and after that.
        for n in (1, 2, 3, 4):
            for t in itertools.product(
                    (['odbc', 'A@'], ['custom', 'ODBC_A@'],
                     ['custom', 'Odbc_A@'], ['custom', 'ODBC_B@']), repeat=n):
                out.append({'items': [i + [''] for i in t]})
        out.append({'items': [['app', n, p] for n in
                              ('NoOp', 'noop', 'NOOP', '', ' ', 'Answer', ' A',
                               'NoOp ', 'Nope') for p in ('', '()', '(', ')')]})
        return out

    def gen(self, r):
        items = []
        for _ in range(r.choice((1, 2, 4, 7))):
            if r.random() < .65:
                name = self.vary(r, r.choice(sorted(self.apps.values())))
                items.append(['app', name, r.choice((
                    '()', '()', '()', '(x)', '', '(', '(a))', '((', ')'))])
            elif r.random() < .2:
                items.append([r.choice(('odbc', 'custom')), r.choice(
                    ('A@', 'ODBC_A@', 'B@', 'ODBC_B@')), ''])
            else:
                name = self.vary(r, r.choice(sorted(self.funcs.values())))
                items.append(['func', name, '()'])
        return {'items': items}

    def nontrivial(self, case):
        return bool(case['items'])

    names = ('E_APP_MISSING', 'W_APP_BAD_CASE', 'W_APP_NEED_PARENS',
             'E_APP_WSH', 'W_APP_WSH', 'E_FUNC_MISSING', 'E_FUNC_BAD_CASE')

    def define(self, name):
        from asterisklint import FileFuncOdbcParser
        text = '[%s]\ndsn=x\nreadsql=SELECT 1\n' % name
        with messages():
            p = FileFuncOdbcParser(opener=MemFS({'a.conf': text.encode()}))
            p.include('a.conf')
            list(p)

    def compare(self, case):
        _, _, _, where, App, _ = api()
        Names.counter += 1
        self.custom = {}
        for item in case['items']:
            if len(item) != 3:
                continue
            kind, name, tail = item
            if '@' in name or kind in ('odbc', 'custom'):
                name = name.replace('@', 'Q%dQ' % Names.counter)
                if not re.fullmatch('[A-Za-z_]*Q%dQ' % Names.counter, name):
                    continue
                if kind == 'odbc':
                    self.define(name)
                    self.custom['odbc_' + name.lower()] = 'ODBC_' + name
                    continue
            if name.strip().lower() in PLACEHOLDERS or \
                    set(name) & set('(${}[]:') or \
                    set(name.lower()) & set('\u0130\u212a'):
                continue
            if kind == 'app':
                raw = name + tail
                want = self.app(raw)
            else:
                if set(tail) - set('()'):
                    continue
                raw = 'NoOp(${%s()})' % name
                want = self.func(name)
            with messages() as msgs:
                App(raw, where)
            got = sorted((m.name,) + m.args for m in msgs
                         if m.name in self.names)
            if got != sorted(want):
                return '%s gives %r, expected %r' % (raw, got, sorted(want))
        return None

    def app(self, raw):
        out = []
        name, paren, _ = raw.partition('(')
        if not paren and name.lower() != 'noop':
            out.append(('W_APP_NEED_PARENS', name))
        if name.rstrip() != name:
            return out + [('E_APP_WSH', name)]
        if name.lstrip() != name:
            out.append(('W_APP_WSH', name))
            name = name.lstrip()
        if not name:
            return out + [('E_APP_MISSING', '(none)')]
        proper = self.apps.get(name.lower())
        if proper is None:
            out.append(('E_APP_MISSING', name))
        elif proper != name:
            out.append(('W_APP_BAD_CASE',) + tuple(sorted((name, proper))))
        return out

    def func(self, name):
        proper = self.funcs.get(name.lower()) or \
            self.custom.get(name.lower())
        if proper is None:
            return [('E_FUNC_MISSING', name)]
        if proper != name:
            return [('E_FUNC_BAD_CASE',) + tuple(sorted((name, proper)))]
        return []


PROPS = [Roundtrip, Slices, Separate, Balance, Names]
