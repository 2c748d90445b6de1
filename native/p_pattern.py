"""C13..C15: patterns."""
import itertools

from .harness import Prop, Undecided, describe, source_constants
from .ref_pattern import BadPattern, Pat


def real(raw):
    try:
        from asterisklint.pattern import Pattern
    except ImportError as e:
        raise Undecided(str(e))
    return Pattern(raw, None)


def ref(raw):
    try:
        return Pat(raw)
    except BadPattern:
        return None


SET = ['0-9', '1-9', '2-9', '0', '9', 'a-c', 'abc', 'ac', '9-0', '013', '-',
       'a-', '-a', '+-', '+--', 'X', '.', '!', '_', 'Z-^', '\\-^', '\\-^a',
       '0-9a-z', 'a-z0-9', '0-9-', '02-9', '1-35', '13-5', 'a-cA-C', 'ab',
       '\u00e9', 'a-\u00e9', '!-~', 'NXZ', '[', '#*', '*-#', '1-1', '11',
       '1-23-4', '1-3-5', '--5', ',-.', '0-46-9', '135', '1-2', '8-9', '345',
       ' ', '2-91', '10-9', '123456789', '0123456789', '23456789', '0-8']
ATOM = list('0123459abcsthiXxZzNn.!-_*#+@/') + [
    ']', ' ', '\u00e9', '\u20ac', '1', '2', '-']


class PatternProp(Prop):
    modules = ('asterisklint/pattern.py',)
    rule = ('random patterns over digits, letters, wildcards, sets and '
            'non-ASCII characters, plus all short ones; non-trivial: the '
            'pattern is valid')

    def pattern(self, r):
        out = '_' if r.random() < .75 else ''
        for _ in range(r.choice((0, 1, 1, 2, 2, 3, 4, 6, 12))):
            x = r.random()
            if x < .35:
                k = r.choice((1, 1, 1, 2, 3))
                s = ''.join(r.choice(SET) for _ in range(k))
                if r.random() < .2:
                    s = ''.join(r.choice(ATOM) for _ in range(
                        r.randrange(0, 6)))
                out += '[' + s.replace(']', '') + ']'
            elif x < .38:
                out += r.choice(('[', '[]', '[1', '1]'))
            elif x < .42:
                w = source_constants(*self.modules)[0]
                out += (r.choice(w) if w else 'a').replace('\n', '')
            elif x < .45:
                out += chr(r.choice((r.randrange(33, 127), 0xe9, 0x20ac)))
            else:
                out += r.choice(ATOM)
        out = out.replace(',', '')
        return out or '1'

    def nontrivial(self, case):
        return ref(case['p']) is not None

    keep = ('p', 'q', 'e')

    def short(self):
        for n in range(0, 3):
            for t in itertools.product('X1-.![]_aN', repeat=n):
                yield '_' + ''.join(t)
        for n in range(1, 6):
            for t in itertools.product('1-3]a', repeat=n):
                yield '_[' + ''.join(t) + ']'
        for s in SET:
            yield '_[' + s + ']'
            yield s
            yield '_' + s
            for u in SET:
                yield '_[' + s + u + ']x'

    def check(self, case):
        if not case['p'] or not case.get('q', 'x'):
            return None
        try:
            return self.compare(case)
        except Undecided:
            raise
        except AttributeError as e:
            if 'Pattern' in str(e):
                raise Undecided(str(e))
            return 'crash: ' + describe(e)
        except Exception as e:
            return 'crash: ' + describe(e)


class Canonical(PatternProp):
    id = 'C13'
    what = 'canonical patterns'

    def fixed(self):
        return [{'p': p} for p in self.short()]

    def gen(self, r):
        return {'p': self.pattern(r)}

    def compare(self, case):
        p = real(case['p'])
        q = ref(case['p'])
        valid = bool(p.is_valid)
        if valid != (q is not None):
            return 'pattern %r valid: %r' % (case['p'], valid)
        if not valid:
            return None
        c = p.canonical_pattern
        if c != q.canonical():
            return 'canonical form of %r is %r, expected %r' % (
                case['p'], c, q.canonical())
        if bool(p.is_canonical) != q.is_canonical():
            return '%r is canonical: %r' % (case['p'], p.is_canonical)
        # ("-_1" is plain, and has no spelling without the dash)
        if c and c.isprintable() and (q.kind or c[0] != '_'):
            again = Pat(c)
            if again.tokens != q.tokens:
                return 'canonical form %r of %r means something else' % (
                    c, case['p'])
            if again.canonical() != c and q.kind == again.kind:
                return 'canonical form %r is not canonical' % c
            if not real(c).matches_same(p) and len(q.tokens):
                return 'canonical form %r of %r parses differently' % (
                    c, case['p'])
        # the same through a dialplan
        return self.through_dialplan(case['p'], q)

    def through_dialplan(self, raw, q):
        if raw.strip() != raw or set(raw) & set(',;=\\"\n\r'):
            return None
        from .p_dialplan import real_dialplan
        line = 'exten => %s,1,NoOp()' % raw
        try:
            data = ('[general]\n[globals]\n[a]\n%s\n' % line).encode('utf-8')
        except UnicodeEncodeError:
            return None
        _, msgs = real_dialplan({'a.conf': data}, 'a.conf')
        seen = [m for m in msgs if m.name == 'H_PAT_NON_CANONICAL']
        want = [] if q.is_canonical() else [
            ('a.conf', 4, tuple(sorted((raw, q.canonical()))))]
        if [(m.filename, m.lineno, m.args) for m in seen] != want:
            return 'non-canonical hints for %r: %r, expected %r' % (
                raw, seen, want)
        if any(m.name == 'E_DP_PAT_INVALID' for m in msgs):
            return 'valid pattern %r reported as badly formatted' % raw
        return None


class Matching(PatternProp):
    id = 'C14'
    what = 'extension matching'

    def ext(self, r, p):
        q = ref(p)
        if q is None or r.random() < .25:
            return ''.join(r.choice(ATOM + ['5', '12', '100']) for _ in range(
                r.choice((0, 1, 2, 3, 5, 9))))
        out = b''
        for t in q.tokens:
            if t in ('.', '!'):
                out += bytes(r.choice(b'019az*')
                             for _ in range(r.choice((0, 1, 1, 3))))
            else:
                out += bytes([r.choice(sorted(t))])
                if r.random() < .08:
                    out = out[:-1] + bytes([r.choice(
                        (max(0, min(t) - 1), max(t) + 1))])
        x = r.random()
        if x < .1:
            out = out[:-1]
        elif x < .2:
            out += r.choice((b'1', b'9', b'-', b'ab'))
        elif x < .3 and out:
            for _ in range(r.choice((1, 1, 2, 4, 8))):
                i = r.randrange(len(out))
                out = out[:i] + b'-' + out[i:]
        return out.decode('utf-8', 'surrogateescape')

    def fixed(self):
        exts = ('', '-', '1', 'a', '12', '1-2', '123', 'X', '.', '_', '1a',
                '9', '0', '3', '2')
        out = []
        for p in self.short():
            if len(p) < 5:
                out.extend({'p': p, 'e': e} for e in exts)
        for n in (1, 2, 3, 4, 5, 8, 16, 17, 33, 79, 80, 81, 256, 300):
            for e in ('1' * n, '-'.join('1' * n), '1' + '-' * n + '1',
                      '-' * n, 'ab' * n):
                for p in ('_' + 'X' * n, '_X.', '_XX', '_!', '1' * n, '_.',
                          '-'.join('1' * n), '_' + '-'.join('N' * n), '_X!',
                          '_' + '[1a][1-9b]' * n, '_' + 'X-' * n + '!'):
                    out.append({'p': p, 'e': e})
        return out

    def gen(self, r):
        p = self.pattern(r)
        return {'p': p, 'e': self.ext(r, p)}

    def compare(self, case):
        p, q, e = real(case['p']), ref(case['p']), case['e']
        if q is None:
            return None
        if bool(p.matches_extension(e)) != q.matches(e):
            return '%r matches %r: %r, expected %r' % (
                case['p'], e, p.matches_extension(e), q.matches(e))
        ex = p.example
        if frozenset(b'-') not in q.tokens and not q.matches(ex):
            return 'the example %r does not match %r' % (ex, case['p'])
        return None


class Order(PatternProp):
    id = 'C15'
    what = 'order, equality and hash of patterns'

    def fixed(self):
        base = ['1', '12', '1-2', '_1', '_12', '_X', '_x', '_[0-9]', '_Z',
                '_N', '_.', '_!', '_X.', '_X!', '_1.', '_1!', '_[13]',
                '_[1-35]', '_[135]', '_[1-3]', '_[12]', '_[21]', 's', 'i',
                '_[3-1]', '_[02-9]', '_1X', '_1-X', '_X1', '_', '_[-]',
                '_[a-c]', '_[abc]', 'X', '-', '_[X]', '__1', '2', '\u00e9']
        return [{'p': a, 'q': b} for a in base for b in base]

    def gen(self, r):
        p = self.pattern(r)
        if r.random() < .3:
            q = self.vary(r, p)
        else:
            q = self.pattern(r)
        return {'p': p, 'q': q}

    def vary(self, r, p):
        c = r.randrange(4)
        if c == 0:
            i = r.randrange(len(p) + 1)
            return p[:i] + '-' + p[i:]
        if c == 1:
            return p.swapcase()
        if c == 2:
            return p.replace('[0-9]', 'X').replace('X', '[0-9]')
        return p[:-1] + r.choice(ATOM)

    def nontrivial(self, case):
        return case['p'] != case['q']

    def compare(self, case):
        a, b = real(case['p']), real(case['q'])
        x, y = ref(case['p']), ref(case['q'])
        if x is None or y is None:
            return None
        kx, ky = x.key(), y.key()
        got = (a == b, a != b, a < b, a > b, a <= b, a >= b)
        want = (kx == ky, kx != ky, kx < ky, kx > ky, kx <= ky, kx >= ky)
        if got != want:
            return '%r and %r compare as %r, expected %r (==, !=, <, >, <=, ' \
                '>=)' % (case['p'], case['q'], got, want)
        if kx == ky and hash(a) != hash(b):
            return '%r and %r are equal but hash differently' % (
                case['p'], case['q'])
        if sorted([a, b])[0].raw != (case['p'] if kx <= ky else case['q']):
            return '%r and %r sort wrongly' % (case['p'], case['q'])
        return None


PROPS = [Canonical, Matching, Order]
