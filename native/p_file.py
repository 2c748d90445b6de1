"""C01..C09: from bytes to contexts, variables and messages."""
import os
import shutil
import tempfile

from . import ref_file
from .harness import (MemFS, Prop, Undecided, b2s, describe, diff_msgs,
                      messages, s2b, source_constants)

SOURCES = ('asterisklint/file.py', 'asterisklint/config.py',
           'asterisklint/configobj.py', 'asterisklint/configws.py')

HANDLED = {}


class Disk:
    """The opener (and the files) of a real directory."""
    def __init__(self):
        self.opened = []

    def __call__(self, filename):
        fp = open(filename, 'rb')
        self.opened.append(fp)
        return fp

    def get(self, filename):
        try:
            with open(filename, 'rb') as fp:
                return fp.read()
        except (OSError, ValueError):
            return None


def real_config(files, main):
    try:
        from asterisklint import FileConfigParser
    except ImportError as e:
        raise Undecided(str(e))
    fs = MemFS(files) if files is not None else Disk()
    with messages() as msgs:
        parser = FileConfigParser(opener=fs)
        parser.include(main)
        contexts = list(parser)
    try:
        shape = [
            (c.name, bool(c.comment), (c.where.filename, c.where.lineno),
             [(v.variable, v.value, bool(v.arrow), bool(v.comment),
               (v.where.filename, v.where.lineno)) for v in c])
            for c in contexts]
        lines = [(v.where.filename, v.where.lineno, bytes(v.where.line))
                 for c in contexts for v in c]
    except AttributeError as e:
        raise Undecided(str(e))
    return shape, msgs, lines, fs


def spec_config(files, main):
    contexts, msgs, reader = ref_file.read_config(files, main)
    shape = [
        (c.name, c.comment, c.where,
         [(v.variable, v.value, v.arrow, v.comment, v.where) for v in vs])
        for c, vs in contexts]
    return shape, msgs, reader


def shape_where(shape):
    return [(c[2], [v[4] for v in c[3]]) for c in shape]


def shape_text(shape):
    return [(c[0], [(v[0], v[1]) for v in c[3]]) for c in shape]


def shape_comment(shape):
    return [(c[0], c[1], [(v[0], v[1], v[3]) for v in c[3]]) for c in shape]


WORDS = ['a', 'b', 'key', 'general', 'exten', 'same', 'value', '1', 'n', '',
         'x y', 'caf\u00e9', '\u20ac', '\U0001f600', '\x85', '\xa0', '\u2028',
         '\u3000', 'K' * 90]
SPACES = ['', '', '', ' ', '  ', '\t', ' \t', '\x0b', '\xa0', '\r']
ENDS = [b'\n', b'\n', b'\n', b'\r\n', b'\r\n', b'\r\r\n', b'\n\n', b'\x0b\n',
        b'\r', b'\x00\n', b'\x1f\n', b'\x7f\n', b'\x1a\r\n']


class FileProp(Prop):
    names = None
    views = ()
    modules = SOURCES
    rule = ('random small file sets (context, variable, comment, directive '
            'and junk lines mixed with escapes, blanks, control and non-UTF-8 '
            'bytes); every case is parsed by FileConfigParser and compared '
            'with the executable specification; non-trivial: at least one '
            'line is not blank')
    weights = {}

    def word(self, r):
        if r.random() < .06:
            s = r.choice(source_constants(*self.modules)[0] or ['a'])
            return s.replace('\n', '')
        return r.choice(WORDS)

    def text(self, r):
        """Free text with escapes."""
        out = []
        for _ in range(r.choice((0, 1, 1, 2, 3, 5))):
            out.append(r.choice((
                self.word(r), self.word(r), ';', '\\;', '\\', '\\\\;', ' ',
                '\t', ' ;', '; ', '\\; ', ' \\;', '=', '>', '"', ',', ';--',
                '--;')))
        return ''.join(out)

    def sp(self, r):
        return r.choice(SPACES)

    def tail(self, r):
        x = r.random()
        if x < .6:
            return ''
        return r.choice(('', ' ', '\t', '  ', ' ;c', ';c', '\t; x \\; y',
                         ' ; ', ';', ' \\;', ';;', '\x0b', ' ;a=b', '\\',
                         ' ;\\', '\t\t;;x '))

    def line_text(self, r):
        kinds = {'ctx': 3, 'set': 5, 'arrow': 3, 'empty': 3, 'comment': 2,
                 'junk': 2, 'pp': 2, 'free': 2}
        kinds.update(self.weights)
        kind = r.choices(list(kinds), list(kinds.values()))[0]
        if kind == 'ctx':
            s = '[' + r.choice((self.word(r), 'ctx', 'a-b', '', 'a]b')) + ']'
            if r.random() < .35:
                s += r.choice(('', '', ' ', '\t')) + r.choice((
                    '(t)', '(!)', '(tpl1,tpl2)', '()', '(a', 'x', '(+)',
                    '(a)b', '(a) ', '(a))', '((a)', ' ', '(\xe9)'))
            if r.random() < .15:
                s = self.sp(r) + s
        elif kind in ('set', 'arrow'):
            op = '=' if kind == 'set' else '=>'
            if r.random() < .6:
                sep = op if kind == 'set' else ' => '
            else:
                sep = self.sp(r) + op + self.sp(r)
            s = self.word(r) + sep + self.text(r)
            if r.random() < .25:
                s = r.choice((' ', '\t', '  ', ' \t ', '\x0b', '\xa0')) + s
        elif kind == 'empty':
            s = r.choice(('', '', '', ' ', '\t', '\x0b', '\r', '\xa0', '\x1c'))
        elif kind == 'comment':
            s = r.choice(('; c', ';', ' ;', '\t; c', ';;x', ';=[a]'))
        elif kind == 'pp':
            s = self.pp(r)
        elif kind == 'junk':
            s = r.choice((self.word(r), '[a', 'a]', '][', 'junk line here '
                          'which is long', '#', '"', '\\', '(a)', '[a](', '!',
                          '[a]x=b', ' [a]=>b', '=', '=>', '= >', '=x', '=>x',
                          ' =', '>=', '==', '=>=', '=>>'))
        else:
            s = self.text(r)
        return s + self.tail(r)

    def pp(self, r):
        cmd = r.choice(('#include', '#include', '#include', '#tryinclude',
                        '#exec', '#Include', '#includes', '#', '#tryincludes',
                        '#execute', '#if', '# include', '#exe', '#incl',
                        '##include', '#tryexec'))
        name = r.choice(('b.conf', 'b.conf', 'c.conf', 'sub/d.conf', 'missing',
                         'a.conf', './b.conf', 'sub/../c.conf', '../a.conf',
                         'e.conf', '/abs.conf', 'd.conf', '\x00', 'no pe'))
        name = r.choice(('%s', '%s', '%s', '"%s"', '<%s>', '"%s', '%s"', '<%s',
                         '%s>', '"%s>', '<%s"', '"', '<>', '""', '%s x',
                         ' %s')) .replace('%s', name)
        gap = r.choice((' ', ' ', ' ', '  ', '\t', '\t\t', ' \t', '\x0b', '',
                        '\x01', '   \t', '\xa0', '\r'))
        lead = r.choice(('', '', '', '', ' ', '\t', '\x0b'))
        return lead + cmd + gap + name

    def encode(self, r, s):
        x = r.random()
        if x < .9:
            return s.encode('utf-8', 'replace')
        return s.encode('latin-1', 'replace')

    def raw(self, r):
        return bytes(r.choice((
            r.randrange(256), r.choice(b'\x80\x81\x8d\x90\x9d\xa0\xff\xc3\xa9'
                                       b'\xe2\x82\xac\xf0\x9f\x98\xed\xa0\xc0'
                                       b'\xef\xbb\xbf\x85'),
            r.choice(b'[]()=>;\\# \t\r')))
            for _ in range(r.randrange(1, 7))).replace(b'\n', b'')

    raw_p = .04
    sizes = (0, 1, 1, 2, 3, 4, 6, 9, 14)

    def file(self, r):
        out = []
        end = r.choice((b'\n', b'\n', b'\n', b'\r\n'))
        for _ in range(r.choice(self.sizes)):
            line = self.encode(r, self.line_text(r))
            if r.random() < self.raw_p:
                i = r.randrange(len(line) + 1)
                line = line[:i] + self.raw(r) + line[i:]
            out.append(line.replace(b'\n', b''))
            out.append(end if r.random() < self.same_end else r.choice(ENDS))
        if out and r.random() < .35:
            out[-1] = b''
        return b''.join(out)

    same_end = .9
    names_of_files = ('b.conf', 'c.conf', 'sub/d.conf', 'e.conf', '/abs.conf')

    def gen(self, r):
        files = {'a.conf': b2s(self.file(r))}
        for n in self.names_of_files:
            if r.random() < .4:
                files[n] = b2s(self.file(r))
        return files

    def nontrivial(self, case):
        return bool(case.get('a.conf', 'x').strip())

    def fixed(self):
        return []

    def check(self, case):
        files = {k: s2b(v) for k, v in case.items()}
        try:
            real = real_config(files, 'a.conf')
        except Undecided:
            raise
        except Exception as e:
            return 'crash: ' + describe(e)
        spec = spec_config(files, 'a.conf')
        return self.compare(real, spec)

    def compare(self, real, spec):
        for v in self.views:
            a, b = v(real[0]), v(spec[0])
            if a != b:
                for x, y in zip(a, b):
                    if x != y:
                        return 'parsed %r, expected %r' % (x, y)
                return 'parsed %d contexts, expected %d' % (len(a), len(b))
        return diff_msgs(real[1], spec[1], self.names)


class Include(FileProp):
    id = 'C01'
    what = ('every line of the main file and of included files is read once, '
            'in place, under its own file name and line number')
    weights = {'pp': 8, 'junk': 3}
    views = (shape_where,)
    names = ('*',)

    def fixed(self):
        deep = {'a.conf': '#include f0.conf\n[x]\n'}
        for i in range(12):
            deep['f%d.conf' % i] = '[c%d]\nk=%d\n#include f%d.conf\nz=1\n' % (
                i, i, i + 1)
        return [
            deep,
            {'a.conf': '[a]\n#include b.conf\nx=1\n#include b.conf\ny=2\n',
             'b.conf': 'k=1\nl=2\n'},
            {'a.conf': '#include b.conf\n', 'b.conf': '#include a.conf\n[b]\n'
             'k=1\n'},
            {'a.conf': '#include sub/d.conf\n',
             'sub/d.conf': '[d]\n#include e.conf\n#include ../c.conf\n',
             'sub/e.conf': 'e=1\n', 'c.conf': 'c=1\n', 'e.conf': 'no=1\n'},
            {'a.conf': '#include a.conf\n#include ./a.conf\n[a]\nk=1\n'},
            {'a.conf': '[a]\n' + 'k=1\n' * 1200},
            {'a.conf': '[a]\n' + '#include b.conf\n' * 40, 'b.conf': 'k=1\n'},
            # Files with more than one name.
            {'a.conf': '[a]\n#include b.conf\nk=1\n', '->b.conf': 'a.conf'},
            {'a.conf': '[a]\n#include b.conf\nk=1\n', '->b.conf': 'c.conf',
             'c.conf': 'c=1\n#include b.conf\n#include c.conf\nd=1\n'},
            {'a.conf': '[a]\n#include b.conf\n#include c.conf\nk=1\n',
             '->b.conf': 'c.conf', 'c.conf': 'c=1\n'},
            {'->a.conf': 'c.conf', 'c.conf': '[a]\n#include c.conf\nk=1\n'},
            {'a.conf': '#include l/d.conf\n[a]\nk=1\n', '->l': 'sub',
             'sub/d.conf': 'x=1\n#include ../sub/d.conf\n'
             '#include ../a.conf\n'},
        ]

    def check(self, case):
        if 'a.conf' not in case and '->a.conf' not in case:
            return None
        if not any(k.startswith('->') for k in case):
            return super().check(case)
        # In a real directory, as there are links.
        tmp = os.path.realpath(tempfile.mkdtemp())
        try:
            files = {}
            for k, v in case.items():
                f = os.path.join(tmp, k.replace('->', ''))
                if os.path.relpath(f, tmp).startswith('..') or '\0' in k + v:
                    return None
                os.makedirs(os.path.dirname(f), exist_ok=True)
                if k.startswith('->'):
                    os.symlink(v, f)
                else:
                    with open(f, 'wb') as fp:
                        fp.write(s2b(v))
            if not os.path.isfile(os.path.join(tmp, 'a.conf')):
                return None
            real = real_config(None, os.path.join(tmp, 'a.conf'))
            spec = spec_config(Disk(), os.path.join(tmp, 'a.conf'))
            return self.compare(real, spec)
        except Undecided:
            raise
        except Exception as e:
            return 'crash: ' + describe(e)
        finally:
            shutil.rmtree(tmp)

    def compare(self, real, spec):
        bad = super().compare(real, spec)
        if bad:
            return bad
        if any(not f.closed for f in real[3].opened):
            return 'an included file is left open'
        by = dict(spec[2].lines)
        for filename, lineno, line in real[2]:
            if by.get((filename, lineno)) != line:
                return 'the text kept for %s:%d is %r, expected %r' % (
                    filename, lineno, line, by.get((filename, lineno)))
        return None


class Utf8(FileProp):
    id = 'C02'
    what = 'bytes are decoded as UTF-8, and other bytes are reported'
    names = ('E_FILE_UTF8_BAD',)
    views = (shape_text,)
    raw_p = .5
    weights = {'pp': 0, 'set': 8}
    names_of_files = ('b.conf',)

    def fixed(self):
        return [{'a.conf': '[a]\nk=' + chr(i) + 'x\nj=' + chr(i) + '\xa9\n'}
                for i in range(256) if i != 10] + \
            [{'a.conf': b2s(('[a]\nk=' + c + '\n').encode('utf-8'))}
             for c in ('\ufeff', '\ud7ff', '\uffff', '\U0010ffff', '\x80')] + \
            [{'a.conf': '\xef\xbb\xbf[a]\nk=1\n'}]


class Ctrl(FileProp):
    id = 'C03'
    what = 'control characters are reported once per line'
    names = ('W_FILE_CTRL_CHAR',)
    weights = {'pp': 0, 'set': 8}

    def fixed(self):
        out = []
        for i in range(256):
            if i == 10:
                continue
            for line in ('%sk=1', 'k=1%s', 'k=%s1', '; %s', '%s', '[%s]',
                         'k=1 ;%s%s', '#include %s'):
                out.append({'a.conf': '[a]\n' + line.replace('%s', chr(i)) +
                            '\nx=1\n'})
        return out


class Endings(FileProp):
    id = 'C04'
    what = 'line endings are judged per file, against the first line'
    names = ('W_FILE_DOS_EOFCRLF', 'W_FILE_DOS_BARELF', 'W_FILE_UNIX_CRLF',
             'W_FILE_UNIX_NOLF')
    views = (shape_text,)
    same_end = .6
    weights = {'pp': 4}

    def fixed(self):
        import itertools
        out = []
        for n in range(4):
            for ends in itertools.product(('\n', '\r\n'), repeat=n):
                for last in ('', 'x=1', 'x=1\r'):
                    body = ''.join('k%d=1%s' % (i, e)
                                   for i, e in enumerate(ends))
                    out.append({'a.conf': body + last})
                    out.append({'a.conf': '[a]\n#include b.conf\ny=1\n',
                                'b.conf': body + last})
                    out.append({'a.conf': '[a]\r\n#include b.conf\r\ny=1',
                                'b.conf': body + last})
        # Files that end together.
        ends = '', '\n', '\r\n'
        for t in itertools.product(('', 'b=1\n', 'b=1\r\n'), ends, (
                '', 'c=1', 'c=1\n', 'c=1\r\n', 'c=1\r\n#include d.conf',
                'c=1\n#include d.conf'), ends, ('', 'z=1\n', 'z=1')):
            out.append({'a.conf': '[a]\n#include b.conf\n' + t[4],
                        'b.conf': t[0] + '#include c.conf' + t[1],
                        'c.conf': t[2], 'd.conf': 'd=1' + t[3]})
        return out


class Comment(FileProp):
    id = 'C05'
    what = 'comments and escaped semicolons'
    names = ('W_WSH_COMMENT', 'W_WSH_EOL')
    views = (shape_comment,)
    weights = {'pp': 0, 'set': 10, 'arrow': 6, 'comment': 4}

    def fixed(self):
        import itertools
        out = []
        for n in range(1, 6):
            for t in itertools.product('a ;\\', repeat=n):
                out.append('k=v' + ''.join(t))
        for n in range(1, 4):
            for t in itertools.product('a \t;\\=', repeat=n):
                out.append(''.join(t))
        return [{'a.conf': '[a]\n' + '\n'.join(out[i:i + 40]) + '\n'}
                for i in range(0, len(out), 40)]


class Classify(FileProp):
    id = 'C06'
    what = 'every line is a context, a variable, blank, a directive, or bad'
    names = ('E_CONF_BAD_LINE', 'W_WSH_BOL', 'W_WSH_OBJSET', 'W_WSH_VARSET',
             'I_NOTIMPL_TEMPLATES', 'W_PP_EXEC')
    views = (lambda s: [(c[0], [v[:3] for v in c[3]]) for c in s],)
    weights = {'pp': 1, 'set': 6, 'arrow': 6, 'ctx': 6, 'junk': 5}

    def fixed(self):
        import itertools
        out = []
        for n in range(1, 6):
            for t in itertools.product('[]()=>a ', repeat=n):
                if n < 5 or set('[]()') <= set(t) or '=' in t[1:3]:
                    out.append(''.join(t))
        return [{'a.conf': '[a]\n' + '\n'.join(out[i:i + 60]) + '\n'}
                for i in range(0, len(out), 60)]


class Directive(FileProp):
    id = 'C07'
    what = 'preprocessor directives'
    names = ('E_CONF_BAD_LINE', 'W_PP_*', 'W_WSH_CTRL', 'W_WSH_BOL')
    views = (shape_where,)
    weights = {'pp': 20, 'junk': 1, 'free': 0}

    def fixed(self):
        import itertools
        cmds = ('#include', '#tryinclude', '#exec', '#includ', '#execx', '#',
                '#tryinclud')
        gaps = ('', ' ', '  ', '\t', '\t\t', ' \t', '\t ', '\x0b', ' \x0b',
                '\x01', '\xc2\xa0')
        args = ('', 'b.conf', '"b.conf"', '<b.conf>', '"b.conf', 'b.conf"',
                '<b.conf', 'b.conf>', '"b.conf>', '<b.conf"', 'nope', '"nope"',
                '"', '<', '>', '""', '<>', 'b.conf x', "'b.conf'")
        out = []
        for c, g in itertools.product(cmds, gaps):
            text = '[a]\n' + ''.join(c + g + a + '\n' for a in args)
            out.append({'a.conf': text, 'b.conf': '[b]\nk=1\n'})
        return out


class Vertical(FileProp):
    id = 'C08'
    what = 'vertical white space'
    names = ('H_WSV_*', 'W_WSV_*')
    weights = {'ctx': 5, 'set': 12, 'arrow': 0, 'empty': 14, 'comment': 5,
               'junk': 1, 'pp': 2, 'free': 0}
    sizes = (0, 1, 2, 4, 8, 12, 20, 30)

    def line_text(self, r):
        x = r.random()
        if x < .3:
            return ''
        if x < .37:
            return '; c'
        if x < .65:
            return 'k=1'
        if x < .8:
            return '[c]'
        return super().line_text(r)

    def fixed(self):
        import itertools
        alphabet = ('[c]', 'k=1', '', ';x')
        out = []
        for n in range(0, 6):
            for t in itertools.product(alphabet, repeat=n):
                out.append({'a.conf': ''.join(x + '\n' for x in t)})
        for pre, sets, mid in itertools.product(
                range(3), range(5), itertools.product(('', ';x'), repeat=4)):
            out.append({'a.conf': '\n' * pre + '[c]\n' + 'k=1\n' * sets +
                        ''.join(m + '\n' for m in mid) + '[d]\nk=1\n'})
        for pre, sets, mid in itertools.product(range(3), range(5), range(5)):
            out.append({'a.conf': '[c]\n' + 'k=1\n' * sets + '\n' * pre +
                        '#include b.conf\n' + '\n' * mid + '[d]\nk=1\n\n',
                        'b.conf': '\n' * mid + '[e]\nk=1\n' + '\n' * pre})
        # Several includes deep, blanks after each of them.
        names = ('a.conf', 'b.conf', 'c.conf', 'sub/d.conf')
        for depth in (2, 3):
            for gaps in itertools.product((0, 1, 3), repeat=depth + 1):
                case = {}
                for i in range(depth + 1):
                    text = '[%s]\n' % 'wxyz'[i]
                    if i < depth:
                        text += 'k=1\n#include %s\n' % names[i + 1]
                    case[names[i]] = text + '\n' * gaps[i] + 'k=2\n' + \
                        '[v%d]\n' % i
                out.append(case)
                short = {k: v.replace('[v', 'k=[v') for k, v in case.items()}
                out.append(dict(short))
        # Back from several includes at once: some end with their include.
        for depth in (2, 3):
            for tails in itertools.product(
                    ('', '\n', '\nk=2\n'), repeat=depth + 1):
                case = {}
                for i in range(depth + 1):
                    text = '[%s]\nk=1\n' % 'wxyz'[i]
                    if i < depth:
                        text += '#include %s\n' % names[i + 1]
                    case[names[i]] = text + tails[i]
                out.append(case)
        return out


class Aggregate(FileProp):
    id = 'C09'
    what = 'variables belong to the last context; early ones are reported'
    names = ('E_CONF_CTX_MISSING',)
    views = (lambda s: s,)
    weights = {'ctx': 5, 'set': 8, 'arrow': 5, 'pp': 3}

    def fixed(self):
        return [
            {'a.conf': 'k=1\n[a]\nx=1\nx=1\n[a]\ny=2\n[b]\n'},
            {'a.conf': '[a]\n#include b.conf\nz=1\n',
             'b.conf': 'k=1\n[b]\nx=1\n'},
            {'a.conf': '#include b.conf\nz=1\n[a]\n', 'b.conf': 'k=1\n'},
            {'a.conf': '[a]\n' + ''.join('k%d=%d\n' % (i, i)
                                         for i in range(300))},
        ]


PROPS = [Include, Utf8, Ctrl, Endings, Comment, Classify, Directive, Vertical,
         Aggregate]
