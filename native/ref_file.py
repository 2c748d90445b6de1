"""What reading configuration files means (C01..C09), independent of /repo."""
import os

from .harness import Msg

CTRL = set(map(chr, range(32))) - set('\t\n\r')
BLANK = ' \t'


def split_lines(data):
    """Lines of a binary file, LF included."""
    out, start = [], 0
    while start < len(data):
        i = data.find(b'\n', start)
        end = len(data) if i < 0 else i + 1
        out.append(data[start:end])
        start = end
    return out


def decode(line):
    try:
        return line.decode('utf-8'), True
    except UnicodeDecodeError:
        return line.decode('cp1252', 'replace'), False


def split_comment(text):
    """-> (data, comment): an unescaped semicolon starts the comment, and an
    escaped one is a literal semicolon."""
    out, i = '', 0
    while i < len(text):
        if text[i] == ';':
            return out, text[i:]
        if text[i:i + 2] == '\\;':
            out += ';'
            i += 2
        else:
            out += text[i]
            i += 1
    return out, ''


def classify(data):
    """-> (kind, fields)"""
    body = data.lstrip()
    lead = data[:len(data) - len(body)]
    if body.startswith('[') and ']' in body:
        name, _, tail = body[1:].partition(']')
        if not tail:
            return 'ctx', (lead, name, '')
        tail = tail.lstrip()
        if tail.startswith('(') and len(tail) > 2 and tail.endswith(')') \
                and ')' not in tail[1:-1]:
            return 'ctx', (lead, name, tail[1:-1])
    if '=' in data:
        left, _, right = data.partition('=')
        arrow = right.startswith('>')
        if arrow:
            right = right[1:]
        variable, value = left.rstrip(), right.lstrip()
        sep = left[len(variable):] + ('=>' if arrow else '=') + \
            right[:len(right) - len(value)]
        return 'set', (variable, sep, value, arrow)
    if not body:
        return 'empty', ()
    if body.startswith('#'):
        return 'pp', (lead, body)
    return 'bad', ()


class Element:
    def __init__(self, kind, where, comment, **kw):
        self.kind, self.where, self.comment = kind, where, comment
        self.__dict__.update(kw)


class Reader:
    """The meaning of a main file plus everything it includes."""

    def __init__(self, files, main):
        self.disk = not isinstance(files, dict)
        self.files = files if self.disk else {
            os.path.normpath(k): v for k, v in files.items()}
        self.msgs = []
        self.elements = []
        self.lines = []
        self.open = []
        self.read(main)

    def say(self, name, where, *args, previous=None):
        self.msgs.append(Msg(name, where, args, previous))

    def lookup(self, filename):
        if '\0' in filename:
            return None
        if os.path.realpath(filename) in map(os.path.realpath, self.open):
            return None
        if self.disk:
            return self.files.get(filename)
        return self.files.get(os.path.normpath(filename))

    def read(self, filename):
        data = self.lookup(filename)
        if data is None:
            return False
        self.open.append(filename)
        lines = split_lines(data)
        dos = None
        for n, line in enumerate(lines, 1):
            where = (filename, n)
            self.lines.append((where, line))
            text, ok = decode(line)
            if not ok:
                self.say('E_FILE_UTF8_BAD', where)
            if set(text) & CTRL:
                self.say('W_FILE_CTRL_CHAR', where)
            lf, crlf = text.endswith('\n'), text.endswith('\r\n')
            if dos is None:
                dos = crlf or not lf
            if dos and lf and not crlf:
                self.say('W_FILE_DOS_BARELF', where)
            if not dos and crlf:
                self.say('W_FILE_UNIX_CRLF', where)
            self.line(where, text[:-2] if crlf else text[:-1] if lf else text)
        if lines:
            where = (filename, len(lines))
            if dos and lines[-1].endswith(b'\n'):
                self.say('W_FILE_DOS_EOFCRLF', where)
            if not dos and not lines[-1].endswith(b'\n'):
                self.say('W_FILE_UNIX_NOLF', where)
        self.open.pop()
        return True

    def line(self, where, text):
        if text.rstrip(BLANK) != text:
            self.say('W_WSH_EOL', where)
            text = text.rstrip(BLANK)
        data, comment = split_comment(text)
        if comment and data and data[-1] not in BLANK:
            self.say('W_WSH_COMMENT', where)
        if comment:
            data = data.rstrip(BLANK)
        data_, comment = data.rstrip(BLANK), bool(comment)
        data = data_
        kind, f = classify(data)
        if kind == 'ctx':
            lead, name, templates = f
            if lead:
                self.say('W_WSH_BOL', where)
            if templates:
                self.say('I_NOTIMPL_TEMPLATES', where)
            self.elements.append(Element(
                'ctx', where, comment, name=name, templates=templates))
        elif kind == 'set':
            variable, sep, value, arrow = f
            if arrow and sep != ' => ':
                self.say('W_WSH_OBJSET', where)
            if not arrow and sep != '=':
                self.say('W_WSH_VARSET', where)
            bare = variable.lstrip(BLANK)
            if bare != variable and bare != 'same':
                self.say('W_WSH_BOL', where)
            self.elements.append(Element(
                'set', where, comment, variable=bare, value=value,
                arrow=arrow))
        elif kind == 'empty':
            self.elements.append(Element('empty', where, comment))
        elif kind == 'pp':
            self.directive(where, *f)
        else:
            self.say('E_CONF_BAD_LINE', where, data[:16])

    def directive(self, where, lead, body):
        if lead:
            self.say('W_WSH_BOL', where)
        for cmd in ('#include', '#tryinclude', '#exec'):
            if body.startswith(cmd):
                rest = body[len(cmd):]
                break
        else:
            rest = ''
        n = 0
        while n < len(rest) and rest[n] <= ' ':
            n += 1
        gap, arg = rest[:n], rest[n:]
        if not gap or not arg:
            self.say('E_CONF_BAD_LINE', where, body[:16])
            return
        if gap not in (' ' * len(gap), '\t' * len(gap)):
            self.say('W_WSH_CTRL', where)
        first, last = arg[0], arg[-1]
        if first + last in ('""', '<>'):
            arg = arg[1:-1]
        elif first in '"<' or last in '">':
            self.say('W_PP_QUOTE_BAD', where)
        if cmd == '#exec':
            self.say('W_PP_EXEC', where, arg)
            return
        path = os.path.join(os.path.dirname(where[0]), arg)
        if not self.read(path) and cmd == '#include':
            self.say('W_PP_INCLUDE_MISSING', where, arg)


def runs(blanks):
    out = []
    for b in blanks:
        if out and out[-1][0] == b.comment:
            out[-1][1].append(b)
        else:
            out.append((b.comment, [b]))
    return out


def vertical(elements, say):
    """Vertical whitespace, per file."""
    stack = []

    def leave(state, report):
        todo = runs(state['blanks'])
        tail = todo.pop() if todo and not todo[-1][0] else None
        for comment, run in todo:
            if not comment and len(run) > 2:
                say('H_WSV_CTX_BETWEEN', run[-1].where)
        if tail and report:
            say('W_WSV_EOF', tail[1][-1].where)

    for e in elements:
        name = e.where[0]
        if name in [s['name'] for s in stack]:
            while stack[-1]['name'] != name:
                leave(stack.pop(), True)
        else:
            stack.append({'name': name, 'bof': True, 'blanks': [], 'sets': 0})
        st = stack[-1]
        if e.kind == 'empty':
            st['blanks'].append(e)
            continue
        if e.kind == 'ctx':
            need, limit, msg = int(st['sets'] > 2), 2, 'H_WSV_CTX_BETWEEN'
            st['sets'] = 0
        else:
            need, limit, msg = 0, 1, 'H_WSV_VARSET_BETWEEN'
            st['sets'] += 1
        if len(st['blanks']) < need:
            say(msg, e.where)
        else:
            todo = runs(st['blanks'])
            if st['bof'] and todo and not todo[0][0]:
                say('W_WSV_BOF', todo.pop(0)[1][0].where)
            for comment, run in todo:
                if not comment and len(run) > limit:
                    say(msg, run[-1].where)
        st['blanks'] = []
        st['bof'] = False
    first = True
    while stack:
        leave(stack.pop(), first)
        first = False


def aggregate(elements, say):
    out = []
    for e in elements:
        if e.kind == 'ctx':
            out.append((e, []))
        elif e.kind == 'set':
            if out:
                out[-1][1].append(e)
            else:
                say('E_CONF_CTX_MISSING', e.where)
    return out


def read_config(files, main):
    """-> (contexts, messages)"""
    r = Reader(files, main)
    vertical(r.elements, r.say)
    return aggregate(r.elements, r.say), r.msgs, r
