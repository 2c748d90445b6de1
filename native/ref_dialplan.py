"""What a dialplan means (C10..C12, C22, C23, C31), independent of /repo."""
import re

from . import ref_app
from .harness import Msg
from .ref_file import Reader
from .ref_pattern import BadPattern, Pat


class Ext:
    pat = prio = label = app = where = None


class Ctx:
    def __init__(self, name, where):
        self.name, self.where = name, where
        self.exts, self.includes = [], []
        self.fresh = True
        self.prios, self.labels = {}, {}


class Plan:
    def __init__(self, files, main, sample):
        self.sample = sample    # an extension that matches a pattern
        self.reader = Reader(files, main)
        self.msgs = self.reader.msgs
        self.contexts = []
        self.by_name = {}
        self.general = self.globals = None
        self.last = None
        self.jumps = []
        self.apps = []      # of every well formed line
        self.labels = set()
        cur = None
        for e in self.reader.elements:
            if e.kind == 'ctx':
                cur = self.context(e)
            elif e.kind == 'set':
                if cur is None:
                    self.say('E_CONF_CTX_MISSING', e.where)
                elif isinstance(cur, Ctx):
                    self.line(cur, e)
                else:
                    cur['vars'].append(e)
        if self.contexts:
            where = (None, 0)
            if not self.general:
                self.say('H_DP_GENERAL_MISPLACED', where)
            if not self.globals:
                self.say('H_DP_GLOBALS_MISPLACED', where)

    def say(self, name, where, *args, previous=None):
        self.msgs.append(Msg(name, where, args, previous))

    def context(self, e):
        if e.name == 'general':
            new = {'where': e.where, 'vars': []}
            if self.general:
                self.say('W_CONF_CTX_DUPE', e.where,
                         previous=self.general['where'])
                new['vars'] = list(self.general['vars'])
            elif self.globals or self.contexts:
                self.say('H_DP_GENERAL_MISPLACED', e.where)
            self.general = new
            return new
        if e.name == 'globals':
            new = {'where': e.where, 'vars': []}
            if self.globals:
                self.say('E_DP_GLOBALS_DUPE', e.where,
                         previous=self.globals['where'])
                return new
            if not self.general or self.contexts:
                self.say('H_DP_GLOBALS_MISPLACED', e.where)
            self.globals = new
            return new
        c = self.by_name.get(e.name)
        if c is None:
            c = self.by_name[e.name] = Ctx(e.name, e.where)
            self.contexts.append(c)
        c.fresh = True
        return c

    def line(self, cur, e):
        w = e.where
        name = e.variable
        if name not in ('exten', 'same', 'include', 'switch', 'ignorepat'):
            self.say('E_CONF_KEY_INVALID', w, name)
            return
        if not e.arrow:
            self.say('H_CONF_NO_ARROW', w)
        if name == 'switch':
            self.say('I_NOTIMPL_SWITCH', w)
            return
        if name == 'ignorepat':
            self.say('I_NOTIMPL_IGNOREPAT', w)
            return
        if name == 'include':
            cur.includes.append(e.value)
            return
        rest = e.value
        x = Ext()
        x.where = w
        if name == 'exten':
            pat, comma, rest = rest.partition(',')
            if not comma:
                self.say('E_DP_PRIO_MISSING', w)
                return
        prio, _, x.app = rest.partition(',')
        prio, paren, label = prio.partition('(')
        if prio == 'hint':
            self.say('I_NOTIMPL_HINT', w)
            return
        if prio != 'n' and not prio.isdecimal():
            self.say('E_DP_PRIO_INVALID', w, prio)
            return
        x.prio = None if prio == 'n' else int(prio)
        if paren:
            if not label.endswith(')'):
                self.say('E_DP_LABEL_INVALID', w, label)
                return
            x.label = label[:-1] or None
        if name == 'exten' and pat:
            try:
                x.pat = Pat(pat)
            except BadPattern:
                self.say('E_DP_PAT_INVALID', w)
                return
            if not x.pat.is_canonical():
                self.say('H_PAT_NON_CANONICAL', w, pat, x.pat.canonical())
        self.apps.append((w, x.app))
        self.add(cur, x)

    def add(self, cur, x):
        w = x.where
        if x.pat is None:
            if not cur.exts:
                self.say('E_DP_PAT_MISSING', w)
                return
            x.pat = cur.exts[-1].pat
        if x.prio is None:
            if self.last is None:
                self.say('E_DP_PRIO_MISSING', w, x.pat.raw)
                return
            if cur.fresh or cur.exts[-1].pat != x.pat:
                self.say('W_DP_PRIO_BADORDER', w, x.pat.raw, '<unset>')
            x.prio = self.last + 1
        elif x.prio < 1:
            self.say('E_DP_PRIO_INVALID', w, x.prio)
            return
        elif x.prio != 1:
            before = [i.prio for i in cur.exts if i.pat == x.pat][-1:]
            if not before or before[0] not in (x.prio, x.prio - 1):
                self.say('W_DP_PRIO_BADORDER', w, x.pat.raw, x.prio)
        self.last = x.prio
        cur.fresh = False
        key = x.pat.canonical()
        if (key, x.prio) in cur.prios:
            self.say('E_DP_PRIO_DUPE', w, x.prio,
                     previous=cur.prios[(key, x.prio)])
            return
        cur.prios[(key, x.prio)] = w
        if x.label:
            if (key, x.label) in cur.labels:
                self.say('E_DP_LABEL_DUPE', w, x.label,
                         previous=cur.labels[(key, x.label)])
                x.label = None
            else:
                cur.labels[(key, x.label)] = w
                self.labels.add(x.label)
        for dest in ref_app.jumps(x.app)[0]:
            self.jumps.append(self.complete(cur, x, *dest) + (w,))
        cur.exts.append(x)

    # -- jumps

    def complete(self, cur, x, ctx, ext, prio):
        """-> each a string, or a list of tokens when it has variables"""
        def flat(t):
            return t if ref_app.dynamic(t) else ref_app.text(t)
        ctx = flat(ctx or [cur.name])
        if isinstance(ctx, list) and ctx == [cur.name]:
            ctx = cur.name
        if not ext:
            ext = self.sample(x.pat.raw)
        else:
            ext = flat(ext)
            if isinstance(ext, list):
                new = [exten_part(t, self.sample(x.pat.raw)) for t in ext]
                if not [a for a, b in zip(ext, new)
                        if a is b and len(a) > 1]:
                    ext = ref_app.text(new)
        prio = flat(prio)
        if isinstance(prio, str) and prio.isdecimal():
            prio = int(prio)
        return ctx, ext, prio

    def closure(self, name):
        todo, seen = [name], []
        while todo:
            n = todo.pop()
            if n in self.by_name and n not in seen:
                seen.append(n)
                todo.extend(self.by_name[n].includes)
        return [self.by_name[n] for n in seen]

    def exists(self, name, ext, prio):
        def has(c, ext, prio):
            for x in c.exts:
                if not x.pat.matches(ext):
                    continue
                if isinstance(prio, int):
                    if x.prio == prio:
                        return True
                elif isinstance(prio, str):
                    if x.label == prio:
                        return True
                elif could_be(prio, str(x.prio)) or \
                        could_be(prio, str(x.label)):
                    return True
            return False
        for c in self.closure(name):
            if has(c, ext, prio):
                return True
            if isinstance(prio, int) and ext != 'i' and has(c, 'i', 1):
                return True
        return False

    def walk(self):
        """Messages about jumps."""
        out = []

        def show(x):
            return ref_app.text(x) if isinstance(x, list) else str(x)
        for ctx, ext, prio, w in self.jumps:
            args = tuple(map(show, (ctx, ext, prio)))
            if isinstance(ctx, list):
                if isinstance(prio, str) and prio not in self.labels:
                    out.append(Msg('E_DP_GOTO_NOLABEL', w, args))
            elif ctx not in self.by_name:
                out.append(Msg('E_DP_GOTO_NOCONTEXT', w, args))
            elif isinstance(ext, list):
                if isinstance(prio, str) and prio not in [
                        label for _, label in self.by_name[ctx].labels]:
                    out.append(Msg('E_DP_GOTO_CONTEXT_NOLABEL', w, args))
            elif not self.exists(ctx, ext, prio):
                out.append(Msg('W_DP_GOTO_CONTEXT_NOEXTEN', w, args))
        return out

    # -- listing

    def listing(self, reverse):
        out = []
        for c in (self.contexts[::-1] if reverse else self.contexts):
            out.append("[ Context %r created by 'pbx_config' ]" % c.name)
            pats = sorted({x.pat.key() for x in c.exts})
            for key in pats:
                first = True
                for x in c.exts:
                    if x.pat.key() != key:
                        continue
                    app = x.app + ('' if '(' in x.app else '(') + \
                        ('' if ')' in x.app else ')')
                    lead = '%-17s' % ("'%s' =>" % x.pat.raw) if first else \
                        '   %-14s' % ('[%s]' % x.label if x.label else '')
                    out.append('  %s %-45s [pbx_config]' % (
                        lead, '%d. %s' % (x.prio, app)))
                    first = False
            for i in c.includes:
                out.append('  %-17s %-45s [pbx_config]' % (
                    'Include =>', "'%s'" % i))
            out.append('')
        return '\n'.join(out)


def exten_part(token, exten):
    """What ${EXTEN} or a part of it stands for; the token if it is none."""
    m = re.fullmatch(r'\$\{EXTEN(?::(-?[0-9]+)(?::(-?[0-9]+))?)?\}', token)
    if not m:
        return token
    start, length = int(m.group(1) or 0), int(m.group(2) or 0)
    if length > 0 and start < 0 and length >= -start:
        length = 0      # reported
    if not length:
        return exten[start:]
    if start < 0 < length:
        # (where the text is shorter, Asterisk would start at its beginning)
        return exten[start:start + length]
    return exten[start:length] if length < 0 else exten[start:start + length]


def could_be(toks, value):
    """Can the text with variables become value?"""
    if len(toks) == 1:
        return True
    parts = [[]]
    for t in toks:
        if len(t) > 1:
            parts.append([])
        else:
            parts[-1].append(t)
    parts = [''.join(p) for p in parts]
    if len(parts) == 1:
        return value == parts[0]
    head, tail = parts[0], parts[-1]
    if not value.startswith(head):
        return False
    pos = len(head)
    for p in parts[1:-1]:
        at = value.find(p, pos)
        if at < 0:
            return False
        pos = at + len(p)
    return value.endswith(tail) and len(value) - len(tail) >= pos
