"""Contracts of asterisklint/config.py and configobj.py."""
import os

from asterisklint.config import (
    ConfigParser, ConfigAggregator, E_CONF_BAD_LINE, E_CONF_CTX_MISSING,
    W_PP_EXEC, W_PP_INCLUDE_MISSING, W_PP_QUOTE_BAD, W_WSH_CTRL)
from asterisklint.configobj import (
    Context, EmptyLine, Varset, I_NOTIMPL_TEMPLATES, W_WSH_OBJSET,
    W_WSH_VARSET)
from asterisklint.file import W_WSH_BOL

from pyvc.api import Contract, Lemma, StreamContract, inv, variant
from asterisklint.where import Where
from pyvc.smt import ObjT
from pyvc.ghost import ghost, opaque, record, specfn, matches, implies, iff, emit, STR, INT

O = 'asterisklint.configobj:'
C = 'asterisklint.config:'


class VarsetInit(Contract):
    target = O + 'Varset.__init__'
    props = ('C06',)

    def setup(c):
        # any separator made of blanks, the operator and blanks
        blanks = '[ \t\n\r\f\v\x1c-\x1f\x85\xa0\u1680\u2000-\u200a' \
            '\u2028\u2029\u202f\u205f\u3000]*'
        before, after = c.re(blanks, 'before'), c.re(blanks, 'after')
        separator = c.cat(before, c.choice('=', '=>'), after)
        return [c.obj(Varset), c.str('variable'), c.str('value'),
                separator, c.bool('comment'), c.where()]

    def spec(self, variable, value, separator, comment, where):
        if '>' in separator:
            if separator != ' => ':
                W_WSH_OBJSET(where)
            self.arrow = True
        else:
            if separator != '=':
                W_WSH_VARSET(where)
            self.arrow = False
        name = variable.lstrip(' \t')
        if name != variable and name != 'same':
            W_WSH_BOL(where)
        self.variable = name
        self.value = value
        self.comment = comment
        self.where = where


class ContextInit(Contract):
    target = O + 'Context.__init__'
    props = ('C06',)

    def setup(c):
        return [c.obj(Context), c.str('name'), c.str('templates'),
                c.bool('comment'), c.str('bolspace'), c.where()]

    def spec(self, name, templates, comment, bolspace, where):
        if bolspace != '':
            W_WSH_BOL(where)
        if templates != '':
            I_NOTIMPL_TEMPLATES(where)
        self.name = name
        self.comment = comment
        self.where = where
        self._templates = templates
        self._varsets = []



VS = ObjT(Varset)
CT = ObjT(Context)


def a_context(c, **kw):
    return c.obj(Context, name=c.str('name'), comment=c.bool('comment'),
                 where=c.where(), _templates=c.str('templates'),
                 _varsets=c.list(VS, 'varsets'), **kw)


class ContextAdd(Contract):
    target = O + 'Context.add'
    props = ('C09',)

    def setup(c):
        return [a_context(c), c.lazy(Varset)]

    def spec(self, varset):
        self._varsets.append(varset)


class ContextSize(Contract):
    target = O + 'Context.__len__'
    props = ('C09',)

    def setup(c):
        return [a_context(c)]

    def spec(self):
        return len(self._varsets)


class ContextItem(Contract):
    target = O + 'Context.__getitem__'
    props = ('C09',)

    def setup(c):
        return [a_context(c), c.int('key')]

    def requires(self, key):
        return -len(self._varsets) <= key < len(self._varsets)

    def spec(self, key):
        return self._varsets[key]


class FromContext(Contract):
    target = O + 'Context.from_context'
    props = ('C09', 'C12')
    uses = (ContextInit,)

    def setup(c):
        ctx = a_context(c)
        ctx.fields['_varsets'] = c.list(VS, 'varsets')
        return [Context, ctx]

    def requires(cls, context):
        return len(context._varsets) == 0

    def spec(cls, context):
        if context._templates != '':
            I_NOTIMPL_TEMPLATES(context.where)
        return record(cls, name=context.name, comment=context.comment,
                         where=context.where, _templates=context._templates,
                         _varsets=[])


def aggregator(c):
    current = c.choice(None, 'ctx')
    if current:
        current = a_context(c)
    return c.obj(ConfigAggregator, _contexts=c.list(CT, 'contexts'),
                 _curcontext=current)


class OnBegin(Contract):
    target = C + 'ConfigAggregator.on_begin'
    props = ('C09',)

    def setup(c):
        return [c.obj(ConfigAggregator)]

    def spec(self):
        self._contexts = []
        self._curcontext = None


class OnContext(Contract):
    target = C + 'ConfigAggregator.on_context'
    props = ('C09',)

    def setup(c):
        return [aggregator(c), a_context(c)]

    def spec(self, context):
        self._contexts.append(context)
        self._curcontext = context


class OnVarset(Contract):
    target = C + 'ConfigAggregator.on_varset'
    props = ('C09',)
    uses = (ContextAdd,)

    def setup(c):
        return [aggregator(c), c.lazy(Varset, where=ObjT(Where))]

    def spec(self, varset):
        if self._curcontext is None:
            E_CONF_CTX_MISSING(varset.where)
        else:
            self._curcontext._varsets.append(varset)


class OnEmptyLine(Contract):
    target = C + 'ConfigAggregator.on_emptyline'
    props = ('C09',)

    def setup(c):
        return [aggregator(c), c.lazy(EmptyLine)]

    def spec(self, emptyline):
        pass


class OnYield(StreamContract):
    target = C + 'ConfigAggregator.on_yield'
    props = ('C09',)

    def setup(c):
        return [c.obj(ConfigAggregator, _contexts=c.stream(OnYield),
                      _curcontext=None)]

    def item(c):
        return a_context(c)

    def step(state, context):
        emit('yield', context)


# -- the loop that hands elements to the handlers (of any subclass)

class Handlers(ConfigAggregator):
    """Records what is handled."""
    def on_begin(self):
        emit('begin')

    def on_context(self, context):
        emit('context', context)

    def on_varset(self, varset):
        emit('varset', varset)

    def on_emptyline(self, emptyline):
        emit('emptyline', emptyline)

    def on_yield(self):
        yield 1
        yield 2


class Aggregate(StreamContract):
    target = C + 'ConfigAggregator.__iter__'
    props = ('C09',)

    def setup(c):
        return [c.obj(Handlers)]

    def item(c):
        kind = c.choice(0, 1, 2)
        if kind == 0:
            return a_context(c)
        return c.lazy(Varset if kind == 1 else EmptyLine, where=ObjT(Where))

    def begin(self):
        emit('begin')

    def step(state, element):
        if isinstance(element, Context):
            emit('context', element)
        elif isinstance(element, Varset):
            emit('varset', element)
        else:
            emit('emptyline', element)

    def finish(state):
        emit('yield', 1)
        emit('yield', 2)


# -- classification of lines

def _context(eng, name, templates='', comment=False, bolspace='', where=None):
    return record_event(eng, 'context', Context, bolspace, name, templates,
                        comment, where)


def _varset(eng, variable, value, separator, comment, where):
    return record_event(eng, 'varset', Varset, variable, separator, value,
                        comment, where)


def _empty(eng, comment, where):
    return record_event(eng, 'empty', EmptyLine, comment, where)


def record_event(eng, kind, cls, *data):
    eng.events.append((kind,) + data)
    return 'element'


class Directives(ConfigParser):
    def preprocessor(self, where, data, comment):
        emit('directive', where, data, comment)


# blanks, as str.isspace() and the regular expressions have it
B = ('[ \\t\\n\\r\\f\\v\\x1c-\\x1f\\x85\\xa0\\u1680\\u2000-\\u200a'
     '\\u2028\\u2029\\u202f\\u205f\\u3000]')
HEADER = B + '*\\[[^]]*\\]'
TEMPLATES = HEADER + B + '*\\([^)]+\\)'


class Classify(StreamContract):
    target = C + 'ConfigParser.__iter__'
    props = ('C06',)
    env = {('call', Context): _context, ('call', Varset): _varset,
           ('call', EmptyLine): _empty}

    def setup(c):
        return [c.obj(Directives)]

    def item(c):
        return (c.where(), c.re('[^\n]*', 'data'), c.str('comment'))

    def post(events, where, data, comment):
        first = events[0]
        if matches(HEADER, data) or matches(TEMPLATES, data):
            _, lead, name, templates, has, w = first
            text = lead + '[' + name + ']'
            return {
                'one header': len(events) == 2 and first[0] == 'context' and
                events[1][0] == 'yield',
                'name': text == data if templates == '' else
                matches(B + '*', data[len(text):len(data)
                                      - len(templates) - 2]) and
                data[0:len(text)] == text and
                data.endswith('(' + templates + ')'),
                'parts': matches(B + '*', lead) and ']' not in name and
                ')' not in templates,
                'comment': has == (comment != '') and w is where}
        if '=' in data:
            _, left, sep, right, has, w = first
            return {
                'one variable': len(events) == 2 and first[0] == 'varset' and
                events[1][0] == 'yield',
                'nothing is lost': left + sep + right == data,
                'split at the first': '=' not in left,
                'operator': matches(B + '*=>?' + B + '*', sep),
                'arrow': '>' in sep if matches('[^=]*=>[^\n]*', data)
                else '>' not in sep,
                'name': left == '' or not matches(B, left[-1]),
                'value': right == '' or not matches(B, right[0]),
                'comment': has == (comment != '') and w is where}
        if matches(B + '*', data):
            return {
                'one blank': len(events) == 2 and first[0] == 'empty' and
                events[1][0] == 'yield',
                'comment': first[1] == (comment != '') and first[2] is where}
        if matches(B + '*#[^\n]*', data):
            return {
                'one directive': len(events) == 1 and
                first[0] == 'directive' and first[1] is where and
                first[2] == data and first[3] == (comment != '')}
        return {
            'bad line': len(events) == 1 and first[0] == 'msg' and
            first[1] is E_CONF_BAD_LINE and first[2] is where and
            first[3]['startswith'] == data[0:16]}


# -- directives

CONTROLS = ''.join(chr(i) for i in range(33))

dirname = opaque('dirname', STR, ret=STR)
joined = opaque('joined', STR, STR, ret=STR)


class Includes(ConfigParser):
    """Including reads a file, or fails."""
    def include(self, filename):
        emit('include', filename)
        if self.fails == 1:
            raise OSError()
        if self.fails == 2:
            raise ValueError()


def directive(c, cmd, *outcomes):
    # every line whose first character after blanks is a '#'; what
    # follows the directive is control characters (or spaces), and the
    # argument, if any, that starts with another character
    lead = c.re(B + '*', 'lead')
    gap = c.re('[\x00-\x20]*', 'gap')
    first = c.choice('', '"', '<', 'other')
    if first == 'other':
        first = c.re('[^\x00-\x20"<]', 'first')
    last = ''
    if first != '':
        last = c.choice('', '"', '>', 'other')
        if last == 'other':
            last = c.re('[^">]', 'last')
    middle = c.str('middle') if last != '' else ''
    arg = c.cat(first, middle, last)
    if cmd == '#':
        for word in ('include', 'tryinclude', 'exec'):
            c.assume_not(c.prefix(word, c.cat(gap, arg)))
    c.ghost(lead=lead, cmd=cmd, gap=gap, arg=arg)
    return [c.obj(Includes, fails=c.choice(*outcomes)), c.where(),
            c.cat(lead, cmd, gap, arg), c.bool('comment')]


class Directive(Contract):
    target = C + 'ConfigParser.preprocessor'
    budget = 120
    env = {('call', os.path.dirname): lambda e, p: e.models.apply_spec(
        dirname, [p]),
           ('call', os.path.join): lambda e, a, b: e.models.apply_spec(
               joined, [a, b])}

    def spec(self, where, data, comment):
        lead, cmd, gap, arg = (
            ghost('lead'), ghost('cmd'), ghost('gap'), ghost('arg'))
        if lead != '':
            W_WSH_BOL(where)
        if cmd == '#' or gap == '' or arg == '':
            E_CONF_BAD_LINE(where, startswith=(cmd + gap + arg)[0:16])
            return
        if not matches(' *|\t*', gap):
            W_WSH_CTRL(where)
        name = arg
        if arg[0] + arg[-1] in ('""', '<>'):
            name = arg[1:-1]
        elif arg[0] in '<"' or arg[-1] in '>"':
            W_PP_QUOTE_BAD(where)
        if cmd == '#exec':
            W_PP_EXEC(where, cmd=name)
            return
        emit('include', joined(dirname(where.filename), name))
        if self.fails and cmd == '#include':
            W_PP_INCLUDE_MISSING(where, filename=name)

    @inv
    def skipped(_k, gap):
        return _k <= len(gap)


class PreIncludeFound(Directive):
    name = 'ConfigParser.preprocessor (#include, found)'
    props = ('C07',)

    def setup(c):
        return directive(c, '#include', 0)


class PreIncludeMissing(Directive):
    name = 'ConfigParser.preprocessor (#include, missing)'
    props = ('C07',)

    def setup(c):
        return directive(c, '#include', 1)


class PreIncludeInvalid(Directive):
    name = 'ConfigParser.preprocessor (#include, an invalid name)'
    props = ('C07',)

    def setup(c):
        return directive(c, '#include', 2)


class PreTryIncludeFound(Directive):
    name = 'ConfigParser.preprocessor (#tryinclude, found)'
    props = ('C07',)

    def setup(c):
        return directive(c, '#tryinclude', 0)


class PreTryIncludeMissing(Directive):
    name = 'ConfigParser.preprocessor (#tryinclude, missing)'
    props = ('C07',)

    def setup(c):
        return directive(c, '#tryinclude', 1)


class PreTryIncludeInvalid(Directive):
    name = 'ConfigParser.preprocessor (#tryinclude, an invalid name)'
    props = ('C07',)

    def setup(c):
        return directive(c, '#tryinclude', 2)


class PreExec(Directive):
    name = 'ConfigParser.preprocessor (#exec)'
    props = ('C07',)

    def setup(c):
        return directive(c, '#exec', 0)


class PreOther(Directive):
    name = 'ConfigParser.preprocessor (anything else)'
    props = ('C07',)

    def setup(c):
        return directive(c, '#', 0)
