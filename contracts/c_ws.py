"""Contracts of asterisklint/configws.py (C08)."""
from asterisklint.configobj import Context, EmptyLine, Varset
from asterisklint.configws import (
    VerticalSpaceWarner, VswContext, VswContextStack, H_WSV_CTX_BETWEEN, H_WSV_VARSET_BETWEEN)
from asterisklint.file import W_WSV_BOF, W_WSV_EOF
from asterisklint.where import Where

import z3

from pyvc.api import Ctx, Contract, ListContract, StepContract, StreamContract, inv
from pyvc.vals import Sym
from pyvc.ghost import (
    assume, emit, ghost, opaque, specfn, BOOL, INT, ObjT, SeqT, STR, TupT)

W = 'asterisklint.configws:'


class Element:
    """Any element of a configuration."""
    KINDS = {EmptyLine: 0, Context: 1, Varset: 2}


EL = ObjT(Element)
ELS = SeqT(EL)
RUN = TupT(BOOL, ELS)
RUNS = SeqT(RUN)
SCHEMAS = {Element: {'comment': STR, 'where': ObjT(Where), 'kind': INT}}


@specfn(ELS, INT, ret=RUNS)
def runs(blanks, n):
    """The first n lines, in runs of comments and of blank lines."""
    if n <= 0:
        return []
    before = runs(blanks, n - 1)
    kind = bool(blanks[n - 1].comment)
    if len(before) > 0 and before[-1][0] == kind:
        return before[:-1] + [(kind, before[-1][1] + [blanks[n - 1]])]
    return before + [(kind, [blanks[n - 1]])]


def vsw(c):
    return c.obj(VswContext, blanks=c.list(EL, 'blanks'), bof=c.bool('bof'),
                 filename=c.str('filename'),
                 last_context_varsets=c.int('last_context_varsets'))


class GroupBlanks(Contract):
    target = W + 'VswContext.group_blanks'
    props = ('C08',)
    schemas = SCHEMAS

    def setup(c):
        return [c.obj(VswContext), c.list(EL, 'blanks')]

    def spec(self, blanks):
        return runs(blanks, len(blanks))

    def ensures(result, events, old, self, blanks):
        return {'every run has a line': len(blanks) == 0 or (
            len(result) > 0 and len(result[0][1]) > 0
            and len(result[-1][1]) > 0)}

    @inv
    def so_far(args, ret, _k):
        return ret == runs(args[1], _k)

    @inv
    def filled(args, ret, _k):
        return _k == 0 or (len(ret) > 0 and len(ret[0][1]) > 0
                           and len(ret[-1][1]) > 0)

    def apply_spec(self, blanks):
        # the postconditions, at call sites
        result = runs(blanks, len(blanks))
        assume(len(blanks) == 0 or (
            len(result) > 0 and len(result[0][1]) > 0
            and len(result[-1][1]) > 0))
        return result


class FlushBlanks(ListContract):
    """Blank lines before a header or a variable, run by run."""
    target = W + 'VswContext.flush_blanks'
    props = ('C08',)
    schemas = SCHEMAS
    uses = (GroupBlanks,)
    element = RUN

    def setup(c):
        return [vsw(c), c.val(EL, 'element'),
                c.choice(H_WSV_CTX_BETWEEN, H_WSV_VARSET_BETWEEN),
                c.int('min_blanks'), c.int('max_blanks')]

    def requires(self, element, message, min_blanks, max_blanks):
        return min_blanks >= 0 and max_blanks >= 0

    def begin(self, element, message, min_blanks, max_blanks):
        blanks = self.blanks
        if len(blanks) < min_blanks:
            message(element.where)
            emit('yields', blanks)
        elif len(blanks) > 0:
            first = runs(blanks, len(blanks))[0]
            if self.bof and not first[0]:
                W_WSV_BOF(first[1][0].where)
                emit('yields', first[1])

    def over(self, element, message, min_blanks, max_blanks):
        blanks = self.blanks
        if len(blanks) < min_blanks or len(blanks) == 0:
            return []
        groups = runs(blanks, len(blanks))
        return groups[1:] if self.bof and not groups[0][0] else groups

    def step(self, element, message, min_blanks, max_blanks, run):
        comment, lines = run
        if not comment and len(lines) > max_blanks:
            message(lines[-1].where)
        emit('yields', lines)

    def finish(self, element, message, min_blanks, max_blanks):
        self.blanks = []


class EndOfFile(ListContract):
    """Blank lines at the end of a file, run by run."""
    target = W + 'VswContext.handle_eof'
    props = ('C08',)
    schemas = SCHEMAS
    uses = (GroupBlanks,)
    element = RUN

    def setup(c):
        return [vsw(c), c.bool('report_eof_blanks')]

    def over(self, report):
        blanks = self.blanks
        if len(blanks) == 0:
            return []
        groups = runs(blanks, len(blanks))
        return groups if groups[-1][0] else groups[:-1]

    def step(self, report, run):
        comment, lines = run
        if not comment and len(lines) > 2:
            H_WSV_CTX_BETWEEN(lines[-1].where)
        emit('yields', lines)

    def finish(self, report):
        blanks = self.blanks
        if len(blanks) > 0 and report:
            comment, lines = runs(blanks, len(blanks))[-1]
            if not comment:
                emit('yields', lines)
                W_WSV_EOF(blanks[-1].where)


flushed = opaque('flushed', ELS, BOOL, EL, STR, INT, INT, ret=ELS)
passed = opaque('passed', ObjT(VswContext), EL, ret=ELS)
leftover = opaque('leftover', ObjT(VswContext), BOOL, ret=ELS)


def flush(eng, self, element, message, min_blanks, max_blanks):
    """FlushBlanks, in short."""
    eng.emit(('flush', message.__name__, min_blanks, max_blanks))
    r = eng.models.apply_spec(flushed, [
        eng.getattr(self, 'blanks'), eng.getattr(self, 'bof'), element,
        message.__name__, min_blanks, max_blanks])
    eng.setattr(self, 'blanks', Ctx(eng).mklist([]))
    return r


class NonBlank(Contract):
    """How many blank lines there may be depends on what follows."""
    target = W + 'VswContext.handle_nonblank'
    props = ('C08',)
    generator = True
    schemas = SCHEMAS
    env = {('call', VswContext.flush_blanks): flush}

    def setup(c):
        return [vsw(c), c.val(EL, 'element')]

    def requires(self, element):
        return isinstance(element, (Context, Varset))

    def spec(self, element):
        if isinstance(element, Context):
            least = 1 if self.last_context_varsets > 2 else 0
            emit('yields', self.flush_blanks(
                element, H_WSV_CTX_BETWEEN, least, 2))
            self.last_context_varsets = 0
        else:
            emit('yields', self.flush_blanks(
                element, H_WSV_VARSET_BETWEEN, 0, 1))
            self.last_context_varsets += 1
        self.bof = False
        emit('yield', element)


def nonblank(eng, self, element):
    """NonBlank, in short."""
    eng.emit(('nonblank', element))
    return eng.models.apply_spec(opaque_nonblank, [
        eng.getattr(self, 'blanks'), eng.getattr(self, 'bof'), element])


opaque_nonblank = opaque('nonblank', ELS, BOOL, EL, ret=ELS)


class OneElement(Contract):
    """Blank lines are kept until it is known what follows."""
    target = W + 'VswContext.handle'
    props = ('C08',)
    generator = True
    schemas = SCHEMAS
    env = {('call', VswContext.handle_nonblank): nonblank}

    def setup(c):
        return [vsw(c), c.val(EL, 'element')]

    def spec(self, element):
        if isinstance(element, EmptyLine):
            self.blanks.append(element)
        else:
            emit('yields', self.handle_nonblank(element))


LINE = {Where: {'filename': STR}, VswContext: {'filename': STR}}
STACK = {**SCHEMAS, **LINE}
fresh = opaque('fresh_context', STR, ret=ObjT(VswContext))


def begun(eng, where):
    """A state for a file that is entered."""
    name = eng.getattr(where, 'filename')
    r = eng.models.apply_spec(fresh, [name])
    eng.assume(eng.models.eq_term(eng.getattr(r, 'filename'), name))
    return r


def handed(eng, self, element):
    eng.emit(('handled', self, element))
    return eng.models.apply_spec(passed, [self, element])


def left(eng, self, report_eof_blanks=True):
    eng.emit(('left', self, report_eof_blanks))
    return eng.models.apply_spec(leftover, [self, report_eof_blanks])


class NextElement(StepContract):
    """An element is judged in its file; files within are left."""
    target = W + 'VswContextStack.handle'
    props = ('C08',)
    schemas = STACK
    env = {('call', VswContext): begun, ('call', VswContext.handle): handed,
           ('call', VswContext.handle_eof): left}

    def setup(c):
        files = c.list(ObjT(VswContext), 'files')
        files.cls = VswContextStack
        return [files, c.val(EL, 'element')]

    @inv
    def still_in(args):
        name = args[1].where.filename
        return any(i.filename == name for i in args[0])

    def more(self, element):
        name = element.where.filename
        return any(i.filename == name for i in self) and \
            self[-1].filename != name

    def step(self, element):
        file = self.pop()
        emit('yields', file.handle_eof())

    def finish(self, element):
        if len(self) == 0 or self[-1].filename != element.where.filename:
            self.append(VswContext(element.where))
        emit('yields', self[-1].handle(element))


class EndOfInput(StepContract):
    """Blank lines at the end are those of the last file."""
    target = W + 'VswContextStack.handle_eof'
    props = ('C08',)
    schemas = STACK
    env = NextElement.env

    def setup(c):
        files = c.list(ObjT(VswContext), 'files')
        files.cls = VswContextStack
        c.ghost(size=Sym(z3.Length(files.z), INT))
        return [files]

    @inv
    def is_first(args, old, first):
        return first == (len(args[0]) == len(old[0]))

    @inv
    def fewer(args, old):
        return len(args[0]) <= len(old[0])

    def more(self):
        return len(self) > 0

    def step(self):
        first = len(self) == ghost('size')
        emit('yields', self.pop().handle_eof(report_eof_blanks=first))


stacked = opaque('stacked', EL, ret=ELS)
rest = opaque('stack_rest', INT, ret=ELS)


def to_stack(eng, self, element):
    eng.emit(('to the stack', element))
    return eng.models.apply_spec(stacked, [element])


def end_stack(eng, self):
    eng.emit(('end of input',))
    return eng.models.apply_spec(rest, [0])


def empty_stack(eng):
    r = Ctx(eng).mklist([])
    r.cls = VswContextStack
    return r


class Everything(StreamContract):
    """Every element goes to the stack; at the end all files are left."""
    target = W + 'VerticalSpaceWarner.__iter__'
    props = ('C08',)
    schemas = STACK
    spread = False
    env = {('call', VswContextStack): empty_stack,
           ('call', VswContextStack.handle): to_stack,
           ('call', VswContextStack.handle_eof): end_stack}

    def setup(c):
        return [c.obj(VerticalSpaceWarner)]

    def item(c):
        return c.val(EL, 'element')

    def step(state, element):
        emit('to the stack', element)
        emit('yields', stacked(element))

    def finish(state):
        emit('end of input')
        emit('yields', rest(0))


class BeginFile(Contract):
    """Nothing was seen of a file that is entered."""
    target = W + 'VswContext.__init__'
    props = ('C08',)
    schemas = LINE

    def setup(c):
        return [c.obj(VswContext), c.where()]

    def spec(self, where):
        self.filename = where.filename
        self.bof = True
        self.blanks = []
        self.last_context_varsets = 0
