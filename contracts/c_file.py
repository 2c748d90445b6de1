"""Contracts of asterisklint/file.py."""
import os

from asterisklint.file import (
    AsteriskCommentReader, BinFileReader, EncodingReader, FileReader, FileformatReader,
    NoCtrlReader, E_FILE_UTF8_BAD, W_FILE_CTRL_CHAR,
    W_FILE_DOS_BARELF, W_FILE_DOS_EOFCRLF, W_FILE_UNIX_CRLF,
    W_FILE_UNIX_NOLF, W_WSH_COMMENT, W_WSH_EOL)

from pyvc.api import Contract, Lemma, StepContract, StreamContract, inv, variant
from asterisklint.where import Where
from pyvc.ghost import (
    emit, ghost, iff, implies, matches, opaque, record, specfn, BOOL, BYTES, INT,
    ObjT, Opt, SeqT, StructT, STR)
from pyvc.vals import Infeasible, PyExc

F = 'asterisklint.file:'


class SimpleSplit(Contract):
    target = F + 'AsteriskCommentReader._simple_comment_split'
    props = ('C05',)

    def setup(c):
        return [AsteriskCommentReader, c.str('data'), c.where()]

    def requires(cls, data, where):
        return '\\' not in data

    def spec(cls, data, where):
        i = data.find(';')
        if i < 0:
            return data, ''
        head = data[0:i]
        if head and head[-1] not in ' \t':
            W_WSH_COMMENT(where)
        n = len(head.rstrip(' \t'))
        return data[0:n], data[n:]

    @inv
    def bounds(i, data):
        return 0 <= i and i <= data.find(';')

    @inv
    def blanks(i, data):
        return data[0:i].rstrip(' \t') == data[0:data.find(';')].rstrip(' \t')

    @variant
    def down(i):
        return i


class MoveSpace(Contract):
    target = F + 'AsteriskCommentReader._move_middle_space_to_comment'
    props = ('C05',)

    def setup(c):
        return [AsteriskCommentReader, c.str('data'), c.str('comment'), c.where()]

    def spec(cls, data, comment, where):
        if comment and data and data[-1] not in ' \t':
            W_WSH_COMMENT(where)
        n = len(data.rstrip(' \t'))
        return data[0:n], data[n:] + comment

    @inv
    def bounds(i, data):
        return 0 <= i and i <= len(data)

    @inv
    def blanks(i, data):
        return data[0:i].rstrip(' \t') == data.rstrip(' \t')

    @variant
    def down(i):
        return i


@specfn(STR, ret=STR)
def text_of(data):
    """What precedes the first unescaped semicolon, unescaped."""
    i = data.find(';')
    if i < 0:
        return data
    if i > 0 and data[i - 1] == '\\':
        return data[0:i - 1] + ';' + text_of(data[i + 1:])
    return data[0:i]


@specfn(STR, ret=STR)
def comment_of(data):
    """The first unescaped semicolon and what follows it."""
    i = data.find(';')
    if i < 0:
        return ''
    if i > 0 and data[i - 1] == '\\':
        return comment_of(data[i + 1:])
    return data[i:]


class LookbackSplit(Contract):
    target = F + 'AsteriskCommentReader._lookback_comment_split'
    props = ('C05',)
    uses = (MoveSpace,)

    def setup(c):
        return [AsteriskCommentReader, c.str('data'), c.where()]

    def spec(cls, data, where):
        text, comment = text_of(data), comment_of(data)
        if comment and text and text[-1] not in ' \t':
            W_WSH_COMMENT(where)
        n = len(text.rstrip(' \t'))
        return text[0:n], text[n:] + comment

    @inv
    def text_split(parts, data, old):
        return ''.join(parts) + text_of(data) == text_of(old[1])

    @inv
    def comment_split(data, old):
        return comment_of(data) == comment_of(old[1])

    @variant
    def shrinks(data):
        return len(data)


class Decode(StreamContract):
    target = F + 'EncodingReader.__iter__'
    props = ('C02',)

    def setup(c):
        return [c.obj(FileReader)]

    def item(c):
        return (c.where(), c.bytes('data'))

    def step(state, where, data):
        try:
            text = data.decode('utf-8')
        except UnicodeDecodeError:
            E_FILE_UTF8_BAD(where)
            text = data.decode('cp1252', 'replace')
        emit('yield', (where, text))


class CtrlChars(StreamContract):
    target = F + 'NoCtrlReader.__iter__'
    props = ('C03',)

    def setup(c):
        return [c.obj(FileReader)]

    def item(c):
        return (c.where(), c.str('data'))

    def step(state, where, data):
        if not matches('[^\x00-\x08\x0b\x0c\x0e-\x1f]*', data):
            W_FILE_CTRL_CHAR(where)
        emit('yield', (where, data))


class Comments(StreamContract):
    target = F + 'AsteriskCommentReader.__iter__'
    props = ('C05',)
    uses = (SimpleSplit, LookbackSplit)

    def setup(c):
        return [c.obj(FileReader)]

    def item(c):
        return (c.where(), c.str('data'))

    def step(state, where, data):
        stripped = data.rstrip(' \t')
        if stripped != data:
            W_WSH_EOL(where)
        text, comment = text_of(stripped), comment_of(stripped)
        if comment and text and text[-1] not in ' \t':
            W_WSH_COMMENT(where)
        n = len(text.rstrip(' \t'))
        emit('yield', (where, text[0:n], text[n:] + comment))


# -- files within files (C01)

class OpenFile:
    """An open file."""
    def close(self):
        raise NotImplementedError


class WithMode(OpenFile):
    mode = 'rb'


class Numbered:
    """The lines of an open file that are left, with their numbers."""


FILE, LINES = ObjT(OpenFile), ObjT(Numbered)
numbered = opaque('enumerate', FILE, ret=LINES)
place = opaque('realpath', STR, ret=STR)


def reader(c, **kw):
    return c.obj(BinFileReader, _files=c.list(FILE, 'files'),
                 _generators=c.list(LINES, 'generators'),
                 _filenames=c.list(STR, 'filenames'), **kw)


def following(eng, lines, *default):
    eng.emit(('next', lines))
    if eng.truth(eng.env['ghosts']['left']):
        return eng.env['ghosts']['number'], eng.env['ghosts']['line']
    if default:
        return default[0]
    raise PyExc(StopIteration())


class ReadFiles(StepContract):
    """One line of the file that was entered last, until there is none.

    (What runs at a yield may include a file: the next step starts there.)
    """
    target = F + 'BinFileReader.__iter__'
    props = ('C01',)
    env = {('call', next): following, 'no_termination': True,
           ('call', OpenFile.close): lambda e, fp: e.emit(('close', fp))}

    def setup(c):
        c.ghost(left=c.bool('left'), number=c.int('number'),
                line=c.bytes('line'))
        return [reader(c)]

    def requires(self):
        return len(self._files) == len(self._generators) == \
            len(self._filenames)

    @inv
    def of_one_height(args):
        self = args[0]
        return len(self._files) == len(self._generators) and \
            len(self._files) == len(self._filenames)

    def more(self):
        return len(self._generators) > 0

    def step(self):
        emit('next', self._generators[-1])
        if ghost('left'):
            emit('yield', (record(
                Where, filename=self._filenames[-1],
                lineno=ghost('number') + 1, line=ghost('line')),
                           ghost('line')))
        else:
            emit('close', self._files[-1])
            self._files.pop()
            self._generators.pop()
            self._filenames.pop()


def opened(eng, name):
    eng.emit(('open', name))
    if eng.truth(eng.env['ghosts']['exists']):
        return eng.env['ghosts']['file']
    raise PyExc(OSError())


def opener(name):
    raise NotImplementedError


class IncludeFile(Contract):
    """A file is entered, unless it is being read or cannot be opened."""
    target = F + 'BinFileReader.include'
    props = ('C01',)
    may_raise = (OSError,)
    schemas = {OpenFile: {'name': STR}, WithMode: {'name': STR}}
    env = {('call', opener): opened, ('call', os.strerror): lambda e, n: '',
           ('call', os.path.realpath):
           lambda e, name: e.models.apply_spec(place, [name]),
           ('call', enumerate):
           lambda e, fp: e.models.apply_spec(numbered, [fp])}

    def setup(c):
        fp = c.obj(c.choice(OpenFile, WithMode), name=c.str('real_name'))
        c.ghost(exists=c.bool('exists'), file=fp)
        return [reader(c, _opener=opener), c.str('name')]

    def spec(self, name):
        if place(name) in [place(i) for i in self._filenames]:
            raise OSError()
        emit('open', name)
        if not ghost('exists'):
            raise OSError()
        self._files.append(ghost('file'))
        self._generators.append(numbered(ghost('file')))
        self._filenames.append(ghost('file').name)


# -- line endings (C04)

INFO = StructT(STR, Opt(BOOL), Opt(BOOL), ObjT(Where))
STACK = SeqT(INFO)
left = opaque('left', STACK, Opt(STR), ret=STACK)


def leave(eng, reader, files, stop_at):
    """LeaveFiles, in short."""
    eng.emit(('left', eng.snapshot([files])[0], stop_at))
    r = eng.models.apply_spec(left, [files, stop_at])
    files.items, files.elem, files.z = None, r.elem, r.z
    files.version += 1
    eng.note_write(files)
    if not eng.truth(eng.call(still_there, [files, stop_at])):
        raise Infeasible()


def still_there(files, stop_at):
    """What LeaveFiles says of what is left."""
    return known(files) and (
        stop_at is None or len(files) > 0 and files[-1][0] == stop_at)


def known(files):
    """They have had a first line."""
    return all(i[1] is not None and i[2] is not None for i in files)


class Endings(StreamContract):
    """The first line of a file decides for the others."""
    target = F + 'FileformatReader.__iter__'
    props = ('C04',)
    structs = {4: INFO}
    schemas = {Where: {'filename': STR, 'lineno': INT, 'line': BYTES}}
    env = {('call', FileformatReader._pop_fileinfo): leave}

    def setup(c):
        return [c.obj(FileReader)]

    def item(c):
        return (c.val(ObjT(Where), 'where'), c.str('data'))

    def init(self):
        return []

    def step(files, where, data):
        if not files or files[-1][0] != where.filename:
            if where.filename in [i[0] for i in files]:
                emit('left', files, where.filename)
                files = left(files, where.filename)
            else:
                files = files + [[where.filename, None, None, where]]
        crlf, lf = data.endswith('\r\n'), data.endswith('\n')
        dos = files[-1][1]
        if dos is None:
            dos = crlf or not lf
        if dos and lf and not crlf:
            W_FILE_DOS_BARELF(where)
        if not dos and crlf:
            W_FILE_UNIX_CRLF(where)
        emit('yield', (where, data[:-2] if crlf else data[:-1] if lf else data))
        return files[:-1] + [[where.filename, dos, lf, where]]

    def finish(files):
        emit('left', files, None)

    @inv
    def files_so_far(fileinfo, _g):
        return fileinfo == _g

    @inv
    def format_of_file(fileinfo, is_dos=None):
        return not fileinfo or is_dos == fileinfo[-1][1]

    @inv
    def format_is_known(fileinfo):
        return known(fileinfo)


class LeaveFiles(StepContract):
    """Each file that is left is judged by its last line."""
    target = F + 'FileformatReader._pop_fileinfo'
    props = ('C04',)
    structs = {4: INFO}
    schemas = Endings.schemas

    def setup(c):
        return [c.obj(FileReader), c.list(INFO, 'fileinfo'),
                c.choice(None, c.str('stop_at'))]

    def requires(self, files, stop_at):
        return known(files) and (
            stop_at is None or stop_at in [i[0] for i in files])

    @inv
    def known_ones(args):
        return known(args[1])

    @inv
    def still_in(args):
        return args[2] is None or args[2] in [i[0] for i in args[1]]

    def more(self, files, stop_at):
        return len(files) > 0 and files[-1][0] != stop_at

    def step(self, files, stop_at):
        name, dos, lf, where = files.pop()
        if dos and lf:
            W_FILE_DOS_EOFCRLF(where)
        if not dos and not lf:
            W_FILE_UNIX_NOLF(where)

    def after(self, files, stop_at):
        return {'what is left': still_there(files, stop_at),
                'all are left': stop_at is not None or len(files) == 0}
