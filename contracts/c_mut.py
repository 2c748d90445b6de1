"""Contracts of asterisklint/helper/mutator.py (C27)."""
import builtins
import os
from tempfile import NamedTemporaryFile

from asterisklint.helper.mutator import FileMutatorBase

from pyvc.api import Contract, StreamContract, inv
from pyvc.ghost import (
    emit, ghost, opaque, specfn, BOOL, BYTES, INT, ObjT, SeqT, STR)
from pyvc.vals import PyExc

M = 'asterisklint.helper.mutator:'


class Issue:
    """What is wrong on a line."""


class Issues:
    """The issues of each file."""
    def __getitem__(self, filename):
        raise NotImplementedError

    def __bool__(self):
        raise NotImplementedError


class Original:
    """The file that is read."""


class Temporary:
    """The file that will replace it."""
    def write(self, data):
        raise NotImplementedError

    def flush(self):
        raise NotImplementedError

    def close(self):
        raise NotImplementedError


class Status:
    """What os.stat tells."""


ISSUE = ObjT(Issue)
realpath = opaque('realpath', STR, ret=STR)
dirname = opaque('dirname', STR, ret=STR)
changed = opaque('changed', ISSUE, BYTES, ret=BYTES)
status = opaque('status', STR, ret=ObjT(Status))


@specfn(SeqT(BYTES), SeqT(ISSUE), INT, INT, ret=SeqT(BYTES))
def rewritten(lines, issues, k, j):
    """The lines from the k-th on, when the j-th issue comes next."""
    if k < 0 or j < 0 or k >= len(lines):
        return []
    if j < len(issues) and issues[j].lineno == k:
        return [changed(issues[j], lines[k])] + rewritten(
            lines, issues, k + 1, j + 1)
    return [lines[k]] + rewritten(lines, issues, k + 1, j)


def may_fail(eng):
    """Anything may go wrong while the new contents are made."""
    if eng.choose(2):
        raise PyExc(OSError())


def created(eng, dir, mode, delete):
    temp = eng.env['ghosts']['temp']
    name = eng.env['ghosts']['filename']
    eng.prove(eng.models.eq_term(dir, eng.models.apply_spec(
        dirname, [eng.models.apply_spec(realpath, [name])])),
        'the new file is in the directory of the old')
    eng.prove(mode == 'wb' and delete is False, 'the new file is to be kept')
    return temp


def opened(eng, name, mode):
    eng.prove(eng.models.eq_term(name, eng.env['ghosts']['filename']),
              'the file itself is read')
    eng.prove(mode == 'rb', 'read as it is')
    may_fail(eng)
    return eng.env['ghosts']['original']


def written(eng, temp, data):
    may_fail(eng)
    eng.models.list_append(temp.fields['data'], data)


def process(eng, self, issue, inline, outfile):
    eng.prove(outfile is eng.env['ghosts']['temp'], 'into the new file')
    may_fail(eng)
    eng.models.list_append(outfile.fields['data'], eng.models.apply_spec(
        changed, [issue, inline]))


def flushed(eng, temp):
    may_fail(eng)
    temp.fields['flushed'] = True


def replaced(eng, source, target):
    temp = eng.env['ghosts']['temp']
    eng.prove(eng.models.eq_term(source, temp.fields['name']),
              'the new file replaces')
    eng.emit(('replaced', target, temp.fields['data']))


def content(eng, file):
    return eng.models.iter_symbolic(file.fields['lines'])


class ProcessFile(Contract):
    """The lines with an issue are changed, in one step, or nothing is."""
    target = M + 'FileMutatorBase.process_file'
    props = ('C27',)
    may_raise = (OSError,)
    schemas = {Issue: {'lineno': INT},
               Status: {'st_uid': INT, 'st_gid': INT, 'st_mode': INT}}
    env = {('call', os.path.realpath):
           lambda e, n: e.models.apply_spec(realpath, [n]),
           ('call', os.path.dirname):
           lambda e, n: e.models.apply_spec(dirname, [n]),
           ('call', NamedTemporaryFile): created,
           ('call', builtins.open): opened,
           ('call', builtins.print): lambda e, *a, **kw: None,
           'iter': content,
           ('call', Issues.__getitem__):
           lambda e, i, n: e.env['ghosts']['issues'],
           ('with', Original): lambda e, f, when: f,
           ('call', Temporary.write): written,
           ('call', Temporary.flush): flushed,
           ('call', Temporary.close): lambda e, f: e.emit(('closed',)),
           ('call', FileMutatorBase.process_issue): process,
           ('call', os.stat): lambda e, n: e.models.apply_spec(status, [n]),
           ('call', os.chown): lambda e, *a: e.emit(('chown',) + a),
           ('call', os.chmod): lambda e, *a: e.emit(('chmod',) + a),
           ('call', os.unlink): lambda e, n: e.emit(('unlink', n)),
           ('call', os.rename): replaced, ('call', os.replace): replaced}

    def setup(c):
        name = c.str('filename')
        lines = c.list(BYTES, 'lines')
        c.ghost(filename=name, lines=lines, issues=c.list(ISSUE, 'issues'),
                original=c.obj(Original, lines=lines),
                temp=c.obj(Temporary, name=c.str('temporary'), data=[]))
        return [c.obj(FileMutatorBase, issues_per_file=c.obj(Issues)), name]

    def requires(self, filename):
        return len(ghost('issues')) > 0

    def failed(self, filename):
        emit('unlink', ghost('temp').name)
        emit('closed')

    def spec(self, filename):
        name = ghost('temp').name
        emit('closed')
        now, then = status(name), status(filename)
        if now.st_uid != then.st_uid or now.st_gid != then.st_gid:
            emit('chown', name, then.st_uid, then.st_gid)
        if now.st_mode != then.st_mode:
            emit('chmod', name, then.st_mode)
        emit('replaced', realpath(filename),
             rewritten(ghost('lines'), ghost('issues'), 0, 0))

    @inv
    def so_far(temp, lines, issues, issueptr, _k):
        return temp.data + rewritten(lines, issues, _k, issueptr) == \
            rewritten(lines, issues, 0, 0)

    @inv
    def bounds(issueptr, issues):
        return 0 <= issueptr and issueptr <= len(issues)

    @inv
    def none_left(issue, issueptr, issues):
        return (issue is None) == (issueptr >= len(issues))

    @inv
    def next_one(issue, issueptr, issues):
        return issue is None or issue == issues[issueptr]


class ProcessAll(StreamContract):
    target = M + 'FileMutatorBase.process'
    props = ('C27',)
    env = {('call', FileMutatorBase.process_file):
           lambda e, m, name: e.emit(('process', name))}

    def setup(c):
        return [c.obj(FileMutatorBase, filenames=c.stream(ProcessAll))]

    def item(c):
        return c.str('filename')

    def step(state, filename):
        emit('process', filename)


class Permission(Contract):
    """Only after a yes."""
    target = M + 'FileMutatorBase.request_permission_and_process'
    props = ('C27',)
    env = {('call', builtins.print): lambda e, *a, **kw: None,
           ('call', builtins.input): lambda e, q: e.env['ghosts']['answer'],
           ('call', Issues.__bool__): lambda e, i: e.env['ghosts']['any'],
           ('call', FileMutatorBase.process): lambda e, m: e.emit(('all',))}

    def setup(c):
        c.ghost(answer=c.str('answer'), any=c.bool('any'))
        return [c.obj(FileMutatorBase, issues_per_file=c.obj(Issues),
                      filenames=c.list(STR, 'filenames'))]

    def spec(self):
        if ghost('any') and ghost('answer') == 'y':
            emit('all')
