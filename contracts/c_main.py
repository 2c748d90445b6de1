"""Contracts of asterisklint/main.py and mainutil.py (C28)."""
import argparse
import builtins
import importlib.util
import os
import sys

from asterisklint.main import NoSuchCommand, list_command_dirs, list_commands, load_command
from asterisklint.mainutil import MainBase

from pyvc.api import Contract, Lemma, StreamContract, inv
from pyvc.ghost import (
    emit, ghost, implies, matches, opaque, specfn, BOOL, INT, ObjT, Opt, SeqT, STR)
from pyvc.vals import PyExc, SObj

M = 'asterisklint.main:'
NAME = '[a-z0-9][a-z0-9_-]*\n?'

is_dir = opaque('isdir', STR, ret=BOOL)
is_file = opaque('isfile', STR, ret=BOOL)
joined = opaque('join', STR, STR, ret=STR)


def join(eng, *parts):
    r = parts[0]
    for p in parts[1:]:
        r = eng.models.apply_spec(joined, [r, p])
    return r


FILES = {('call', os.path.join): join,
         ('call', os.path.isdir): lambda e, p: e.models.apply_spec(is_dir, [p]),
         ('call', os.path.isfile):
         lambda e, p: e.models.apply_spec(is_file, [p])}


class CommandDirs(StreamContract):
    """Every place on the path that has commands, in its order."""
    target = M + 'list_command_dirs'
    props = ('C28',)
    env = {**FILES, ('mattr', sys, 'path'): lambda e: e.env['ghosts']['path']}

    def setup(c):
        c.ghost(path=c.stream(CommandDirs))
        return []

    def item(c):
        return c.str('place')

    def step(state, place):
        commands = joined(joined(place, 'asterisklint'), 'commands')
        if is_dir(commands):
            emit('yield', commands)


@specfn(SeqT(STR), STR, INT, ret=Opt(STR))
def first_file(dirs, name, k):
    """The first of the directories, from the k-th on, that has the file."""
    if k < 0 or k >= len(dirs):
        return None
    if is_file(joined(dirs[k], name)):
        return joined(dirs[k], name)
    return first_file(dirs, name, k + 1)


class Spec:
    """A module that could be loaded."""


class Loader:
    def exec_module(self, module):
        raise NotImplementedError


class Module:
    """A module."""


def entry(eng, module):
    if eng.truth(eng.env['ghosts']['entry']):
        return SObj(Module, {})
    raise PyExc(AttributeError('main'), 'main')


def specified(eng, name, path):
    eng.emit(('found', name, path))
    return eng.env['ghosts']['spec']


class LoadCommand(Contract):
    """The command in the first directory that has it, if it can be run."""
    target = M + 'load_command'
    props = ('C28',)
    may_raise = (NoSuchCommand,)
    env = {**FILES,
        ('call', list_command_dirs):
        lambda e: e.env['ghosts']['dirs'],
        ('call', importlib.util.spec_from_file_location): specified,
        ('call', importlib.util.module_from_spec):
        lambda e, spec: e.env['ghosts']['module'],
        ('call', Loader.exec_module):
        lambda e, loader, module: e.emit(('executed', module)),
        ('attr', Module, 'main'): entry}

    def setup(c):
        c.ghost(dirs=c.list(STR, 'dirs'), entry=c.bool('entry'),
                spec=c.obj(Spec, loader=c.obj(Loader)), module=c.obj(Module))
        return [c.str('command'), c.choice(None, c.str('path'))]

    def spec(command, path):
        if not matches(NAME, command):
            raise NoSuchCommand()
        if not path:
            path = first_file(ghost('dirs'), command + '.py', 0)
            if path is None:
                raise NoSuchCommand()
        emit('found', 'asterisklint.commands.' + command, path)
        emit('executed', ghost('module'))
        if not ghost('entry'):
            raise NoSuchCommand()
        return ghost('module')

    @inv
    def not_before(dirs, args, _k):
        return first_file(dirs, args[0] + '.py', 0) == \
            first_file(dirs, args[0] + '.py', _k)


class Environment:
    """The environment of the process."""
    def get(self, name, default=None):
        raise NotImplementedError


class Program:
    """What a command is: called with arguments and environment."""
    def __call__(self, args, envs):
        raise NotImplementedError


class Command:
    """A module with an entry."""


def loaded(eng, command):
    eng.emit(('load', command))
    if eng.truth(eng.env['ghosts']['known']):
        return eng.env['ghosts']['module']
    raise PyExc(NoSuchCommand('no such command'))


def ran(eng, program, args, envs):
    eng.emit(('run', eng.snapshot([args])[0], envs))
    return eng.env['ghosts']['status']


def printed(eng, *what, file=None):
    if file is sys.stderr:
        eng.emit(('error',))


def leaves(eng, parser, what):
    raise PyExc(SystemExit(2))


class Options(Lemma):
    """Something else is not among options."""
    target = M + 'main'
    name = 'lemma: a command is not an option'
    props = ('C28',)

    def setup(c):
        return [c.list(STR, 'options'), c.str('last'), c.str('command')]

    def requires(options, last, command):
        return not command.startswith('-') and last.startswith('-') and \
            command not in options and \
            len([i for i in options if not i.startswith('-')]) == 0

    def prove(options, last, command):
        """By induction: none, and one more."""
        none, more = [], options + [last]
        assert command not in none
        assert len([i for i in none if not i.startswith('-')]) == 0
        assert command not in more
        assert len([i for i in more if not i.startswith('-')]) == 0


class Main(Contract):
    """The first argument that is no option is the command."""
    target = M + 'main'
    props = ('C28',)
    frame = False
    env = {**FILES,
           ('mattr', sys, 'path'): lambda e: e.env['ghosts']['path'],
           ('mattr', sys, 'argv'): lambda e: e.env['ghosts']['argv'],
           ('call', os.path.exists):
           lambda e, p: e.models.apply_spec(there, [p]),
           ('call', Environment.get): lambda e, v, name, default=None:
           e.models.apply_spec(home, [name, default]),
           ('call', builtins.print): printed,
           ('call', list_commands):
           lambda e, args, envs: e.emit(('list',)),
           ('call', load_command): loaded,
           ('call', Program.__call__): ran}

    def setup(c):
        options, rest = c.list(STR, 'options'), c.list(STR, 'rest')
        command = c.str('command')
        c.ghost(path=c.list(STR, 'path'), argv=c.list(STR, 'argv'),
                options=options, rest=rest, command=command,
                status=c.int('status'), known=c.bool('known'),
                module=c.obj(Command, main=c.obj(Program)))
        add = c.eng.models.list_add
        args = add(add(options, c.mklist([command])), rest)
        args.birth = 0
        return [args, c.obj(Environment)]

    def requires(args, envs):
        # Options
        return len(ghost('argv')) > 0 and \
            not ghost('command').startswith('-') and \
            ghost('command') not in ghost('options') and \
            len([i for i in ghost('options') if not i.startswith('-')]) == 0

    def spec(args, envs):
        command = ghost('command')
        if command == 'ls':
            emit('list')
            return
        emit('load', command)
        if not ghost('known'):
            emit('error')
            return 1
        emit('run', ghost('options') + ghost('rest'), envs)
        return ghost('status')


class Parser:
    """Of the arguments."""
    def add_argument(self, *names, **settings):
        raise NotImplementedError

    def parse_args(self, args):
        raise NotImplementedError

    def error(self, what):
        raise NotImplementedError


class NoCommand(Contract):
    """Without a command it is an error, unless the parser ends before."""
    target = M + 'main'
    name = 'main (without a command)'
    props = ('C28',)
    frame = False
    may_raise = (SystemExit,)
    env = {**Main.env,
           ('call', argparse.ArgumentParser):
           lambda e, **settings: SObj(Parser, {}),
           ('call', Parser.add_argument): lambda e, *a, **kw: None,
           ('call', Parser.parse_args):
           lambda e, p, args: e.emit(('parse', args)),
           ('call', Parser.error): leaves}

    def setup(c):
        c.ghost(path=c.list(STR, 'path'), argv=c.list(STR, 'argv'),
                known=c.bool('known'))
        return [c.list(STR, 'options'), c.obj(Environment)]

    def requires(args, envs):
        return len([i for i in args if not i.startswith('-')]) == 0

    def spec(args, envs):
        emit('parse', args)
        raise SystemExit()


there = opaque('exists', STR, ret=BOOL)
home = opaque('environment', STR, STR, ret=STR)


class MainCall(Contract):
    """The status of a command is that of its handler."""
    target = 'asterisklint.mainutil:MainBase.__call__'
    props = ('C28',)
    env = {('call', MainBase.parse_args):
           lambda e, m, args: e.models.apply_spec(parsed, [args]),
           ('call', MainBase.handle_args):
           lambda e, m, args: e.models.apply_spec(handled, [args])}

    def setup(c):
        return [c.obj(MainBase), c.list(STR, 'args'), c.obj(Module)]

    def spec(self, args, envs):
        return handled(parsed(args))


class Parsed:
    """What the arguments mean."""


parsed = opaque('parsed', SeqT(STR), ret=ObjT(Parsed))
handled = opaque('handled', ObjT(Parsed), ret=INT)
