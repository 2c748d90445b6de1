"""Contracts of the commands that check (C24): their exit status."""
import builtins
import importlib
import os

from asterisklint import FileDialplanParser, FileFuncOdbcParser
from asterisklint.application import AppLoader
from asterisklint.defines import MessageDefManager
from asterisklint.dialplan import Dialplan
from asterisklint.mainutil import load_func_odbc_functions
from asterisklint.varfun import FuncLoader

from pyvc.api import Contract, ListContract
from pyvc.ghost import (
    emit, ghost, opaque, BOOL, INT, ObjT, SeqT, SetT, STR)
from pyvc.vals import SObj

COMMANDS = 'asterisklint.commands.'
for name in ('dialplan-check', 'dialplan-show', 'func_odbc-check',
             'modules-show'):
    importlib.import_module(COMMANDS + name)

is_file = opaque('exists', STR, ret=BOOL)
joined = opaque('join', STR, STR, ret=STR)
directory = opaque('dirname', STR, ret=STR)


class Message:
    """A message that was recorded."""


class Recorded:
    """The messages that were recorded, kind by kind."""
    def values(self):
        raise NotImplementedError


class Parsing:
    """A parser that was started."""
    def include(self, name):
        raise NotImplementedError


class Arguments:
    """What argparse made of the arguments."""


def started(kind):
    def handler(eng):
        return SObj(Parsing, {'kind': kind})
    return handler


def recorded(eng):
    eng.emit(('looked',))
    return SObj(Recorded, {})


def read(eng, parser):
    eng.emit(('dialplan',))
    return SObj(Dialplan, {})


MESSAGES = SeqT(ObjT(Message))
SEEN = {
    ('cattr', MessageDefManager, 'raised'): recorded,
    ('call', Recorded.values): lambda e, r: e.env['ghosts']['recorded'],
    ('call', FileDialplanParser): started('dialplan'),
    ('call', FileFuncOdbcParser): started('func_odbc'),
    ('call', Parsing.include): lambda e, p, name: e.emit(('read', p.fields['kind'], name)),
    ('call', builtins.iter): lambda e, p: p,
    ('call', builtins.next): read,
    ('call', Dialplan.walk_jump_destinations):
    lambda e, d: e.emit(('destinations',)),
    ('call', load_func_odbc_functions):
    lambda e, odbc, dialplan: e.emit(('functions', odbc, dialplan)),
    'iter': lambda e, p: (e.emit(('all of it',)), e.env['ghosts']['odbc'])[1],
}


def reported():
    """A message that is not ignored was reported.

    (The messages of a kind are ignored together: MessageDefMeta.)
    """
    return any(not i[0].muted for i in ghost('recorded'))


class CheckDialplan(Contract):
    """dialplan-check fails when a message that counts was reported."""
    target = COMMANDS + 'dialplan-check:Main.handle_args'
    props = ('C24',)
    schemas = {Message: {'muted': BOOL}}
    env = SEEN

    def setup(c):
        c.ghost(recorded=c.list(MESSAGES, 'recorded'))
        return [c.obj(importlib.import_module(COMMANDS + 'dialplan-check')
                      .Main),
                c.obj(Arguments, dialplan=c.str('dialplan'),
                      func_odbc=c.choice(None, c.str('func_odbc')))]

    def requires(self, args):
        return all(len(i) > 0 for i in ghost('recorded'))

    def spec(self, args):
        emit('functions', args.func_odbc, args.dialplan)
        emit('read', 'dialplan', args.dialplan)
        emit('dialplan')
        emit('destinations')
        emit('looked')
        if reported():
            return 1


class CheckFuncOdbc(Contract):
    """func_odbc-check fails when a message that counts was reported."""
    target = COMMANDS + 'func_odbc-check:Main.handle_args'
    props = ('C24',)
    schemas = {Message: {'muted': BOOL}}
    env = SEEN

    def setup(c):
        c.ghost(recorded=c.list(MESSAGES, 'recorded'),
                odbc=c.list(INT, 'odbc'))
        return [c.obj(importlib.import_module(COMMANDS + 'func_odbc-check')
                      .Main),
                c.obj(Arguments, func_odbc=c.str('func_odbc'))]

    def requires(self, args):
        return all(len(i) > 0 for i in ghost('recorded'))

    def spec(self, args):
        emit('read', 'func_odbc', args.func_odbc)
        emit('all of it')
        emit('looked')
        if reported():
            return 1


class LoadFunctions(Contract):
    """func_odbc.conf is read when it is named or beside the dialplan."""
    target = 'asterisklint.mainutil:load_func_odbc_functions'
    props = ('C24',)
    env = {**SEEN,
           ('call', os.path.join): lambda e, a, b:
           e.models.apply_spec(joined, [a, b]),
           ('call', os.path.dirname): lambda e, a:
           e.models.apply_spec(directory, [a]),
           ('call', os.path.exists): lambda e, a:
           e.models.apply_spec(is_file, [a])}

    def setup(c):
        c.ghost(odbc=c.list(INT, 'odbc'))
        return [c.choice(None, c.str('func_odbc')), c.str('dialplan')]

    def spec(func_odbc, dialplan):
        if func_odbc is None:
            func_odbc = joined(directory(dialplan), 'func_odbc.conf')
            if not is_file(func_odbc):
                return
        elif func_odbc == '':
            return
        emit('read', 'func_odbc', func_odbc)
        emit('all of it')


# -- listings

listing = opaque('listing', BOOL, ret=STR)
QUIET = {**SEEN,
         ('setcattr', MessageDefManager, 'muted'):
         lambda e, value: e.emit(('muted', value))}


class ShowDialplan(Contract):
    """dialplan-show prints the listing of the dialplan it is told to read."""
    target = COMMANDS + 'dialplan-show:Main.handle_args'
    props = ('C31',)
    env = {**QUIET, ('call', Dialplan.format_as_dialplan_show):
           lambda e, d, reverse: e.models.apply_spec(listing, [reverse])}

    def setup(c):
        return [c.obj(importlib.import_module(COMMANDS + 'dialplan-show')
                      .Main),
                c.obj(Arguments, dialplan=c.str('dialplan'),
                      reverse=c.bool('reverse'))]

    def spec(self, args):
        emit('muted', True)
        emit('read', 'dialplan', args.dialplan)
        emit('dialplan')
        print(listing(args.reverse))


SHOW = importlib.import_module(COMMANDS + 'modules-show')


class LoadStatements(ListContract):
    """One load statement per module, in order, but not for built-in ones."""
    target = COMMANDS + 'modules-show:Main.print_load_statements'
    props = ('C30',)
    element = STR

    def setup(c):
        return [c.obj(SHOW.Main), c.val(SetT(STR), 'modules')]

    def begin(self, all_modules):
        print('; modules.conf')

    def over(self, all_modules):
        return sorted(all_modules)

    def step(self, all_modules, module):
        if module != '<builtin>':
            print('load => {}.so'.format(module))

    def finish(self, all_modules):
        print()


def collected(kind):
    def handler(eng, self):
        return eng.env['ghosts'][kind]
    return handler


class ShowModules(Contract):
    """modules-show prints what the loaders say was used, and fails when an
    application or function is unknown."""
    target = COMMANDS + 'modules-show:Main.handle_args'
    props = ('C30',)
    env = {**QUIET,
           ('new', SHOW.Aggregator): lambda e: e.env['ghosts']['seen'],
           ('new', AppLoader): lambda e: e.env['ghosts']['apps'],
           ('new', FuncLoader): lambda e: e.env['ghosts']['funcs'],
           ('attr', AppLoader, 'used_modules'):
           lambda e, self: e.getattr(self, 'modules'),
           ('attr', FuncLoader, 'used_modules'):
           lambda e, self: e.getattr(self, 'modules'),
           ('call', SHOW.Main.print_modules_used):
           lambda e, self, apps, funcs: e.emit(
               ('used', apps is e.env['ghosts']['apps'],
                funcs is e.env['ghosts']['funcs'])),
           ('call', SHOW.Main.print_load_statements):
           lambda e, self, modules: e.emit(('load', modules)),
           ('call', SHOW.Main.print_unknowns):
           lambda e, self, seen: e.emit(
               ('unknown', seen is e.env['ghosts']['seen']))}

    def setup(c):
        c.ghost(seen=c.obj(SHOW.Aggregator,
                           unknown_apps=c.val(SetT(STR), 'unknown apps'),
                           unknown_funcs=c.val(SetT(STR), 'unknown funcs')),
                apps=c.obj(AppLoader, modules=c.list(STR, 'app modules')),
                funcs=c.obj(FuncLoader, modules=c.list(STR, 'func modules')))
        return [c.obj(SHOW.Main),
                c.obj(Arguments, dialplan=c.str('dialplan'),
                      func_odbc=c.choice(None, c.str('func_odbc')))]

    def spec(self, args):
        emit('muted', True)
        emit('functions', args.func_odbc, args.dialplan)
        emit('read', 'dialplan', args.dialplan)
        emit('dialplan')
        emit('used', True, True)
        emit('load', set(ghost('apps').modules) | set(ghost('funcs').modules))
        emit('unknown', True)
        if ghost('seen').unknown_apps or ghost('seen').unknown_funcs:
            return 1
        return 0


class PrintUnknowns(Contract):
    """All names that were not known are printed, sorted."""
    target = COMMANDS + 'modules-show:Main.print_unknowns'
    props = ('C30',)

    def setup(c):
        return [c.obj(SHOW.Main),
                c.obj(SHOW.Aggregator,
                      unknown_apps=c.val(SetT(STR), 'unknown apps'),
                      unknown_funcs=c.val(SetT(STR), 'unknown funcs'))]

    def spec(self, seen):
        if seen.unknown_apps:
            print('; WARNING: The following unknown applications were seen:')
            print(';   {}'.format(', '.join(sorted(seen.unknown_apps))))
            print(';')
        if seen.unknown_funcs:
            print('; WARNING: The following unknown functions were seen:')
            print(';   {}'.format(', '.join(sorted(seen.unknown_funcs))))
            print(';')


class UnknownApp(Contract):
    """Every unknown application is kept, by its name as it was written."""
    target = COMMANDS + 'modules-show:Aggregator.on_e_app_missing'
    props = ('C30',)

    def setup(c):
        return [c.obj(SHOW.Aggregator,
                      unknown_apps=c.val(SetT(STR), 'unknown apps'),
                      unknown_funcs=c.val(SetT(STR), 'unknown funcs')),
                c.obj(Message, fmtkwargs=c.dict({'app': c.str('app')}))]

    def spec(self, message):
        self.unknown_apps.add(message.fmtkwargs['app'])


class UnknownFunc(UnknownApp):
    target = COMMANDS + 'modules-show:Aggregator.on_e_func_missing'
    props = ('C30',)

    def setup(c):
        return [c.obj(SHOW.Aggregator,
                      unknown_apps=c.val(SetT(STR), 'unknown apps'),
                      unknown_funcs=c.val(SetT(STR), 'unknown funcs')),
                c.obj(Message, fmtkwargs=c.dict({'func': c.str('func')}))]

    def spec(self, message):
        self.unknown_funcs.add(message.fmtkwargs['func'])
