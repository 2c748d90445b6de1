"""Contracts of asterisklint/defines.py, cls.py, version.py and of the loaders
(asterisklint/application.py, asterisklint/varfun.py)."""
import os
import sys

from asterisklint.application import AppLoader
from asterisklint.cls import Singleton
from asterisklint.app import E_APP_MISSING
from asterisklint.defines import DuplicateMessageDef, MessageDefManager
from asterisklint.file import W_WSH_EOL
from asterisklint.varfun import FuncLoader
from asterisklint.version import AsteriskVersion

from pyvc.api import Contract, inv
from pyvc.ghost import (
    emit, ghost, opaque, record, DictT, SeqT, SetT, STR)

from .c_app import APP, SCHEMAS

D = 'asterisklint.defines:'

# -- recording and printing (C24)


class Manager:
    """Stands for the class MessageDefManager and its settings."""


class OnMessage(Contract):
    target = D + 'MessageDefManager.on_message'
    props = ('C24',)

    def setup(c):
        kind = c.choice(E_APP_MISSING, W_WSH_EOL)
        fields = {'app': c.str('app')} if kind is E_APP_MISSING else {}
        raised = c.choice({}, {kind.__name__: c.mklist([0])})
        cls = c.obj(
            Manager, raised=c.dict(raised, list), muted=c.bool('muted'),
            show_line=c.bool('show_line'),
            show_previous=c.bool('show_previous'))
        msg = c.obj(kind, where=c.where(), fmtkwargs=c.dict(fields),
                    previous=c.choice(None, c.where()),
                    muted=c.bool('class_muted'))
        return [cls, msg]

    def spec(cls, msg):
        name = msg.__class__.__name__
        cls.raised[name].append(msg)
        if cls.muted or msg.muted:
            return
        print('{} {}: {}'.format(msg.where, name, text(msg)), file=sys.stderr)
        if cls.show_line:
            line = repr(msg.where.line)[1:]
            if len(line) > 63:
                line = line[:63] + '...'
            print('  => {}'.format(line), file=sys.stderr)
        if cls.show_previous and msg.previous:
            print('    previous occurrence at {}'.format(msg.previous),
                  file=sys.stderr)


def text(msg):
    if msg.__class__ is E_APP_MISSING:
        return E_APP_MISSING.message.format(app=msg.fmtkwargs['app'])
    return W_WSH_EOL.message


def listed(entry, name):
    """Whether this entry of ALINT_IGNORE names the message."""
    return name == entry or (
        entry[-1:] == '_' and name.startswith(entry))


class NewMessage(Contract):
    """What is ignored; names are unique."""
    target = D + 'MessageDefManager.__new__'
    props = ('C24',)
    may_raise = (DuplicateMessageDef,)
    env = {('call', os.environ.get.__func__):
           lambda e, env, key, default:
           e.env['ghosts']['ignored'] if key == 'ALINT_IGNORE' else None,
           ('call', type.__new__): lambda e, *a: e.env['ghosts']['made']}

    def setup(c):
        cls = c.obj(Manager, types=c.val(SetT(STR), 'types'))
        c.ghost(ignored=c.str('ALINT_IGNORE'), made=c.obj(Made))
        return [cls, c.str('name'), (), c.dict()]

    def spec(cls, name, bases, classdict):
        if name in cls.types:
            raise DuplicateMessageDef(name)
        muted = False
        if not name.endswith('Def'):
            cls.types.add(name)
            entries = [i for i in set(ghost('ignored').split(',')) if i]
            muted = any(listed(i, name) for i in entries)
        made = record(Made)
        made._callbacks = []
        made.muted = muted
        return made

    @inv
    def none_yet(class_mute):
        return not class_mute

    @inv
    def before(name, _it, _k):
        return not any(listed(i, name) for i in _it[:_k])


class Made:
    """The class that is made."""


class Report(Contract):
    """A message is handed to its callbacks and to the manager, once."""
    target = D + 'MessageDef.__init__'
    props = ('C24', 'C25')
    env = {('call', MessageDefManager.on_message.__func__):
           lambda e, cls, msg: e.events.append(('manager', msg)),
           'construct': lambda e, cls, a, k: NotImplemented}

    def setup(c):
        callbacks = [called(i) for i in range(c.eng.choose(3))]
        callbacks = c.mklist(callbacks)
        c.ghost(callbacks=callbacks)
        c.eng.env[('cattr', W_WSH_EOL, '_callbacks')] = lambda e: callbacks
        return [c.obj(W_WSH_EOL), c.where(), c.choice(None, c.where())]

    def spec(self, where, previous):
        self.where = where
        self.previous = previous
        self.fmtkwargs = {}
        for callback in ghost('callbacks'):
            callback(self)
        emit('manager', self)


def called(i):
    def callback(msg):
        emit('callback', i, msg)
    return callback


# -- one instance, one version (C29)

C = 'asterisklint.cls:'
R = 'asterisklint.version:'


class Once(Contract):
    target = R + 'AsteriskVersion.__init__'
    props = ('C29',)

    def setup(c):
        return [c.obj(AsteriskVersion), c.choice(None, c.str('version'))]

    def spec(self, version):
        if version is None or version == '':
            self.version = 'v13'
        else:
            self.version = version


class Again(Contract):
    target = R + 'AsteriskVersion.reinit'
    props = ('C29',)
    may_raise = (RuntimeError,)

    def setup(c):
        return [c.obj(AsteriskVersion, version=c.str('current')),
                c.choice(None, c.str('version'))]

    def spec(self, version):
        if version is not None and version != '' and version != self.version:
            raise RuntimeError('')


class Shared:
    """A class with one instance."""


class WithReinit:
    def reinit(self, *args):
        emit('reinit', self, args)


class Without:
    pass


class Single(Contract):
    target = C + 'Singleton.__call__'
    props = ('C29',)

    def setup(c):
        c.eng.env[('super', '__call__')] = lambda e, sv: made
        kind = c.choice(WithReinit, Without)
        fresh = c.obj(kind, n=c.int('n'))
        there = c.obj(kind, n=c.int('m'))
        c.ghost(fresh=fresh)
        cls = c.obj(Shared)
        other = c.obj(Shared)
        known = [(other, c.obj(Without))] + c.choice([], [(cls, there)])
        cls.fields['_instances'] = c.dict(known)
        return [cls, c.choice((), (c.str('arg'),))]

    @classmethod
    def call_real(cls, eng, fn, args):
        return eng.call_func(eng.wrap(fn, Singleton), [args[0]] +
                             list(args[1]), {})

    def spec(cls, args):
        if cls in cls._instances:
            instance = cls._instances[cls]
            if hasattr(instance, 'reinit'):
                instance.reinit(*args)
            return instance
        cls._instances[cls] = ghost('fresh')
        emit('made', args)
        return ghost('fresh')


def made(*args):
    emit('made', args)
    return ghost('fresh')


names_in = opaque('names_in_directory', STR, ret=SeqT(STR))


class ListMods(Contract):
    target = R + 'AsteriskVersion._list_mods'
    props = ('C29',)
    env = {('call', os.listdir): lambda e, path: e.call(names_in, [path])}

    def setup(c):
        version = c.choice(*[
            i for i in sorted(os.listdir(HERE + '/app')) if i[0] == 'v'])
        return [c.obj(AsteriskVersion, version=version),
                c.choice('app', 'func')]

    def spec(self, submod):
        return ['asterisklint.' + submod + '.' + self.version + '.' + n[:-3]
                for n in names_in(HERE + '/' + submod + '/' + self.version)
                if n.endswith('.py')]


HERE = os.path.dirname(
    __import__('asterisklint.version').version.__file__)


# -- what was used (C30)


class UsedApps(Contract):
    target = 'asterisklint.application:AppLoader.used_apps'
    props = ('C30',)
    schemas = SCHEMAS

    def setup(c):
        return [c.obj(AppLoader,
                      _lower_apps=c.val(DictT(STR, APP), 'apps'),
                      _used_apps=c.val(SetT(STR), 'used'))]

    def requires(self):
        return all(i in self._lower_apps for i in sorted(self._used_apps))

    def spec(self):
        return [self._lower_apps[i] for i in sorted(self._used_apps)
                if i != 'unknown']


class UsedFuncs(UsedApps):
    target = 'asterisklint.varfun:FuncLoader.used_funcs'
    props = ('C30',)

    def setup(c):
        return [c.obj(FuncLoader,
                      _lower_funcs=c.val(DictT(STR, APP), 'funcs'),
                      _used_funcs=c.val(SetT(STR), 'used'))]

    def requires(self):
        return all(i in self._lower_funcs for i in sorted(self._used_funcs))

    def spec(self):
        return [self._lower_funcs[i] for i in sorted(self._used_funcs)
                if i != 'unknown']


class AppModules(UsedApps):
    target = 'asterisklint.application:AppLoader.used_modules'
    props = ('C30',)

    def requires(self):
        return all(i in self._lower_apps for i in self._used_apps)

    def spec(self):
        used = set([self._lower_apps[i].module for i in self._used_apps])
        return [m for m in sorted(used) if m != 'unknown']


class FuncModules(UsedFuncs):
    target = 'asterisklint.varfun:FuncLoader.used_modules'
    props = ('C30',)

    def requires(self):
        return all(i in self._lower_funcs for i in self._used_funcs)

    def spec(self):
        used = set([self._lower_funcs[i].module for i in self._used_funcs])
        return [m for m in sorted(used) if m != 'unknown']
