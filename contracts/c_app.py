"""Contracts of asterisklint/app/base.py and asterisklint/application.py.

Arguments are texts; a letter that is an embedded variable is opaque."""
from asterisklint.app import (
    E_APP_ARG_BADOPT, E_APP_ARG_DUPEOPT, E_APP_ARG_FEW, E_APP_ARG_IFCONST,
    E_APP_ARG_IFEMPTY, E_APP_ARG_IFSTYLE, E_APP_ARG_MANY,
    E_APP_ARG_PIPEDELIM, E_APP_MISSING, W_APP_BAD_CASE, W_APP_BALANCE)
from asterisklint.application import (
    App, AppLoader, E_APP_WSH, W_APP_NEED_PARENS, W_APP_WSH)
from asterisklint.app.base import (
    AppArgsMixin, AppOptions, MinMaxArgsMixin, NoPipeDelimiterMixin,
    IfStyleApp, VarCondIfStyleApp)
from asterisklint.varfun import (
    E_FUNC_BAD_CASE, E_FUNC_MISSING, FuncLoader)
from asterisklint.variable import Var
from asterisklint.app.v13.app_exec import ExecIf
from asterisklint.app.v13.app_stack import Gosub, GosubIf
from asterisklint.app.v13.builtin import Goto, GotoIf
from asterisklint.where import Where

from pyvc.api import Contract, inv
from pyvc.ghost import (
    assume, emit, ghost, opaque, report_all, specfn, BOOL, DictT, INT, NONE, ObjT,
    SeqT, SetT, STR, TupT, UnionT)
import z3

from pyvc.vals import SObj

from .c_args import EMBEDDED, TEXTS, SeparateArgs, joined, separated

A = 'asterisklint.application:'
B = 'asterisklint.app.base:'
F = 'asterisklint.varfun:'


class AnyApp:
    """An application or function."""


APP = ObjT(AnyApp)
SCHEMAS = {AnyApp: {'name': STR, 'module': STR}}

# -- names (C20)


class CheckAvailability(Contract):
    target = B + 'AppBase.check_availability'
    props = ('C20',)
    schemas = SCHEMAS

    def setup(c):
        return [c.obj(AnyApp, name=c.str('name')), c.str('supplied_name'),
                c.where()]

    def spec(self, supplied_name, where):
        if supplied_name != self.name:
            if self.name == 'Unknown':
                E_APP_MISSING(where, app=supplied_name)
            else:
                W_APP_BAD_CASE(where, app=supplied_name, proper=self.name)


class GetApp(Contract):
    target = A + 'AppLoader.get'
    props = ('C20', 'C30')
    schemas = SCHEMAS

    def setup(c):
        return [c.obj(AppLoader,
                      _lower_apps=c.val(DictT(STR, APP), 'apps'),
                      _used_apps=c.val(SetT(STR), 'used')),
                c.str('lower_app')]

    def requires(self, lower_app):
        return 'unknown' in self._lower_apps

    def spec(self, lower_app):
        if lower_app not in self._lower_apps:
            self._lower_apps[lower_app] = self._lower_apps['unknown']
        self._used_apps.add(lower_app)
        return self._lower_apps[lower_app]


class GetFunc(Contract):
    target = F + 'FuncLoader.get'
    props = ('C20', 'C30')
    schemas = SCHEMAS

    def setup(c):
        return [c.obj(FuncLoader,
                      _lower_funcs=c.val(DictT(STR, APP), 'funcs'),
                      _used_funcs=c.val(SetT(STR), 'used')),
                c.str('lower_func')]

    def requires(self, lower_func):
        return 'unknown' in self._lower_funcs

    def spec(self, lower_func):
        if lower_func not in self._lower_funcs:
            self._lower_funcs[lower_func] = self._lower_funcs['unknown']
        self._used_funcs.add(lower_func)
        return self._lower_funcs[lower_func]


class RegisterApp(Contract):
    target = A + 'AppLoader.register'
    props = ('C20', 'C29')
    schemas = SCHEMAS

    def setup(c):
        return [c.obj(AppLoader,
                      _lower_apps=c.val(DictT(STR, APP), 'apps')),
                c.val(APP, 'app')]

    def spec(self, app):
        self._lower_apps[app.name.lower()] = app


class RegisterFunc(Contract):
    target = F + 'FuncLoader.register'
    props = ('C20', 'C26', 'C29')
    schemas = SCHEMAS

    def setup(c):
        return [c.obj(FuncLoader,
                      _lower_funcs=c.val(DictT(STR, APP), 'funcs')),
                c.val(APP, 'func')]

    def spec(self, func):
        self._lower_funcs[func.name.lower()] = func


class CheckFunc(Contract):
    target = F + 'FuncLoader._get_and_check_availability'
    props = ('C20',)
    schemas = SCHEMAS
    uses = (GetFunc,)

    def setup(c):
        self = c.obj(FuncLoader, _lower_funcs=c.val(DictT(STR, APP), 'funcs'),
                     _used_funcs=c.val(SetT(STR), 'used'))
        c.ghost(loader=self)
        return [self, c.str('func'), c.where()]

    # there is one FuncLoader (C29)
    env = {('new', FuncLoader): lambda e: e.env['ghosts']['loader']}

    def requires(self, func, where):
        return 'unknown' in self._lower_funcs

    def spec(self, func, where):
        lower = func.lower()
        if lower in self._lower_funcs:
            loaded = self._lower_funcs[lower]
        else:
            loaded = self._lower_funcs['unknown']
        self._lower_funcs[lower] = loaded
        self._used_funcs.add(lower)
        if loaded.name != func:
            if loaded.name == 'UNKNOWN':
                E_FUNC_MISSING(where, func=func)
            else:
                E_FUNC_BAD_CASE(where, func=func, proper=loaded.name)
        return loaded


class SplitAppData(Contract):
    target = A + 'App.split_app_data'
    props = ('C20',)

    def setup(c):
        return [c.obj(App, raw=c.str('raw'), where=c.where(),
                      jump_destinations=[])]

    def spec(self):
        raw = self.raw
        if '(' in raw:
            at = raw.index('(')
            app = raw[:at]
            data = raw[at:]
        else:
            app = raw
            data = '()'
            if app.lower() != 'noop':
                W_APP_NEED_PARENS(self.where, app=app)
        if data.endswith(')'):
            data = data[1:-1]
        self.data = data
        self.app = app
        self.app_lower = app.lower()
        if app.rstrip() != app:
            E_APP_WSH(self.where, app=app)
            return False
        if app.lstrip() != app:
            W_APP_WSH(self.where, app=app)
            self.app = app.lstrip()
            self.app_lower = self.app.lower()
        if self.app == '':
            E_APP_MISSING(self.where, app='(none)')
            return False
        return True


# -- numbers of arguments, options (C21)

split = opaque('arguments_of', STR, ret=TEXTS)


def split_up(e, sv):
    """What the next class in line makes of the data: some arguments."""
    def split_args(data, where):
        raise NotImplementedError
    split_args.__sym__ = lambda e, data, where: e.call(arguments, [data])
    return split_args


def arguments(data):
    args = split(data)
    assume(len(args) > 0)
    return args


SUPER = {('super', 'split_args'): split_up}
NUMBER = UnionT(NONE, INT)


class MinMaxArgs(Contract):
    target = B + 'MinMaxArgsMixin.split_args'
    props = ('C21',)
    env = SUPER

    def setup(c):
        return [c.obj(MinMaxArgsMixin, name=c.str('name'),
                      _min_args=c.val(NUMBER, 'min_args'),
                      _max_args=c.val(NUMBER, 'max_args')),
                c.str('data'), c.where()]

    def requires(self, data, where):
        return self._min_args is None or self._max_args is None or \
            self._min_args <= self._max_args

    def spec(self, data, where):
        args = arguments(data)
        few = self._min_args is not None and (
            len(args) < self._min_args or
            self._min_args == 1 and args == [''])
        many = self._max_args is not None and len(args) > self._max_args
        if few:
            E_APP_ARG_FEW(where, app=self.name, min_args=self._min_args)
        if many and not few:
            E_APP_ARG_MANY(where, app=self.name, max_args=self._max_args)
        return args


class NoPipes(Contract):
    target = B + 'NoPipeDelimiterMixin.split_args'
    props = ('C21',)
    env = SUPER

    def setup(c):
        return [c.obj(NoPipeDelimiterMixin, name=c.str('name')),
                c.str('data'), c.where()]

    def spec(self, data, where):
        args = arguments(data)
        if len(args) == 1 and '|' in args[0]:
            E_APP_ARG_PIPEDELIM(where, app=self.name, data=data)
        return args


class AnyArg:
    """A declared argument."""
    def validate(self, arg, where):
        raise NotImplementedError


CHECKED = TupT(ObjT(AnyArg), STR, ObjT(Where))


@specfn(SeqT(ObjT(AnyArg)), TEXTS, ObjT(Where), INT, ret=SeqT(CHECKED))
def validations(declared, args, where, n):
    """What is validated when n arguments were looked at."""
    if n <= 0:
        return []
    before = validations(declared, args, where, n - 1)
    if n - 1 < len(declared) and n - 1 < len(args):
        return before + [(declared[n - 1], args[n - 1], where)]
    return before


class CheckArgs(Contract):
    """Each argument that is declared is validated, once and in order."""
    target = B + 'AppArgsMixin.split_args'
    props = ('C21',)
    env = dict(SUPER)
    env['call', AnyArg.validate] = lambda e, arg, value, where: \
        e.models.list_append(e.trace['msg'], (arg, value, where))
    traced = {'reported': CHECKED}

    def setup(c):
        return [c.obj(AppArgsMixin, name=c.str('name'),
                      _args=c.list(ObjT(AnyArg), 'declared')),
                c.str('data'), c.where()]

    def spec(self, data, where):
        args = arguments(data)
        report_all(validations(self._args, args, where, len(args)))
        return args

    @inv
    def validated(reported, args, _it, _k):
        return reported == validations(args[0]._args, _it, args[2], _k)


class Options(Contract):
    target = B + 'AppOptions.validate'
    props = ('C21',)
    env = EMBEDDED

    def setup(c):
        return [c.obj(AppOptions, options=c.str('options'),
                      argno=c.int('argno'), app=c.str('app')),
                c.str('arg'), c.where()]

    def spec(self, arg, where):
        letters = [i for i in arg if isinstance(i, str)]
        bad = [i for i in letters if i not in self.options]
        if bad:
            E_APP_ARG_BADOPT(where, argno=self.argno, app=self.app,
                             opts=''.join(bad))
        if len(set(letters)) < len(letters):
            E_APP_ARG_DUPEOPT(where, argno=self.argno, app=self.app, opts=arg)


# -- conditional applications (C21)


def texts(data, delimiter, remove):
    """The arguments of SeparateArgs."""
    args = separated(data, delimiter, remove, 0, 0, 0, 0, False, False, [[]])
    result = [''.join(letters) for letters in args]
    assume(len(result) > 0)
    return result


class IfStyle(Contract):
    target = B + 'IfStyleApp.split_args'
    props = ('C21', 'C22')
    env = EMBEDDED
    uses = (SeparateArgs,)

    def setup(c):
        return [c.obj(IfStyleApp, name=c.str('name'), _arg_delimiter='?',
                      _arg_raw=True), c.str('data'), c.where()]

    def spec(self, data, where):
        parts = texts(data, '?', True)
        if len(parts) == 1:
            # commas, as it was done long ago
            old = texts(data, ',', False)
            cond, iftrue, iffalse = old[0], old[1:], None
            if iftrue:
                E_APP_ARG_IFSTYLE(where, app=self.name, data=data,
                                  cond=cond, args=iftrue)
            else:
                E_APP_ARG_FEW(where, app=self.name, data=data, min_args=2)
        else:
            if len(parts) > 2:
                E_APP_ARG_MANY(where, app=self.name, data=data, max_args=2)
            cond = parts[0]
            branches = texts(parts[1], ':', False)
            iftrue, iffalse = branches[0], None
            if len(branches) > 1:
                iffalse = branches[1]
        cond = cond.strip()
        if cond == '':
            E_APP_ARG_IFEMPTY(where, app=self.name, data=data)
        return cond, iftrue, iffalse


class VarCond(Contract):
    target = B + 'VarCondIfStyleApp.split_args'
    props = ('C21',)
    env = EMBEDDED
    uses = (IfStyle,)

    def setup(c):
        return [c.obj(VarCondIfStyleApp, name=c.str('name'),
                      _arg_delimiter='?', _arg_raw=True),
                c.str('data'), c.where()]

    def spec(self, data, where):
        cond, iftrue, iffalse = IfStyle.spec(self, data, where)
        if cond != '' and (isinstance(cond, str) or
                           any(isinstance(i, str) for i in cond)):
            E_APP_ARG_IFCONST(where, app=self.name, data=data, cond=cond)
        return cond, iftrue, iffalse


# -- where applications jump to (C22)

PART = UnionT(NONE, STR)
PLACE = TupT(PART, PART, STR)
PLACES = SeqT(PLACE)
JOIN = {**EMBEDDED, ('call', Var.join.__func__):
        lambda e, cls, pieces: e.call(joined, [pieces])}
BUILTIN = 'asterisklint.app.v13.builtin:'
STACK = 'asterisklint.app.v13.app_stack:'


@specfn(TEXTS, INT, ret=STR)
def rest(args, n):
    """The first n arguments, each after a comma."""
    if n <= 0:
        return ''
    return rest(args, n - 1) + ',' + args[n - 1]


def place(args):
    if len(args) == 1:
        return None, None, args[0]
    if len(args) == 2:
        return None, args[0], args[1]
    return args[0], args[1], args[2] + rest(args[3:], len(args) - 3)


def some_arguments(c):
    """One, two, three or more arguments."""
    n = c.choice(1, 2, 3, 4)
    if n < 4:
        return c.eng.mklist([c.str('arg%d' % i) for i in range(n)])
    args = c.list(STR, 'more')
    args.z = z3.Concat(*[z3.Unit(c.str('arg%d' % i).z) for i in range(4)],
                       args.z)
    return args


class ToDestination(Contract):
    target = BUILTIN + '_args_to_destination'
    props = ('C22',)
    env = {**JOIN, 'peel': True}

    def setup(c):
        return [some_arguments(c)]

    def requires(args):
        return len(args) > 0

    def spec(args):
        return place(args)

    @inv
    def collected(old, _it, _k, excess):
        return ''.join(excess) == old[0][2] + rest(_it, _k)


split_gosub = opaque('split_gosub', STR, ret=STR)


def label_of(prio):
    """Without the arguments of the Gosub."""
    if '(' in prio:
        return prio[:prio.index('(')]
    return prio


class SplitGosubPrio(Contract):
    target = STACK + '_GosubMixin._split_gosub_prio_args'
    props = ('C22',)
    env = JOIN

    def setup(c):
        return [c.obj(Gosub), c.str('prio'), c.where()]

    def spec(self, prio, where):
        if '(' not in prio:
            return prio, None
        at = prio.index('(')
        if prio[-1] == ')':
            args = prio[at + 1:-1]
        else:
            args = prio[at + 1:]
            W_APP_BALANCE(where, data=prio)
        return prio[:at], args

    @inv
    def not_yet(prio, _k):
        return '(' not in prio[:_k]

    @inv
    def unchanged(args, prio):
        return prio == args[1]


gosub_place = opaque('gosub_place', TEXTS, ret=PLACE)


def gosub_destination(args, where):
    """What GosubDestination specifies, with its messages."""
    emit('gosub', args, where)
    return gosub_place(args)


class GosubDestination(Contract):
    target = STACK + '_GosubMixin._gosub_args_to_destination'
    props = ('C22',)
    env = {**JOIN, 'peel': True}
    uses = (SplitGosubPrio,)

    def setup(c):
        return [c.obj(c.choice(Gosub, GosubIf), name=c.str('name')),
                some_arguments(c), c.where()]

    def requires(self, args, where):
        return len(args) > 0

    def spec(self, args, where):
        context, exten, prio = place(args)
        if isinstance(self, GosubIf) and len(args) > 3:
            E_APP_ARG_MANY(where, app=self.name, max_args=3)
        return context, exten, SplitGosubPrio.spec(self, prio, where)[0]

    def apply_spec(self, args, where):
        return gosub_destination(args, where)

    @inv
    def collected(old, _it, _k, excess):
        return ''.join(excess) == old[1][2] + rest(_it, _k)


def plain_split(e, self, data, where):
    """split_args, of which all we need is that it gives arguments."""
    return e.call(arguments, [data])


class GotoCall(Contract):
    target = BUILTIN + 'Goto.__call__'
    props = ('C22',)
    env = {**JOIN, ('call', NoPipeDelimiterMixin.split_args): plain_split}
    uses = (ToDestination,)

    def setup(c):
        return [c.obj(Goto), c.str('data'), c.where(),
                c.list(PLACE, 'jump_destinations')]

    def spec(self, data, where, jump_destinations):
        args = arguments(data)
        jump_destinations.append(place(args))
        return args


class GosubCall(Contract):
    target = STACK + 'Gosub.__call__'
    props = ('C22',)
    env = {**JOIN, ('call', NoPipeDelimiterMixin.split_args): plain_split}
    uses = (GosubDestination,)

    def setup(c):
        return [c.obj(Gosub, name=c.str('name')), c.str('data'), c.where(),
                c.list(PLACE, 'jump_destinations')]

    def spec(self, data, where, jump_destinations):
        args = arguments(data)
        jump_destinations.append(gosub_destination(args, where))
        return args


condition = opaque('condition_of', STR, ret=STR)
true_branch = opaque('true_branch_of', STR, ret=UnionT(STR, TEXTS))
false_branch = opaque('false_branch_of', STR, ret=PART)


def branches(data):
    """The result of IfStyle, for any data."""
    return condition(data), true_branch(data), false_branch(data)


IF_STYLE = {**EMBEDDED, ('call', VarCondIfStyleApp.split_args):
            lambda e, self, data, where: e.call(branches, [data])}


class GotoIfCall(Contract):
    target = BUILTIN + 'GotoIf.__call__'
    props = ('C22',)
    env = IF_STYLE
    uses = (ToDestination, SeparateArgs)

    def setup(c):
        return [c.obj(GotoIf), c.str('data'), c.where(),
                c.list(PLACE, 'jump_destinations')]

    def spec(self, data, where, jump_destinations):
        cond, iftrue, iffalse = branches(data)
        if iftrue:
            args = iftrue if isinstance(iftrue, list) else texts(
                iftrue, ',', True)
            jump_destinations.append(place(args))
        if iffalse:
            jump_destinations.append(place(texts(iffalse, ',', True)))
        return cond, iftrue, iffalse


class GosubIfCall(Contract):
    target = STACK + 'GosubIf.__call__'
    props = ('C22',)
    env = IF_STYLE
    uses = (GosubDestination, SeparateArgs)

    def setup(c):
        return [c.obj(GosubIf, name=c.str('name')), c.str('data'), c.where(),
                c.list(PLACE, 'jump_destinations')]

    def spec(self, data, where, jump_destinations):
        cond, iftrue, iffalse = branches(data)
        if iftrue:
            args = iftrue if isinstance(iftrue, list) else texts(
                iftrue, ',', True)
            jump_destinations.append(
                gosub_destination(args, where))
        if iffalse:
            jump_destinations.append(
                gosub_destination(texts(iffalse, ',', True), where))
        return cond, iftrue, iffalse


inner_jumps = opaque('jumps_of_application', STR, ret=PLACES)


class ExecIfCall(Contract):
    """The jumps of the applications that are executed are its jumps."""
    target = 'asterisklint.app.v13.app_exec:ExecIf.__call__'
    props = ('C22',)
    env = {**IF_STYLE, ('new', App): lambda e, app, where: SObj(App, {
        'jump_destinations': e.call(inner_jumps, [app])})}

    def setup(c):
        return [c.obj(ExecIf), c.str('data'), c.where(),
                c.list(PLACE, 'jump_destinations')]

    def spec(self, data, where, jump_destinations):
        cond, iftrue, iffalse = branches(data)
        if iftrue and isinstance(iftrue, str):
            jump_destinations.extend(inner_jumps(iftrue))
        if iffalse:
            jump_destinations.extend(inner_jumps(iffalse))
        return cond, iftrue, iffalse
