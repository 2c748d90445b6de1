"""Contracts of asterisklint/func_odbc.py (C26)."""
from asterisklint.config import (
    ConfigAggregator,
    E_CONF_CTX_MISSING, E_CONF_KEY_DUPE, E_CONF_KEY_INVALID, H_CONF_HAS_ARROW,
    W_CONF_KEY_LATE)
from asterisklint.configobj import Context, Varset, I_NOTIMPL_TEMPLATES
from asterisklint.func_odbc import (
    E_ODBC_NOSQL, W_ODBC_BADTOKENS, W_ODBC_LEGACY, W_ODBC_TAILSEMI,
    FuncOdbcAggregator, FuncOdbcFunc, OdbcFunction)
from asterisklint.varfun import FuncLoader
from asterisklint.where import Where

from pyvc.api import Contract, Lemma, StreamContract, inv
from pyvc.ghost import (
    emit, matches, opaque, record, specfn, BOOL, BYTES, DictT, INT, ObjT, Opt, SeqT,
    STR)
from pyvc.vals import SObj

from .c_config import ContextAdd

O = 'asterisklint.func_odbc:'
VS = ObjT(Varset)
SCHEMAS = {Varset: {'variable': STR, 'value': STR, 'arrow': BOOL,
                    'where': ObjT(Where)},
           Where: {'filename': STR, 'lineno': INT, 'line': BYTES}}


def function(c, **fields):
    return c.obj(OdbcFunction, name=c.str('name'), where=c.where(),
                 _varsets=c.list(VS, 'settings'), **fields)


@specfn(SeqT(VS), STR, INT, ret=Opt(STR))
def first(settings, key, k):
    """What the first of the settings from the k-th on that is key says."""
    if k < 0 or k >= len(settings):
        return None
    if settings[k].variable == key:
        return settings[k].value
    return first(settings, key, k + 1)


class GetVariable(Contract):
    target = O + 'OdbcFunction.get_variable'
    props = ('C26',)
    schemas = SCHEMAS

    def setup(c):
        return [function(c), c.str('key')]

    def spec(self, key):
        return first(self._varsets, key, 0)

    @inv
    def not_before(args, _k):
        self, key = args[0], args[1]
        return first(self._varsets, key, 0) == first(self._varsets, key, _k)


class HasVariable(Contract):
    target = O + 'OdbcFunction.has_variable'
    props = ('C26',)
    schemas = SCHEMAS
    uses = (GetVariable,)

    def setup(c):
        return [function(c), c.str('key')]

    def spec(self, key):
        return first(self._varsets, key, 0) is not None


class GetPrefix(Contract):
    target = O + 'OdbcFunction.get_prefix'
    props = ('C26',)
    schemas = SCHEMAS
    uses = (GetVariable,)

    def setup(c):
        return [function(c)]

    def spec(self):
        prefix = first(self._varsets, 'prefix', 0)
        if prefix is None or prefix == '':
            return 'ODBC'
        return prefix


class GetFunctionName(Contract):
    target = O + 'OdbcFunction.get_function_name'
    props = ('C26',)
    schemas = SCHEMAS
    uses = (GetPrefix,)

    def setup(c):
        return [function(c)]

    def spec(self):
        prefix = first(self._varsets, 'prefix', 0)
        if prefix is None or prefix == '':
            prefix = 'ODBC'
        return prefix + '_' + self.name


class AnyReadWrite(Contract):
    target = O + 'OdbcFunction.finalize_check_any_read_write'
    props = ('C26',)
    schemas = SCHEMAS
    uses = (HasVariable,)

    def setup(c):
        return [function(c)]

    def spec(self):
        if first(self._varsets, 'read', 0) is None and \
                first(self._varsets, 'write', 0) is None and \
                first(self._varsets, 'readsql', 0) is None and \
                first(self._varsets, 'writesql', 0) is None:
            E_ODBC_NOSQL(self.where)
            return False
        return True


def registers(eng, loader, func):
    eng.emit(('register', func.fields['_name']))


class Finalize(Contract):
    """Dialplans know the function that it defines, and only then."""
    target = O + 'OdbcFunction.finalize'
    props = ('C26', 'C20')
    schemas = SCHEMAS
    uses = (AnyReadWrite, GetFunctionName)
    env = {('call', FuncLoader): lambda eng: SObj(FuncLoader, {}),
           ('call', FuncLoader.register): registers}

    def setup(c):
        return [function(c)]

    def spec(self):
        defined = False
        for key in ('read', 'write', 'readsql', 'writesql'):
            if first(self._varsets, key, 0) is not None:
                defined = True
        if not defined:
            E_ODBC_NOSQL(self.where)
            return
        prefix = first(self._varsets, 'prefix', 0)
        if prefix is None or prefix == '':
            prefix = 'ODBC'
        emit('register', prefix + '_' + self.name)


class FuncName(Contract):
    target = O + 'FuncOdbcFunc.name'
    props = ('C26',)

    def setup(c):
        return [c.obj(FuncOdbcFunc, _name=c.str('name'))]

    def spec(self):
        return self._name


class FuncInit(Contract):
    target = O + 'FuncOdbcFunc.__init__'
    props = ('C26',)

    def setup(c):
        return [c.obj(FuncOdbcFunc), c.str('name')]

    def spec(self, name):
        self._name = name


ORDER = ('prefix', 'synopsis', 'dsn', 'escapecommas', 'mode', 'rowlimit',
         'readhandle', 'writehandle', 'readsql', 'writesql', 'insertsql',
         'read', 'write')


class SamePlace(Lemma):
    """Settings with the place of a key are settings of that key."""
    target = O + 'OdbcFunction.check_order'
    name = 'lemma: the place tells the key'
    props = ('C26',)
    schemas = SCHEMAS

    def setup(c):
        return [c.list(VS, 'settings'), c.val(VS, 'next'), c.str('key')]

    def requires(settings, after, key):
        return key in ORDER and after.variable in ORDER and \
            all(s.variable in ORDER for s in settings) and \
            (ORDER.index(key) in
             [ORDER.index(s.variable) for s in settings]) == (
                 len([s for s in settings if s.variable == key]) > 0)

    def prove(settings, after, key):
        """By induction: none, and one more."""
        assert (ORDER.index(key) in
                [ORDER.index(s.variable) for s in []]) == (
                    len([s for s in [] if s.variable == key]) > 0)
        more = settings + [after]
        assert (ORDER.index(key) in
                [ORDER.index(s.variable) for s in more]) == (
                    len([s for s in more if s.variable == key]) > 0)


class CheckOrder(Contract):
    target = O + 'OdbcFunction.check_order'
    props = ('C26',)
    schemas = SCHEMAS

    def setup(c):
        return [function(c), c.list(VS, 'settings'), setting(c)]

    def requires(self, settings, new):
        # only those are added: AddSetting
        if not all(s.variable in ORDER for s in settings):
            return False
        # SamePlace
        return new.variable not in ORDER or (
            ORDER.index(new.variable) in
            [ORDER.index(s.variable) for s in settings]) == (
                len([s for s in settings if s.variable == new.variable]) > 0)

    def spec(self, settings, new):
        if new.variable not in ORDER:
            E_CONF_KEY_INVALID(new.where, key=new.variable)
            return False
        if settings:
            same = [s for s in settings if s.variable == new.variable]
            if same:
                E_CONF_KEY_DUPE(new.where, key=new.variable, previous=same[0])
                return False
            if ORDER.index(new.variable) < ORDER.index(settings[-1].variable):
                W_CONF_KEY_LATE(new.where, key=new.variable)
        return True


def setting(c):
    return c.obj(Varset, variable=c.str('key'), value=c.str('value'),
                 arrow=c.bool('arrow'), where=c.where())


accepted = opaque('accepted', STR, ret=BOOL)


def checked(eng, function, settings, new):
    """CheckOrder, in short."""
    eng.prove(eng.models.eq_term(settings, function.fields['_varsets']),
              'checked against the settings so far')
    eng.emit(('order', new))
    return eng.models.apply_spec(accepted, [new.fields['variable']])


class AddSetting(Contract):
    target = O + 'OdbcFunction.add'
    props = ('C26',)
    schemas = SCHEMAS
    uses = (ContextAdd,)
    env = {('call', OdbcFunction.check_order): checked}

    def setup(c):
        return [function(c), setting(c)]

    def spec(self, new):
        emit('order', new)
        if accepted(new.variable):
            if new.variable in ('read', 'write'):
                W_ODBC_LEGACY(new.where)
            if new.variable in ('read', 'write', 'readsql', 'writesql',
                                'insertsql') and new.value.endswith(';'):
                W_ODBC_TAILSEMI(new.where)
            self._varsets.append(new)


class OdbcOnVarset(Contract):
    target = O + 'FuncOdbcAggregator.on_varset'
    props = ('C26',)
    schemas = SCHEMAS
    env = {('call', OdbcFunction.add):
           lambda eng, f, v: eng.emit(('add', f.fields['name'], v))}

    def setup(c):
        return [c.obj(FuncOdbcAggregator, _curcontext=c.choice(
            None, function(c)), _contexts=[]), setting(c)]

    def spec(self, new):
        if new.arrow:
            H_CONF_HAS_ARROW(new.where)
        if self._curcontext is None:
            E_CONF_CTX_MISSING(new.where)
        else:
            emit('add', self._curcontext.name, new)


class OdbcOnContext(Contract):
    target = O + 'FuncOdbcAggregator.on_context'
    props = ('C26',)
    schemas = SCHEMAS
    env = {('call', ConfigAggregator.on_context):       # OnContext
           lambda eng, self, context: eng.emit(('kept', context))}

    def setup(c):
        return [c.obj(FuncOdbcAggregator),
                c.obj(Context, name=c.str('name'), where=c.where(),
                      _templates=c.str('templates'),
                      comment=c.bool('comment'), _varsets=[])]

    def requires(self, context):
        # (names are parts of lines)
        return '\n' not in context.name

    def spec(self, context):
        if not matches('[A-Z0-9](_?[A-Z0-9])*', context.name):
            W_ODBC_BADTOKENS(context.where, name=context.name)
        if context._templates:
            I_NOTIMPL_TEMPLATES(context.where)
        emit('kept', record(
            OdbcFunction, name=context.name, comment=context.comment,
            where=context.where, _templates=context._templates, _varsets=[]))


class OdbcOnYield(StreamContract):
    target = O + 'FuncOdbcAggregator.on_yield'
    props = ('C26',)
    env = {('call', OdbcFunction.finalize):
           lambda eng, f: eng.emit(('finalize', f))}

    def setup(c):
        return [c.obj(FuncOdbcAggregator)]

    def item(c):
        return c.obj(OdbcFunction, name=c.str('name'))

    def step(state, function):
        emit('finalize', function)
        emit('yield', function)
