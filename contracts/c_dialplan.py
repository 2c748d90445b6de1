"""Contracts of asterisklint/dialplan.py."""
from asterisklint.application import App
from asterisklint.config import (
    E_CONF_CTX_MISSING, E_CONF_KEY_INVALID, H_CONF_NO_ARROW, W_CONF_CTX_DUPE)
from asterisklint.configobj import (
    Context, Varset, I_NOTIMPL_TEMPLATES, W_WSH_BOL)
from asterisklint.dialplan import (
    Dialplan, DialplanAggregator, DialplanContext, DialplanVarset, Extension,
    Include, E_DP_GLOBALS_DUPE, E_DP_GOTO_CONTEXT_NOLABEL,
    E_DP_GOTO_NOCONTEXT, E_DP_GOTO_NOLABEL, W_DP_GOTO_CONTEXT_NOEXTEN,
    E_DP_LABEL_DUPE, E_DP_LABEL_INVALID,
    E_DP_PAT_MISSING, E_DP_PRIO_DUPE, W_DP_PRIO_BADORDER, H_DP_GENERAL_MISPLACED,
    H_DP_GLOBALS_MISPLACED,
    E_DP_PAT_INVALID, E_DP_PRIO_INVALID, E_DP_PRIO_MISSING, I_NOTIMPL_HINT,
    I_NOTIMPL_IGNOREPAT, I_NOTIMPL_SWITCH)
from asterisklint.pattern import H_PAT_NON_CANONICAL, Pattern
from asterisklint.where import Where

from pyvc.api import Contract, StreamContract, inv
from pyvc.ghost import (
    ghost, opaque, record, specfn, matches, emit, BOOL, BYTES, INT, STR, DictT,
    NONE, ObjT, Opt, RecT, SeqT, SetT, TupT, UnionT)
from asterisklint.varfun import Var
from pyvc.vals import PyExc, SObj, typeof

D = 'asterisklint.dialplan:'


# -- one line of a context (C10)

class SomePattern:
    """A pattern: all that matters here is what it is made of."""


class SomeApp:
    """An application; parsing it may report anything."""


valid = opaque('pattern_is_valid', STR, ret=BOOL)


def _pattern(e, text, where):
    return SObj(SomePattern, {
        'raw': text, 'where': where,
        'is_valid': e.models.apply_spec(valid, [text])})


def _app(e, text, where):
    e.events.append(('application', text, where))
    return SObj(SomeApp, {'raw': text, 'where': where})


DECIMAL = '[0-9]+'      # (other decimal digits behave alike)


def line(c, variable, value):
    return c.obj(
        Varset, variable=variable, value=value,
        arrow=c.bool('arrow'), comment=c.bool('comment'), where=c.where())


def rest_of_line(c):
    """Any string, taken apart at the first comma and parenthesis."""
    parts = [c.re('[^,(]*', 'prio')]
    if c.choice(0, 1):
        parts.extend(['(', c.re('[^,]*', 'label')])
    if c.choice(0, 1):
        parts.extend([',', c.str('app')])
    return parts


def parse_rest(varset, pattern, rest):
    at = rest.find(',')
    prio, app = (rest, '') if at < 0 else (rest[:at], rest[at + 1:])
    at = prio.find('(')
    prio, label = (prio, None) if at < 0 else (prio[:at], prio[at + 1:])
    if prio == 'hint':
        I_NOTIMPL_HINT(varset.where)
        return None
    if prio != 'n' and not prio.isdecimal():
        E_DP_PRIO_INVALID(varset.where, prio=prio)
        return None
    if label is not None and not label.endswith(')'):
        E_DP_LABEL_INVALID(varset.where, label=label)
        return None
    if pattern is not None:
        pattern = Pattern(pattern, varset.where)
        if not pattern.is_valid:
            E_DP_PAT_INVALID(varset.where)
            return None
    return record(
        Extension, pattern=pattern, prio=None if prio == 'n' else int(prio),
        label=None if label is None else label[:-1],
        app=App(app, varset.where), comment=varset.comment,
        where=varset.where)


class Line(Contract):
    target = D + 'DialplanVarset.from_varset'
    env = {('call', Pattern): _pattern, ('call', App): _app}


class LineSame(Line):
    name = 'DialplanVarset.from_varset (same)'
    props = ('C10',)

    def setup(c):
        return [DialplanVarset, line(c, 'same', c.cat(*rest_of_line(c)))]

    def spec(cls, varset):
        if not varset.arrow:
            H_CONF_NO_ARROW(varset.where)
        return parse_rest(varset, None, varset.value)


class LineExten(Line):
    name = 'DialplanVarset.from_varset (exten)'
    props = ('C10',)

    def setup(c):
        value = c.re('[^,]*', 'pattern')
        if c.choice(0, 1):
            value = c.cat(value, ',', *rest_of_line(c))
        return [DialplanVarset, line(c, 'exten', value)]

    def requires(cls, varset):
        return not varset.value.startswith(',')

    def spec(cls, varset):
        if not varset.arrow:
            H_CONF_NO_ARROW(varset.where)
        at = varset.value.find(',')
        if at < 0:
            E_DP_PRIO_MISSING(varset.where)
            return None
        return parse_rest(varset, varset.value[:at], varset.value[at + 1:])


class LineOther(Line):
    name = 'DialplanVarset.from_varset (other variables)'
    props = ('C10',)

    def setup(c):
        return [DialplanVarset, line(c, c.str('variable'), c.str('value'))]

    def requires(cls, varset):
        return varset.variable not in ('exten', 'same')

    def spec(cls, varset):
        if varset.variable not in ('include', 'switch', 'ignorepat'):
            E_CONF_KEY_INVALID(varset.where, key=varset.variable)
            return None
        if not varset.arrow:
            H_CONF_NO_ARROW(varset.where)
        if varset.variable == 'include':
            return record(Include, context_name=varset.value,
                          where=varset.where)
        if varset.variable == 'switch':
            I_NOTIMPL_SWITCH(varset.where)
        else:
            I_NOTIMPL_IGNOREPAT(varset.where)
        return None


# -- general, globals and contexts (C12)

VS, DC, CX = ObjT(Varset), ObjT(DialplanContext), ObjT(Context)


def a_context(c, cls=Context, **kw):
    return c.obj(cls, name=kw.pop('name', None) or c.str('name'),
                 comment=c.bool('comment'),
                 where=c.where(), _templates=c.str('templates'),
                 _varsets=c.list(VS, 'varsets'), **kw)


def maybe(c, make):
    return make() if c.choice(0, 1) else None


def dialplan(c):
    return c.obj(
        Dialplan, _general=maybe(c, lambda: a_context(c)),
        _globals=maybe(c, lambda: a_context(c)),
        contexts=c.list(DC, 'contexts'))


class AddGeneral(Contract):
    target = D + 'Dialplan.add_general'
    props = ('C12',)

    def setup(c):
        return [dialplan(c), a_context(c, name='general')]

    def spec(self, general):
        if self._general is not None:
            W_CONF_CTX_DUPE(general.where, previous=self._general.where)
            general._varsets = self._general._varsets + general._varsets
        elif self._globals is not None or len(self.contexts) > 0:
            H_DP_GENERAL_MISPLACED(general.where)
        self._general = general


class AddGlobals(Contract):
    target = D + 'Dialplan.add_globals'
    props = ('C12',)

    def setup(c):
        return [dialplan(c), a_context(c, name='globals')]

    def spec(self, globals_):
        if self._globals is not None:
            E_DP_GLOBALS_DUPE(globals_.where, previous=self._globals.where)
        else:
            if self._general is None or len(self.contexts) > 0:
                H_DP_GLOBALS_MISPLACED(globals_.where)
            self._globals = globals_


class OnComplete(Contract):
    target = D + 'Dialplan.on_complete'
    props = ('C12',)
    schemas = {Context: {'where': ObjT(Where)},
               Where: {'filename': STR, 'lineno': INT, 'line': BYTES}}

    def setup(c):
        return [dialplan(c)]

    def spec(self):
        if len(self.contexts) > 0:
            where = record(Where, filename=self.contexts[0].where.filename,
                           lineno=0, line='')
            if self._general is None:
                H_DP_GENERAL_MISPLACED(where)
            if self._globals is None:
                H_DP_GLOBALS_MISPLACED(where)


class UpdateContext(Contract):
    target = D + 'DialplanContext.update'
    props = ('C12',)

    def setup(c):
        name = c.str('name')
        old = a_context(c, DialplanContext, name=name, context_last_prio=3,
                        _sorted_patterns=c.list(STR, 'sorted'))
        new = a_context(c, DialplanContext, name=name, context_last_prio=None,
                        _sorted_patterns=None, includes=[])
        return [old, new]

    def requires(self, other):
        return len(other._varsets) == 0

    def spec(self, other):
        self.where = other.where
        self.context_last_prio = None
        self._sorted_patterns = None


def aggregator(c, current=None, **kw):
    return c.obj(DialplanAggregator, _dialplan=dialplan(c),
                 _curcontext=current, **kw)


class DpOnBegin(Contract):
    target = D + 'DialplanAggregator.on_begin'
    props = ('C12',)

    def setup(c):
        return [c.obj(DialplanAggregator)]

    def spec(self):
        self._dialplan = record(
            Dialplan, _general=None, _globals=None, contexts=[],
            contexts_by_name={}, last_prio=None, jump_destinations=[],
            all_labels=set())
        self._prevcontexts = {}
        self._curcontext = None


def event(kind):
    def handler(eng, *args):
        eng.events.append((kind,) + args)
    return handler


class DpOnContext(Contract):
    target = D + 'DialplanAggregator.on_context'
    props = ('C12',)
    uses = (AddGeneral, AddGlobals)
    env = {('call', DialplanAggregator.on_dialplancontext):
           event('dialplan context')}

    def setup(c):
        return [aggregator(c), a_context(c)]

    def requires(self, context):
        return len(context._varsets) == 0

    def spec(self, context):
        dialplan = self._dialplan
        if context.name == 'general':
            if dialplan._general is not None:
                W_CONF_CTX_DUPE(context.where,
                                previous=dialplan._general.where)
                context._varsets = list(dialplan._general._varsets)
            elif dialplan._globals is not None or len(dialplan.contexts) > 0:
                H_DP_GENERAL_MISPLACED(context.where)
            dialplan._general = context
            self._curcontext = context
        elif context.name == 'globals':
            # (variables of a second one are read, and not used)
            if dialplan._globals is not None:
                E_DP_GLOBALS_DUPE(context.where,
                                  previous=dialplan._globals.where)
            else:
                if dialplan._general is None or len(dialplan.contexts) > 0:
                    H_DP_GLOBALS_MISPLACED(context.where)
                dialplan._globals = context
            self._curcontext = context
        else:
            if context._templates != '':
                I_NOTIMPL_TEMPLATES(context.where)
            emit('dialplan context', self, record(
                DialplanContext, name=context.name, comment=context.comment,
                where=context.where, _templates=context._templates,
                _varsets=[], dialplan=dialplan, includes=[],
                context_last_prio=None, pattern_cache={},
                _sorted_patterns=None))


class DpOnVarset(Contract):
    target = D + 'DialplanAggregator.on_varset'
    props = ('C10', 'C12')
    env = {('call', DialplanVarset.from_varset.__func__):
           lambda e, cls, v: from_varset(e, v),
           ('call', DialplanAggregator.on_dialplanvarset):
           event('dialplan varset')}

    def setup(c):
        current = c.choice(None, Context, DialplanContext)
        if current is not None:
            current = a_context(c, current)
        return [aggregator(c, current),
                c.lazy(Varset, where=ObjT(Where), good=BOOL)]

    def spec(self, varset):
        if self._curcontext is None:
            E_CONF_CTX_MISSING(varset.where)
        elif isinstance(self._curcontext, DialplanContext):
            emit('parse', varset)
            if varset.good:
                emit('dialplan varset', self, varset)
        else:
            self._curcontext._varsets.append(varset)


def from_varset(eng, varset):
    eng.events.append(('parse', varset))
    return varset if eng.truth(eng.getattr(varset, 'good')) else None


class DpOnDialplanContext(Contract):
    target = D + 'DialplanAggregator.on_dialplancontext'
    props = ('C12',)
    schemas = {Context: {'name': STR}}
    env = {('call', DialplanContext.update): event('update')}

    def setup(c):
        a = aggregator(c, _prevcontexts=c.val(DictT(STR, DC), 'previous'))
        a.fields['_dialplan'].fields['contexts_by_name'] = c.val(
            DictT(STR, DC), 'by_name')
        return [a, a_context(c, DialplanContext)]

    def spec(self, context):
        if context.name in self._prevcontexts:
            old = self._prevcontexts[context.name]
            emit('update', old, context)
            self._curcontext = old
        else:
            self._prevcontexts[context.name] = context
            self._dialplan.contexts.append(context)
            self._dialplan.contexts_by_name[context.name] = context
            self._curcontext = context


class DpOnDialplanVarset(Contract):
    target = D + 'DialplanAggregator.on_dialplanvarset'
    props = ('C12', 'C13')
    env = {('call', DialplanContext.add): event('add'),
           ('call', DialplanContext.add_include): event('include')}

    def setup(c):
        current = a_context(c, DialplanContext)
        if c.choice(0, 1):
            item = c.lazy(Include)
        else:
            item = c.obj(Extension, pattern=maybe(c, lambda: c.obj(
                SomePattern, is_canonical=c.bool('canonical'),
                raw=c.str('raw'), canonical_pattern=c.str('expected'))),
                where=c.where())
        return [aggregator(c, current), item]

    def spec(self, item):
        if isinstance(item, Include):
            emit('include', self._curcontext, item)
        else:
            pattern = item.pattern
            if pattern is not None and not pattern.is_canonical:
                H_PAT_NON_CANONICAL(item.where, pat=pattern.raw,
                                    expected=pattern.canonical_pattern)
            emit('add', self._curcontext, item)


class DpAddInclude(Contract):
    target = D + 'DialplanContext.add_include'
    props = ('C12',)

    def setup(c):
        return [a_context(c, DialplanContext,
                          includes=c.list(ObjT(Include), 'includes')),
                c.lazy(Include)]

    def spec(self, include):
        self.includes.append(include)


class DpOnYield(Contract):
    target = D + 'DialplanAggregator.on_yield'
    props = ('C12',)
    env = {('call', Dialplan.on_complete): event('complete')}

    def setup(c):
        return [aggregator(c)]

    def spec(self):
        emit('complete', self._dialplan)
        yield self._dialplan


# -- numbering (C11)

class AnyPattern:
    """A pattern: equal patterns have equal values."""
    def __eq__(self, other):
        return other is not None and self.values == other.values

    def __hash__(self):
        return hash(self.values)

    def matches_extension(self, extension):
        raise NotImplementedError

    def __str__(self):
        raise NotImplementedError


class AnyApp:
    """An application, with the destinations it jumps to."""


PT, EX, AP = ObjT(AnyPattern), ObjT(Extension), ObjT(AnyApp)


def iterate(eng, v):
    # Context.__len__ and __getitem__, under contract, make it a sequence
    return v.fields['_varsets']


class SortedPatterns(Contract):
    target = D + 'DialplanContext.get_sorted_patterns'
    props = ('C15', 'C23', 'C31')
    env = {'iter': iterate}
    schemas = {Extension: {'pattern': STR}}

    def setup(c):
        return [c.obj(
            DialplanContext, _varsets=c.list(EX, 'extensions'),
            _sorted_patterns=c.choice(None, c.list(STR, 'sorted')))]

    def requires(self):
        # AddExtension and UpdateContext: nothing was added since
        return self._sorted_patterns is None or self._sorted_patterns == \
            sorted(set([x.pattern for x in self._varsets]))

    def spec(self):
        self._sorted_patterns = sorted(set([x.pattern
                                            for x in self._varsets]))
        return self._sorted_patterns


class AddExtension(Contract):
    target = D + 'DialplanContext.add'
    props = ('C11', 'C15')
    env = {'iter': iterate, 'ignore': ('_sorted_patterns',)}
    schemas = {
        Extension: {'pattern': PT, 'prio': INT,
                    'where': ObjT(Where)},
        AnyPattern: {'values': STR, 'canonical_pattern': STR, 'raw': STR,
                     'example': STR},
        Where: {'filename': STR, 'lineno': INT, 'line': BYTES}}

    def setup(c):
        dp = c.obj(Dialplan, last_prio=c.choice(None, 0),
                   all_labels=c.val(SetT(STR), 'labels'))
        if dp.fields['last_prio'] == 0:
            dp.fields['last_prio'] = c.int('last_prio')
            c.assume(dp.fields['last_prio'].z > 0)
        last = c.choice(None, 0)
        if last == 0:
            last = c.int('context_last_prio')
            c.assume(last.z > 0)
        self = c.obj(
            DialplanContext, name=c.str('name'),
            _varsets=c.list(EX, 'extensions'), dialplan=dp,
            context_last_prio=last, _sorted_patterns=c.list(STR, 'sorted'),
            pattern_cache=c.val(DictT(STR, RecT(
                labels=DictT(STR, EX), prios=DictT(INT, EX))), 'cache'))
        pattern = maybe(c, lambda: c.obj(
            AnyPattern, values=c.str('values'), raw=c.str('raw'),
            canonical_pattern=c.str('canonical'), example=c.str('example')))
        prio = c.choice(None, 0)
        if prio == 0:
            prio = c.int('prio')
        extension = c.obj(
            Extension, pattern=pattern, prio=prio,
            label=maybe(c, lambda: c.str('label')),
            app=c.obj(AnyApp, jump_destinations=[]), where=c.where())
        return [self, extension]

    def requires(self, extension):
        # invariants of a context: something was accepted before
        return len(self._varsets) > 0 or (
            self.context_last_prio is None
            and (extension.pattern is None
                 or extension.pattern.canonical_pattern
                 not in self.pattern_cache))

    def ensures(result, events, old, self, extension):
        # and the sorted patterns are those of the extensions
        return (self.context_last_prio is None or len(self._varsets) > 0) \
            and (self._sorted_patterns is None
                 or len(self._varsets) == len(old[0]._varsets))

    def spec(self, extension):
        before = self._varsets
        if extension.pattern is None:
            if len(before) == 0:
                E_DP_PAT_MISSING(extension.where)
                return
            extension.pattern = before[-1].pattern
        pattern = extension.pattern
        if extension.prio is None:
            if self.dialplan.last_prio is None:
                E_DP_PRIO_MISSING(extension.where, pat=pattern.raw)
                return
            if self.context_last_prio is None or \
                    before[-1].pattern.values != pattern.values:
                W_DP_PRIO_BADORDER(extension.where, pat=pattern.raw,
                                   prio='<unset>')
            extension.prio = self.dialplan.last_prio + 1
        elif extension.prio < 1:
            E_DP_PRIO_INVALID(extension.where, prio=extension.prio)
            return
        elif extension.prio > 1:
            same = [x for x in before if x.pattern == pattern]
            if not same or same[-1].prio not in (
                    extension.prio - 1, extension.prio):
                W_DP_PRIO_BADORDER(extension.where, pat=pattern.raw,
                                   prio=extension.prio)
        prio = extension.prio
        self.dialplan.last_prio = prio
        self.context_last_prio = prio
        canonical = pattern.canonical_pattern
        if canonical in self.pattern_cache:
            cache = self.pattern_cache[canonical]
            if prio in cache['prios']:
                E_DP_PRIO_DUPE(extension.where,
                               previous=cache['prios'][prio], prio=prio)
                return
            cache['prios'][prio] = extension
            if extension.label:
                if extension.label in cache['labels']:
                    E_DP_LABEL_DUPE(
                        extension.where,
                        previous=cache['labels'][extension.label],
                        label=extension.label)
                    extension.label = ''
                else:
                    cache['labels'][extension.label] = extension
                    self.dialplan.all_labels.add(extension.label)
        else:
            self.pattern_cache[canonical] = {
                'labels': {}, 'prios': {prio: extension}}
            if extension.label:
                self.pattern_cache[canonical]['labels'][extension.label] = \
                    extension
                self.dialplan.all_labels.add(extension.label)
        self._varsets.append(extension)


WH = ObjT(Where)
PART = UnionT(NONE, STR, ObjT(Var))
known = opaque('only_EXTEN_is_unknown', ObjT(Var), ret=BOOL)
length = opaque('len_of_Var', ObjT(Var), ret=INT)
filled = opaque('EXTEN_filled_in', ObjT(Var), STR, ret=STR)


def fill_in(eng, var, **values):
    """Var.format(EXTEN=...): a string, or KeyError for other variables."""
    if not eng.truth(eng.models.apply_spec(known, [var])):
        raise PyExc(KeyError('X'))
    return eng.models.apply_spec(filled, [var, values['EXTEN']])


PLACE = TupT(PART, PART, UnionT(INT, STR, ObjT(Var)), WH)


@specfn(TupT(PART, PART, UnionT(STR, ObjT(Var))), STR, STR, WH, ret=PLACE)
def destination(where_to, name, example, where):
    context, exten, prio = where_to
    if not context:
        context = name
    if not exten:
        exten = example
    elif isinstance(exten, Var) and known(exten):
        exten = filled(exten, example)
    if isinstance(prio, str) and prio.isdecimal():
        prio = int(prio)
    return (context, exten, prio, where)


class AddJumps(Contract):
    """What an application jumps to is collected (extension as accepted)."""
    target = D + 'DialplanContext.add'
    name = 'DialplanContext.add (destinations of jumps)'
    props = ('C22',)
    env = {'iter': iterate, ('call', Var.format): fill_in,
           ('call', Var.__len__): lambda e, v: e.models.apply_spec(length, [v])}
    schemas = AddExtension.schemas

    def setup(c):
        dp = c.obj(Dialplan, last_prio=None, all_labels=c.val(
            SetT(STR), 'labels'),
                   jump_destinations=c.list(PLACE, 'jumps'))
        self = c.obj(
            DialplanContext, name=c.str('name'), _varsets=[], dialplan=dp,
            context_last_prio=None, _sorted_patterns=None,
            pattern_cache=c.val(DictT(STR, RecT(
                labels=DictT(STR, EX), prios=DictT(INT, EX))), 'cache'))
        pattern = c.obj(
            AnyPattern, values=c.str('values'), raw=c.str('raw'),
            canonical_pattern=c.str('canonical'), example=c.str('example'))
        extension = c.obj(
            Extension, pattern=pattern, prio=1, label='',
            app=c.obj(AnyApp, jump_destinations=c.list(
                TupT(PART, PART, UnionT(STR, ObjT(Var))), 'destinations')),
            where=c.where())
        return [self, extension]

    def requires(self, extension):
        return extension.pattern.canonical_pattern not in self.pattern_cache

    def spec(self, extension):
        pattern = extension.pattern
        self.dialplan.last_prio = 1
        self.context_last_prio = 1
        self.pattern_cache[pattern.canonical_pattern] = {
            'labels': {}, 'prios': {1: extension}}
        self.dialplan.jump_destinations.extend([
            destination(d, self.name, pattern.example, extension.where)
            for d in extension.app.jump_destinations])
        self._varsets.append(extension)

    @inv
    def collected(args, old, _k, _it):
        self, extension = args[0], args[1]
        return self.dialplan.jump_destinations == \
            old[0].dialplan.jump_destinations + [
                destination(d, self.name, extension.pattern.example,
                            extension.where) for d in _it[:_k]]


# -- jump destinations are looked up when all of the dialplan is known (C23)

exists = opaque('context_exists', STR, ret=BOOL)
labelled = opaque('label_anywhere', STR, ret=BOOL)
labelled_in = opaque('label_in_context', STR, STR, ret=BOOL)
reaches = opaque('destination_found', STR, STR, UnionT(INT, STR, ObjT(Var)),
                 ret=BOOL)


class Found:
    """Some extension."""


def get_context(eng, dialplan, name):
    if not eng.truth(eng.models.apply_spec(exists, [name])):
        raise PyExc(KeyError(name))
    return SObj(DialplanContext, {'name': name})


def match_pattern(eng, context, extension, priority):
    name = eng.getattr(context, 'name')
    if eng.truth(eng.models.apply_spec(reaches, [name, extension, priority])):
        return SObj(Found, {'name': name})
    return None


class Walk(StreamContract):
    target = D + 'Dialplan.walk_jump_destinations'
    props = ('C23',)
    env = {('call', Dialplan.get_context): get_context,
           ('call', Dialplan.has_label):
           lambda e, d, label: e.models.apply_spec(labelled, [label]),
           ('call', DialplanContext.has_label):
           lambda e, c, label: e.models.apply_spec(
               labelled_in, [e.getattr(c, 'name'), label]),
           ('call', DialplanContext.match_pattern): match_pattern}

    def setup(c):
        return [c.obj(Dialplan, jump_destinations=c.stream(Walk))]

    def item(c):
        part = c.val(UnionT(STR, ObjT(Var)), 'extension')
        return (c.choice(c.str('context'), c.lazy(Var)), part,
                c.val(UnionT(INT, STR, ObjT(Var)), 'priority'), c.where())

    def step(state, context, extension, priority, where):
        if isinstance(context, Var):
            if isinstance(priority, str) and not labelled(priority):
                E_DP_GOTO_NOLABEL(where, context=context, exten=extension,
                                  label=priority)
        elif not exists(context):
            E_DP_GOTO_NOCONTEXT(where, context=context, exten=extension,
                                prio=priority)
        elif isinstance(extension, Var):
            if isinstance(priority, str) and not labelled_in(
                    context, priority):
                E_DP_GOTO_CONTEXT_NOLABEL(
                    where, context=context, exten=extension, label=priority)
        elif not reaches(context, extension, priority):
            W_DP_GOTO_CONTEXT_NOEXTEN(where, context=context, exten=extension,
                                      prio=priority)


class GetContext(Contract):
    target = D + 'Dialplan.get_context'
    props = ('C23',)
    may_raise = (KeyError,)

    def setup(c):
        return [c.obj(Dialplan, contexts_by_name=c.val(
            DictT(STR, DC), 'by_name')), c.str('name')]

    def spec(self, name):
        if name not in self.contexts_by_name:
            raise KeyError(name)
        return self.contexts_by_name[name]


class HasLabel(Contract):
    target = D + 'Dialplan.has_label'
    props = ('C23',)

    def setup(c):
        return [c.obj(Dialplan, all_labels=c.val(SetT(STR), 'labels')),
                c.str('label')]

    def spec(self, label):
        return label in self.all_labels


class AddDestination(Contract):
    target = D + 'Dialplan.add_jump_destination'
    props = ('C22', 'C23')

    def setup(c):
        return [c.obj(Dialplan, jump_destinations=c.list(PLACE, 'jumps')),
                c.str('context'), c.str('extension'), c.int('priority'),
                c.where()]

    def spec(self, context, extension, priority, where):
        self.jump_destinations.append((context, extension, priority, where))


PRIORITY = UnionT(INT, STR, ObjT(Var))
fits = opaque('pattern_matches', ObjT(AnyPattern), STR, ret=BOOL)
could_be_prio = opaque('could_match_prio', ObjT(Var), INT, ret=BOOL)
could_be_label = opaque('could_match_label', ObjT(Var), Opt(STR), ret=BOOL)


def could_match(eng, var, value):
    value = eng.force(value)
    number = typeof(value) == INT
    return eng.models.apply_spec(
        could_be_prio if number else could_be_label, [var, value])


SEEN = SetT(TupT(STR, STR))
found = opaque('found_in', STR, STR, PRIORITY, SEEN, ret=Opt(EX))
looked = opaque('seen_then', STR, STR, PRIORITY, SEEN, ret=SEEN)
sorted_patterns = opaque('sorted_patterns', STR, ret=SeqT(PT))
IN = ObjT(Include)


def hit(exten, priority):
    if isinstance(priority, int):
        return exten.prio == priority
    if isinstance(priority, str):
        return exten.label == priority
    return could_be_prio(priority, exten.prio) or \
        could_be_label(priority, exten.label)


@specfn(SeqT(EX), PRIORITY, INT, ret=Opt(EX))
def first_hit(extens, priority, k):
    """The first extension at or after k with the priority or label."""
    if k < 0 or k >= len(extens):
        return None
    if hit(extens[k], priority):
        return extens[k]
    return first_hit(extens, priority, k + 1)


@specfn(SeqT(PT), SeqT(EX), STR, PRIORITY, INT, ret=Opt(EX))
def best(patterns, extens, extension, priority, k):
    """The same for the patterns at or after k that match."""
    if k < 0 or k >= len(patterns):
        return None
    if fits(patterns[k], extension):
        pattern = patterns[k]
        r = first_hit([i for i in extens if i.pattern == pattern],
                      priority, 0)
        if r is not None:
            return r
    return best(patterns, extens, extension, priority, k + 1)


@specfn(SeqT(IN), STR, PRIORITY, SEEN, INT, ret=Opt(EX))
def included(includes, extension, priority, seen, k):
    """The first one found through the includes at or after k."""
    if k < 0 or k >= len(includes):
        return None
    name = includes[k].context_name
    if not exists(name):
        return included(includes, extension, priority, seen, k + 1)
    r = found(name, extension, priority, seen)
    if r is not None:
        return r
    return included(includes, extension, priority,
                    looked(name, extension, priority, seen), k + 1)


@specfn(SeqT(IN), STR, PRIORITY, SEEN, INT, ret=SEEN)
def included_seen(includes, extension, priority, seen, k):
    if k < 0 or k >= len(includes):
        return seen
    name = includes[k].context_name
    if not exists(name):
        return included_seen(includes, extension, priority, seen, k + 1)
    return included_seen(includes, extension, priority,
                         looked(name, extension, priority, seen), k + 1)


def look_again(eng, context, extension, priority, seen):
    """match_pattern of any context (by induction)."""
    name = eng.getattr(context, 'name')
    M = eng.models
    before = eng.copy_set(seen)
    eng.write_set(seen, M.apply_spec(
        looked, [name, extension, priority, before]))
    return M.apply_spec(found, [name, extension, priority, before])


class MatchPattern(Contract):
    target = D + 'DialplanContext.match_pattern'
    props = ('C23',)
    schemas = {
        Extension: {'pattern': PT, 'prio': INT, 'label': Opt(STR)},
        Include: {'context_name': STR}, AnyPattern: {'values': STR}}
    env = {'iter': iterate,
           ('call', Dialplan.get_context): get_context,
           ('call', DialplanContext.match_pattern): look_again,
           ('call', DialplanContext.get_sorted_patterns):
           lambda e, c: e.models.apply_spec(
               sorted_patterns, [e.getattr(c, 'name')]),
           ('call', AnyPattern.matches_extension):
           lambda e, p, x: e.models.apply_spec(fits, [p, x]),
           ('call', Var.could_match): could_match}

    def setup(c):
        return [c.obj(DialplanContext, name=c.str('name'),
                      dialplan=c.obj(Dialplan),
                      _varsets=c.list(EX, 'extensions'),
                      includes=c.list(IN, 'includes')),
                c.str('extension'), c.val(PRIORITY, 'priority'),
                c.val(SEEN, 'seen')]

    def spec(self, extension, priority, seen):
        if (self.name, extension) in seen:
            return None
        seen.add((self.name, extension))
        here = best(sorted_patterns(self.name), self._varsets, extension,
                    priority, 0)
        if here is not None:
            return here
        r = included(self.includes, extension, priority, seen, 0)
        if r is not None:
            return r
        if extension != 'i' and isinstance(priority, int):
            return found(self.name, 'i', 1, included_seen(
                self.includes, extension, priority, seen, 0))
        return None

    frame = False

    @inv
    def not_before(args, extension, priority, _k, _it):
        return best(_it, args[0]._varsets, extension, priority, 0) == \
            best(_it, args[0]._varsets, extension, priority, _k)

    @inv
    def not_yet(extens, priority, _k):
        return first_hit(extens, priority, 0) == first_hit(
            extens, priority, _k)

    @inv
    def not_included(args, old, extension, priority, seen, _k):
        start = old[3] | {(args[0].name, extension)}
        return included(args[0].includes, extension, priority, start, 0) == \
            included(args[0].includes, extension, priority, seen, _k) and \
            included_seen(args[0].includes, extension, priority, start, 0) \
            == included_seen(args[0].includes, extension, priority, seen, _k)


class MatchPatternFirst(MatchPattern):
    """As it is called for a destination: nothing was looked at yet."""
    name = 'DialplanContext.match_pattern (outermost call)'

    def setup(c):
        return MatchPattern.setup(c)[:3]

    def spec(self, extension, priority):
        return MatchPattern.spec(self, extension, priority, set())

    @inv
    def not_included(args, extension, priority, seen, _k):
        start = {(args[0].name, extension)}
        return included(args[0].includes, extension, priority, start, 0) == \
            included(args[0].includes, extension, priority, seen, _k) and \
            included_seen(args[0].includes, extension, priority, start, 0) \
            == included_seen(args[0].includes, extension, priority, seen, _k)


# -- like `dialplan show` (C31)

class AppWithParens(Contract):
    target = D + 'Extension.app_with_parens'
    props = ('C31',)

    def setup(c):
        return [c.obj(Extension, app=c.obj(AnyApp, raw=c.str('raw')))]

    def spec(self):
        raw = self.app.raw
        return raw + ('' if '(' in raw else '(') + ('' if ')' in raw else ')')


class PrioWithLabel(Contract):
    target = D + 'Extension.prio_with_label'
    props = ('C31',)

    def setup(c):
        return [c.obj(Extension, prio=c.int('prio'),
                      label=c.choice(None, c.str('label')))]

    def spec(self):
        if self.label is None or self.label == '':
            return str(self.prio)
        return str(self.prio) + '(' + self.label + ')'


in_order = opaque('by_pattern', DC, ret=SeqT(EX))
shown_app = opaque('app_with_parens', EX, ret=STR)
shown_pattern = opaque('str_of_pattern', PT, ret=STR)
LINES = SeqT(STR)


def exten_line(extens, k):
    exten = extens[k]
    action = '%d. %s' % (exten.prio, shown_app(exten))
    if k > 0 and extens[k - 1].pattern == exten.pattern:
        label = '[' + exten.label + ']' if exten.label else ''
        return '     %-14s %-45s [pbx_config]' % (label, action)
    return '  %-17s %-45s [pbx_config]' % (
        "'" + shown_pattern(exten.pattern) + "' =>", action)


@specfn(SeqT(EX), INT, ret=LINES)
def exten_lines(extens, k):
    """The lines of the first k."""
    if k <= 0 or k > len(extens):
        return []
    return exten_lines(extens, k - 1) + [exten_line(extens, k - 1)]


@specfn(SeqT(IN), INT, ret=LINES)
def include_lines(includes, k):
    if k <= 0 or k > len(includes):
        return []
    return include_lines(includes, k - 1) + ['  %-17s %-45s [pbx_config]' % (
        'Include =>', "'" + includes[k - 1].context_name + "'")]


def header(context):
    return "[ Context " + repr(context.name) + " created by 'pbx_config' ]"


def context_lines(context):
    extens = in_order(context)
    return [header(context)] + exten_lines(extens, len(extens)) + include_lines(
                context.includes, len(context.includes)) + ['']


@specfn(SeqT(DC), INT, ret=LINES)
def all_lines(contexts, k):
    if k <= 0 or k > len(contexts):
        return []
    return all_lines(contexts, k - 1) + context_lines(contexts[k - 1])


class Show(Contract):
    target = D + 'Dialplan.format_as_dialplan_show'
    props = ('C31',)
    schemas = {
        Extension: {'pattern': PT, 'prio': INT, 'label': STR},
        DialplanContext: {'name': STR, 'includes': SeqT(IN)},
        Include: {'context_name': STR}, AnyPattern: {'values': STR}}
    env = {('call', DialplanContext.by_pattern):
           lambda e, c: e.models.apply_spec(in_order, [c]),
           ('call', Extension.app_with_parens.fget):
           lambda e, x: e.models.apply_spec(shown_app, [x]),
           ('call', AnyPattern.__str__):
           lambda e, p: e.models.apply_spec(shown_pattern, [p])}

    def setup(c):
        return [c.obj(Dialplan, contexts=c.list(DC, 'contexts')), False]

    def spec(self, reverse):
        return '\n'.join(all_lines(self.contexts, len(self.contexts)))

    @inv
    def contexts_shown(ret, contexts, _k):
        return ret == all_lines(contexts, _k)

    @inv
    def extens_shown(ret, contexts, context, _k, _it, _k_outer):
        return ret == all_lines(contexts, _k_outer) + [header(context)] + \
            exten_lines(_it, _k)

    @inv
    def last_is_last(last_pattern, _k, _it):
        if _k == 0:
            return last_pattern is None
        return last_pattern is not None and last_pattern == _it[_k - 1].pattern

    @inv
    def includes_shown(ret, contexts, context, _k, _it, _k_outer):
        extens = in_order(context)
        return ret == all_lines(contexts, _k_outer) + [header(context)] + \
            exten_lines(extens, len(extens)) + include_lines(_it, _k)


@specfn(SeqT(DC), INT, ret=LINES)
def lines_back(contexts, k):
    """The lines of the last k contexts, last one first."""
    if k <= 0 or k > len(contexts):
        return []
    return lines_back(contexts, k - 1) + context_lines(
        contexts[len(contexts) - k])


class ShowReversed(Show):
    name = 'Dialplan.format_as_dialplan_show (as Asterisk does)'

    def setup(c):
        return [c.obj(Dialplan, contexts=c.list(DC, 'contexts'))]

    def spec(self):
        return '\n'.join(lines_back(self.contexts, len(self.contexts)))

    @inv
    def contexts_shown(args, ret, _k):
        return ret == lines_back(args[0].contexts, _k)

    @inv
    def extens_shown(args, ret, context, _k, _it, _k_outer):
        return ret == lines_back(args[0].contexts, _k_outer) + [header(context)] + \
            exten_lines(_it, _k)

    @inv
    def last_is_last(last_pattern, _k, _it):
        if _k == 0:
            return last_pattern is None
        return last_pattern is not None and last_pattern == _it[_k - 1].pattern

    @inv
    def includes_shown(args, ret, context, _k, _it, _k_outer):
        extens = in_order(context)
        return ret == lines_back(args[0].contexts, _k_outer) + [header(context)] + \
            exten_lines(extens, len(extens)) + include_lines(_it, _k)
