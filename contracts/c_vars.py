"""Contracts of asterisklint/varfun.py and variable.py (C16): printing.

In this view a structure is the text it prints as."""
import z3

from asterisklint.function import ReadFunc, ReadFuncSlice
from asterisklint.varfun import (
    E_FUNC_PARENS, E_FUNC_TAIL, FuncLoader, VarLoader, VarParseError, W_FUNC_DYNAMIC)
from asterisklint.variable import Var

from pyvc.api import Contract, WhileContract, inv, variant
from pyvc.ghost import (
    assume, emit, ghost, opaque, record, BOOL, INT, SeqT, STR)

from .c_args import EMBEDDED, is_var, StrJoin

F = 'asterisklint.varfun:'
V = 'asterisklint.variable:'


class FindEnd(WhileContract):
    """The brackets of this kind are counted; the others do not count."""
    target = F + 'VarLoader._find_brackets_end'
    props = ('C16',)
    may_raise = (VarParseError,)
    brackets = '{', '}'

    @classmethod
    def setup(cls, c):
        return [c.obj(VarLoader), c.str('data'), c.int('pos'), *cls.brackets]

    def requires(self, data, pos, beginbracket, endbracket):
        return 0 <= pos and pos <= len(data)

    def init(self, data, pos, beginbracket, endbracket):
        return pos, 1, False

    def more(state, self, data, pos, beginbracket, endbracket):
        return state[1] > 0

    def step(state, self, data, start, beginbracket, endbracket):
        pos, depth, nested = state
        if pos >= len(data):
            raise VarParseError('')
        char = data[pos]
        if char == '$':
            nested = nested or data[pos + 1:pos + 2] in ('', '{', '[')
        elif char == beginbracket:
            depth += 1
        elif char == endbracket:
            depth -= 1
        return pos + 1, depth, nested

    def finish(state, self, data, start, beginbracket, endbracket):
        return state[0], state[2]

    def after(result, self, data, pos, beginbracket, endbracket):
        return {'beyond': pos < result[0], 'within': result[0] <= len(data),
                'at its bracket': data[result[0] - 1] == endbracket}

    @inv
    def state(pos, brackets, more_substitutions, _g):
        return (pos, brackets, more_substitutions) == _g

    @inv
    def inside(args, pos, brackets):
        return brackets >= 0 and args[2] <= pos and pos <= len(args[1])

    @inv
    def closed(args, pos, brackets):
        return brackets > 0 or (pos > args[2] and
                                args[1][pos - 1] == args[4])

    @variant
    def left(data, pos):
        return len(data) - pos


class FindEndSquare(FindEnd):
    name = 'VarLoader._find_brackets_end ([])'
    props = ('C16',)
    brackets = '[', ']'


# -- scanning: what is made prints as what it was made of

VARS = SeqT(STR)
failing = opaque('unterminated', STR, INT, STR, ret=BOOL)
ending = opaque('end_of_brackets', STR, INT, STR, ret=INT)
nested = opaque('nested_brackets', STR, INT, STR, ret=BOOL)


def find_end(self, data, pos, beginbracket, endbracket):
    """FindEnd, at its calls."""
    if failing(data, pos, beginbracket):
        raise VarParseError('')
    end = ending(data, pos, beginbracket)
    assume(pos < end and end <= len(data) and data[end - 1] == endbracket)
    return end, nested(data, pos, beginbracket)


def parsed(self, data, where):
    """ParseVariables, for the shorter text within (induction)."""
    emit('within', data, where)
    if failing(data, 0, '$'):
        raise VarParseError('')
    return data


def variable(self, data, where):
    """What _process_variable makes prints as this (but for numbers)."""
    emit('variable', data, where)
    return '${' + data + '}'


def expression(self, data, where):
    emit('expression', data, where)
    return '$[' + data + ']'


def told(fn):
    return lambda eng, *args: eng.call(fn, list(args))


class ParseVariables(WhileContract):
    """Every variable and expression is found, and what is made of a text
    prints as the text."""
    target = F + 'VarLoader.parse_variables'
    props = ('C16',)
    may_raise = (VarParseError,)
    env = {('call', VarLoader._find_brackets_end): told(find_end),
           ('call', VarLoader.parse_variables): told(parsed),
           ('call', VarLoader._process_variable): told(variable),
           ('call', VarLoader._process_expression): told(expression),
           ('call', Var.join.__func__):
           lambda e, cls, pieces: e.call(''.join, [pieces]),
           'no_termination': True}

    def setup(c):
        return [c.obj(VarLoader), c.str('data'), c.where()]

    def init(self, data, where):
        return data, 0

    def more(state, self, data, where):
        rest, start = state
        pos = rest.find('$', start)
        return pos >= 0 and pos + 1 < len(rest)

    def step(state, self, data, where):
        rest, start = state
        pos = rest.find('$', start)
        kind = rest[pos + 1]
        if kind != '{' and kind != '[':
            return rest, pos + 1
        end, more = find_end(self, rest, pos + 2, kind,
                             '}' if kind == '{' else ']')
        inner = rest[pos + 2:end - 1]
        if more:
            inner = parsed(self, inner, where)
        if kind == '{':
            variable(self, inner, where)
        else:
            expression(self, inner, where)
        return rest[end:], 0

    def finish(state, self, data, where):
        return data

    @inv
    def from_start(beginpos, searchpos):
        return beginpos == 0 and searchpos >= 0

    @inv
    def so_far(args, ret, data):
        return ''.join(ret) + data == args[1]

    @inv
    def state(data, searchpos, _g):
        return (data, searchpos) == _g


# -- what is made prints as its text; embedded variables are opaque letters


def read_function(self, data, where):
    emit('function', data, where)
    return data


class ProcessVariable(Contract):
    target = F + 'VarLoader._process_variable'
    props = ('C16',)
    env = {**EMBEDDED,
           ('new', FuncLoader): lambda e: e.env['ghosts']['loader'],
           ('call', FuncLoader.process_read_function): told(read_function),
           ('call', VarLoader._process_variable_slice): told(read_function),
           ('call', VarLoader.count_var):
           lambda e, loader, name, where: e.emit(('count', name, where))}

    def setup(c):
        c.ghost(loader=c.obj(FuncLoader))
        return [c.obj(VarLoader), c.str('data'), c.where()]

    def spec(self, data, where):
        if '(' in data or ':' in data:
            return read_function(self, data, where)
        if not isinstance(data, Var):
            emit('count', data, where)
        return Var(data)

    def ensures(result, events, old, self, data, where):
        if '(' in data or ':' in data:
            return {}
        return {'same text': str(result) == '${' + data + '}'}


class ProcessExpression(Contract):
    target = F + 'VarLoader._process_expression'
    props = ('C16',)
    env = EMBEDDED

    def setup(c):
        return [c.obj(VarLoader), c.str('data'), c.where()]

    def ensures(result, events, old, self, data, where):
        return {'same text': str(result) == '$[' + data + ']'}


def split_slice(eng, data, where):
    """SplitSlice, at its calls."""
    return eng.call(ghost_parts, [])


def ghost_parts():
    return ghost('name'), ghost('start'), ghost('length')


def slice_numbers(c):
    """What SplitSlice may give."""
    start = c.choice('none', 'int', 'var')
    length = c.choice('none', 'int', 'var') if start != 'none' else 'none'
    numbers = {}
    for what, kind in ('start', start), ('length', length):
        numbers[what] = (None if kind == 'none' else c.int(what)
                         if kind == 'int' else c.str(what))
        if kind == 'var':
            c.assume(apply_is_var(c, numbers[what]))
            c.assume(z3.Length(numbers[what].z) > 0)
    if length == 'int':
        c.assume(numbers['length'].z != 0)
        if start == 'int':
            c.assume(z3.Or(numbers['start'].z >= 0,
                           numbers['start'].z + numbers['length'].z < 0))
    return numbers


class ProcessSlice(Contract):
    """Numbers print in their normal form."""
    target = F + 'VarLoader._process_variable_slice'
    props = ('C16',)
    env = {**EMBEDDED,
           ('call', VarLoader.split_variable_slice): split_slice,
           ('call', VarLoader.count_var):
           lambda e, loader, name, where: e.emit(('count', name, where))}

    def setup(c):
        c.ghost(name=c.str('name'), **slice_numbers(c))
        return [c.obj(VarLoader), c.str('data'), c.where()]

    def ensures(result, events, old, self, data, where):
        name, start, length = ghost('name'), ghost('start'), ghost('length')
        if start is None:
            return {'same text': str(result) == '${' + name + '}'}
        if length is None:
            return {'same text': str(result) ==
                    '${' + name + ':' + str(start) + '}'}
        return {'same text': str(result) == (
            '${' + name + ':' + str(start) + ':' + str(length) + '}')}


def apply_is_var(c, text):
    from pyvc.interp import to_term
    from pyvc.smt import BOOL as B
    return to_term(c.eng.models.apply_spec(is_var, [text]), B)


class MakeReadFunc(Contract):
    target = 'asterisklint.function:ReadFunc.__init__'
    props = ('C16',)
    env = {**EMBEDDED, ('call', Var.join.__func__):
           lambda e, cls, pieces: e.call(''.join, [pieces])}
    frame = False

    def setup(c):
        args = c.choice('one', 'many')
        return [c.obj(ReadFunc), c.str('func'),
                c.str('args') if args == 'one' else c.list(STR, 'args')]

    def ensures(result, events, old, self, func, args):
        return {'same text': str(self) == '${' + func + '(' + (
            ''.join(args) if isinstance(args, list) else args) + ')}'}


class Join(Contract):
    target = V + 'Var.join'
    props = ('C16',)
    env = EMBEDDED

    def setup(c):
        return [Var, c.list(STR, 'variables')]

    def ensures(result, events, old, cls, variables):
        return {'same text': str(result) == ''.join(variables)}

    @inv
    def so_far(copy, _it, _k):
        return ''.join(copy) == ''.join(_it[:_k])


# -- functions


def looked_up(loader, func, where):
    """CheckFunc, at its calls; the function checks its arguments."""
    emit('look up', func, where)
    return record(Loaded, func=func)


class Loaded:
    def __call__(self, args, where):
        emit('arguments', self.func, args, where)


def tail_slice(data, where):
    """SplitSlice, at its calls."""
    emit('slice', data, where)
    return ghost('name'), ghost('start'), ghost('length')


class ReadFunction(Contract):
    target = F + 'FuncLoader.process_read_function'
    props = ('C16', 'C17', 'C20')
    env = {**EMBEDDED,
           ('new', FuncLoader): lambda e: e.env['ghosts']['loader'],
           ('new', VarLoader): lambda e: e.env['ghosts']['vars'],
           ('call', FuncLoader._get_and_check_availability): told(looked_up),
           ('call', VarLoader.split_variable_slice): told(tail_slice),
           ('call', Var.join.__func__):
           lambda e, cls, pieces: e.call(''.join, [pieces])}

    def setup(c):
        loader = c.obj(FuncLoader)
        c.ghost(loader=loader, vars=c.obj(VarLoader), name=c.str('name'),
                **slice_numbers(c))
        func, args, tail = c.str('func'), c.str('args'), c.str('tail')
        c.assume(z3.Not(z3.Contains(func.z, z3.StringVal('('))))
        c.assume(z3.Not(z3.Contains(tail.z, z3.StringVal(')'))))
        c.ghost(its_func=func, its_args=args, its_tail=tail)
        return [loader, c.cat(func, '(', args, ')', tail), c.where()]

    def spec(self, data, where):
        func, args = ghost('its_func'), ghost('its_args')
        start = length = None
        if ghost('its_tail'):
            name, start, length = tail_slice(ghost('its_tail'), where)
            if name:
                start = length = None
                E_FUNC_TAIL(where, data=data)
        if isinstance(func, Var):
            W_FUNC_DYNAMIC(where, data=data)
        else:
            looked_up(self, func, where)(args, where=where)
        if start is not None:
            return ReadFuncSlice(func, args, start=start, length=length)
        return ReadFunc(func, args)

    def ensures(result, events, old, self, data, where):
        func, args = ghost('its_func'), ghost('its_args')
        plain = '${' + func + '(' + args + ')'
        if not ghost('its_tail') or ghost('name') or ghost('start') is None:
            return {'same text': str(result) == plain + '}'}
        if ghost('length') is None:
            return {'same text': str(result) ==
                    plain + ':' + str(ghost('start')) + '}'}
        return {'same text': str(result) == (
            plain + ':' + str(ghost('start')) + ':' + str(ghost('length')) +
            '}')}

    @inv
    def not_yet(its_func, _k, no_tail):
        return _k <= len(its_func)

    @inv
    def not_back_yet(its_tail, _k, tail):
        return _k <= len(its_tail) and tail == ''

    @inv
    def there(its_func, i):
        return i == len(its_func)


class ReadFunctionOpen(ReadFunction):
    name = 'FuncLoader.process_read_function (not closed)'
    props = ('C16', 'C20')

    def setup(c):
        loader = c.obj(FuncLoader)
        func, args = c.str('func'), c.str('args')
        c.assume(z3.Not(z3.Contains(func.z, z3.StringVal('('))))
        c.assume(z3.Not(z3.Contains(args.z, z3.StringVal(')'))))
        c.ghost(loader=loader, vars=c.obj(VarLoader), its_func=func,
                its_args=args, name='', start=None, length=None)
        return [loader, c.cat(func, '(', args), c.where()]

    def spec(self, data, where):
        func, args = ghost('its_func'), ghost('its_args')
        E_FUNC_PARENS(where, data=data)
        if isinstance(func, Var):
            W_FUNC_DYNAMIC(where, data=data)
        else:
            looked_up(self, func, where)(args, where=where)
        return ReadFunc(func, args)

    def ensures(result, events, old, self, data, where):
        return {}

    @inv
    def not_back_yet(tail):
        return tail == ''


# -- letters of a text with variables


class Letters(Contract):
    """All letters of all parts, in order.  (At the parts: iterating over a
    text gives its letters, and a variable is one.)"""
    target = V + 'Var._get_cached_iter'
    props = ('C16',)
    env = EMBEDDED
    frame = False

    def setup(c):
        return [c.obj(Var, name=None, _list=c.list(STR, 'parts'))]

    def ensures(result, events, old, self):
        return {'same text': ''.join(result) == ''.join(self._list),
                'letters': len(result) == len(''.join(self._list)),
                'kept': self._cached_iter == result}

    @inv
    def so_far(ret, _it, _k):
        return ''.join(ret) == ''.join(_it[:_k])

    @inv
    def within(args, ret, _it, _k, _k_outer):
        return ''.join(ret) == ''.join(args[0]._list[:_k_outer]) + _it[:_k]

    @inv
    def singly(ret, _it, _k):
        return len(ret) == len(''.join(ret))


def parts_of(c, **fields):
    return c.obj(Var, _cached_iter=c.list(STR, 'letters'), **fields)


class VarSlicing(Contract):
    """What a slice holds is what these letters hold."""
    target = V + 'Var.__getitem__'
    props = ('C16',)
    env = EMBEDDED
    uses = (StrJoin,)

    def setup(c):
        low = c.choice(None, c.int('low'))
        high = c.choice(None, c.int('high'))
        return [parts_of(c), c.slice(low, high)]

    def ensures(result, events, old, self, item):
        want = ''.join(self._cached_iter[item])
        if isinstance(result, list):
            return {'same text': ''.join(result) == want}
        return {'same text': result == want}


class VarItem(Contract):
    target = V + 'Var.__getitem__'
    name = 'Var.__getitem__ (one)'
    props = ('C16',)
    may_raise = (IndexError,)
    env = EMBEDDED

    def setup(c):
        return [parts_of(c), c.int('index')]

    def spec(self, index):
        if index >= len(self._cached_iter) or index < -len(self._cached_iter):
            raise IndexError('')
        return self._cached_iter[index]


class VarLength(Contract):
    target = V + 'Var.__len__'
    props = ('C16',)
    env = EMBEDDED

    def setup(c):
        return [parts_of(c)]

    def spec(self):
        return len(self._cached_iter)


class VarStrip(Contract):
    """Only blanks at the ends go."""
    target = V + 'Var.strip'
    props = ('C16',)
    env = EMBEDDED
    frame = False

    def setup(c):
        return [c.obj(Var, name=c.choice(None, c.str('name')),
                      _list=c.list(STR, 'parts'))]

    def requires(self):
        return len(self._list) > 1

    def ensures(result, events, old, self):
        if self.name is not None:
            return {'itself': result is self}
        parts = self._list
        first, last = 0, len(parts)
        if not isinstance(parts[0], Var) and parts[0].strip() == '':
            first = 1
        if last > first and not isinstance(parts[-1], Var) and \
                parts[-1].strip() == '':
            last -= 1
        return {'same text': str(result) == ''.join(parts[first:last])}
