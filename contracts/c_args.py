"""Contracts of asterisklint/variable.py and asterisklint/app/base.py.

Data with embedded variables is a text in which some letters are opaque:
they stand for an embedded variable each.  That iterating over a Var, slicing
it and joining the slices does not lose, add or reorder parts is C16."""
from asterisklint.variable import Var

from pyvc.api import Contract, inv
from pyvc.ghost import assume, opaque, specfn, BOOL, INT, STR, SeqT

V = 'asterisklint.variable:'

is_var = opaque('is_embedded_variable', STR, ret=BOOL)
EMBEDDED = {'embedded': (Var, is_var)}
BAD = '!'

# -- balance of quotes and brackets (C19)


def in_quotes(opened):
    return opened[-1] in '\'"'


def closes(opened, char):
    return (
        opened[-1] == '(' and char == ')' or
        opened[-1] == '[' and char == ']' or
        opened[-1] == '{' and char == '}')


@specfn(STR, INT, SeqT(STR), ret=BOOL)
def balanced(data, k, opened):
    """Whether data[k:] closes exactly what is open before it.

    What is open lies above a bottom mark, 'X'."""
    if len(opened) == 0:
        return False
    if k >= len(data):
        return opened == ['X']
    char = data[k]
    if isinstance(char, Var):
        return balanced(data, k + 1, opened)
    if in_quotes(opened):
        # only the same quote means something here
        if char == opened[-1]:
            return balanced(data, k + 1, opened[:-1])
        return balanced(data, k + 1, opened)
    if char == '"' or char == "'" or char == '(' or char == '[' or char == '{':
        return balanced(data, k + 1, opened + [char])
    if char == ')' or char == ']' or char == '}':
        return closes(opened, char) and balanced(data, k + 1, opened[:-1])
    return balanced(data, k + 1, opened)


class CheckBalance(Contract):
    target = V + 'variable_check_balance'
    props = ('C19',)
    may_raise = (ValueError,)
    env = EMBEDDED

    def setup(c):
        return [c.str('data')]

    def spec(data):
        if not balanced(data, 0, ['X']):
            raise ValueError('')

    @inv
    def bottom(arr):
        return len(arr) > 0 and arr[0] == 'X'

    @inv
    def so_far(args, arr, _k):
        return balanced(args[0], _k, arr) == balanced(args[0], 0, ['X'])


# -- arguments (C18)

TEXTS = SeqT(STR)
ARGS = SeqT(TEXTS)
B = 'asterisklint.app.base:'

pieces = opaque('pieces_of', TEXTS, ret=TEXTS)


class StrJoin(Contract):
    """At call sites: the same text, in some pieces."""
    target = V + 'strjoin'
    props = ('C16', 'C18')
    env = EMBEDDED
    traced = {'yielded': STR}

    def setup(c):
        return [c.list(STR, 'items')]

    def ensures(result, events, old, list_of_items_and_strings):
        return {'same text': ''.join(result) == ''.join(
            list_of_items_and_strings)}

    @inv
    def so_far(yielded, cache, _it, _k):
        return ''.join(yielded) + ''.join(cache) == ''.join(_it[:_k])

    def apply_spec(list_of_items_and_strings):
        result = pieces(list_of_items_and_strings)
        assume(''.join(result) == ''.join(list_of_items_and_strings))
        return result


def extended(args, text):
    """The last argument goes on with this text."""
    return args[:-1] + [args[-1] + list(text)]


@specfn(STR, STR, BOOL, INT, INT, INT, INT, BOOL, BOOL, ARGS, ret=ARGS)
def separated(data, delimiter, remove, k, start, brackets, parens, quotes,
              skip, args):
    """The letters of all arguments, when data[:start] is in `args` already
    and data[:k] was looked at."""
    if len(args) == 0:
        return []
    if k >= len(data):
        return extended(args, data[start:])
    char = data[k]
    if isinstance(char, Var):
        pass
    elif skip:
        skip = False
    elif char == '[':
        brackets += 1
    elif char == ']':
        brackets = brackets - 1 if brackets > 0 else 0
    elif char == '(':
        parens += 1
    elif char == ')':
        parens = parens - 1 if parens > 0 else 0
    elif char == '"' and delimiter != '"':
        quotes = not quotes
        if remove:
            args = extended(args, data[start:k])
            start = k + 1
    elif char == '\\':
        skip = True
        if remove:
            args = extended(args, data[start:k])
            start = k + 1
    elif char == delimiter and brackets == 0 and parens == 0 and not quotes:
        args = extended(args, data[start:k]) + [[]]
        start = k + 1
    return separated(data, delimiter, remove, k + 1, start, brackets, parens,
                     quotes, skip, args)


def joined(pieces):
    return ''.join(pieces)


class SeparateArgs(Contract):
    target = B + 'AppBase.separate_args'
    props = ('C18',)
    # Var.join gives one text (or Var) with all of the pieces
    env = {**EMBEDDED, ('call', Var.join.__func__):
           lambda e, cls, pieces: e.call(joined, [pieces])}
    uses = (StrJoin,)

    def setup(c):
        return [c.str('data'), c.str('delimiter'), c.bool('remove')]

    def spec(data, delimiter, remove_quotes_backslashes):
        args = separated(data, delimiter, remove_quotes_backslashes, 0, 0, 0,
                         0, False, False, [[]])
        return [''.join(letters) for letters in args]

    def ensures(result, events, old, data, delimiter,
                remove_quotes_backslashes):
        return {'some argument': len(result) > 0}

    def apply_spec(data, delimiter, remove_quotes_backslashes):
        args = separated(data, delimiter, remove_quotes_backslashes, 0, 0, 0,
                         0, False, False, [[]])
        result = [''.join(letters) for letters in args]
        assume(len(result) > 0)
        return result

    @inv
    def as_many(squashed, _k):
        return len(squashed) == _k

    @inv
    def naturals(brackets, parens):
        return brackets >= 0 and parens >= 0

    @inv
    def some(ret):
        return len(ret) > 0

    @inv
    def so_far(args, ret, start, brackets, parens, quotes, skipnext, _k,
               no_squashed):
        return separated(
            args[0], args[1], args[2], _k, start, brackets, parens, quotes,
            skipnext, ret) == separated(
            args[0], args[1], args[2], 0, 0, 0, 0, False, False, [[]])

    @inv
    def squashed_so_far(squashed, _it, _k):
        return squashed == [''.join(letters) for letters in _it[:_k]]
