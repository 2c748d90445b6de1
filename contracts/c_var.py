"""Contracts of asterisklint/varfun.py and asterisklint/variable.py.

Two views of data with variables are used.  For scanning (C17, C18, C19) it is
a text in which an embedded variable is one opaque letter; for printing (C16)
a variable is the text it prints as."""
from asterisklint.varfun import (
    E_VAR_BAD_TOKENS, E_VAR_SUBSTR_ARGS, E_VAR_SUBSTR_LENGTH,
    E_VAR_SUBSTR_START, VarLoader)
from asterisklint.variable import Var
from asterisklint.where import Where

from pyvc.api import Contract
from pyvc.ghost import (
    matches, DictT, ObjT,
    SeqT, STR)

import z3

from .c_args import EMBEDDED

F = 'asterisklint.varfun:'
V = 'asterisklint.variable:'

# -- slices (C17)


class SplitSlice(Contract):
    target = F + 'VarLoader.split_variable_slice'
    props = ('C17',)
    env = EMBEDDED

    counts = 1, 2, 4

    @classmethod
    def setup(cls, c):
        n = c.choice(*cls.counts)
        parts = [c.str('name'), c.str('start'), c.str('length')][:n]
        for p in parts:
            c.assume(z3.Not(z3.Contains(p.z, z3.StringVal(':'))))
        glued = sum(([':', p] for p in parts), [])[1:]
        if n == 4:
            glued += [':', c.str('rest')]
        return [c.cat(*glued), c.where()]

    def spec(data, where):
        parts = data.split(':')
        if len(parts) != 2 and len(parts) != 3:
            E_VAR_SUBSTR_ARGS(where, data=data)
            return parts[0], None, None
        name, start, length = parts[0], parts[1], None
        if not isinstance(start, Var):
            if not numeric(start):
                E_VAR_SUBSTR_START(where, start=start)
                return name, None, None
            start = int(start)
        if len(parts) == 3:
            length = parts[2]
            if not isinstance(length, Var):
                if not numeric(length):
                    E_VAR_SUBSTR_LENGTH(where, length=length)
                    return name, None, None
                length = int(length)
                if length == 0 or (isinstance(start, int) and start < 0 and
                                   start + length >= 0):
                    # nothing, or up to the end or beyond
                    E_VAR_SUBSTR_LENGTH(where, length=length)
                    length = None
        if start == 0 and not length:
            E_VAR_SUBSTR_START(where, start=start)
            start = None
        return name, start, length


class SplitSliceLength(SplitSlice):
    name = 'VarLoader.split_variable_slice (with length)'
    props = ('C17',)
    counts = (3,)


def numeric(text):
    return text != '' and (text.isdecimal() or (
        text[0] == '-' and text[1:].isdecimal()))


class CountVar(Contract):
    target = F + 'VarLoader.count_var'
    props = ('C17',)

    def setup(c):
        seen = c.val(DictT(STR, SeqT(ObjT(Where))), 'variables')
        seen.default = list
        return [c.obj(VarLoader, _variables=seen), c.str('varname'),
                c.val(ObjT(Where), 'where')]

    def spec(self, varname, where):
        if not matches('[A-Za-z0-9_]*', varname):
            E_VAR_BAD_TOKENS(where, data=varname)
        self._variables[varname] = self._variables.get(varname, []) + [where]
