"""Vocabulary of the contracts.  Every function here also runs natively."""
import re

import z3

from . import smt
from .smt import (INT, BOOL, STR, CHAR, BYTES, BYTE, NONE, ObjT, SeqT, SetT,
                  DictT, StructT, TupT, UnionT, Opt, RecT)

CURRENT = [None]          # the engine that is running


class Assumption(Exception):
    pass


def _sym(native):
    def deco(f):
        native.__sym__ = f
        return native
    return deco


def matches(pattern, s):
    """s is, as a whole, in the language of the pattern (dot: any char)."""
    return re.fullmatch(pattern, s, re.S) is not None


def _matches_sym(eng, pattern, s):
    from .models import to_zre
    from .vals import to_term, from_term
    s = eng.force(s)
    if isinstance(s, str):
        return matches(pattern, s)
    return from_term(z3.InRe(to_term(s, STR), to_zre_dotall(pattern)), BOOL)


_dotall = {}


def to_zre_dotall(pattern):
    from . import models
    if pattern not in _dotall:
        _dotall[pattern] = models.to_zre(pattern.replace('.', '[\\x00-\\U0002ffff]')
                                         if '.' in pattern else pattern)
    return _dotall[pattern]


matches.__sym__ = _matches_sym


def implies(a, b):
    return (not a) or b


def _implies_sym(eng, a, b):
    return eng.or_(eng.not_(eng.models.bval(eng.models.as_bool_term(a))),
                   eng.models.bval(eng.models.as_bool_term(b)))


implies.__sym__ = _implies_sym


def iff(a, b):
    return bool(a) == bool(b)


def _iff_sym(eng, a, b):
    M = eng.models
    return M.eq(M.bval(M.as_bool_term(a)), M.bval(M.as_bool_term(b)))


iff.__sym__ = _iff_sym


def assume(cond):
    if not cond:
        raise Assumption()


def _assume_sym(eng, cond):
    if not eng.truth(cond):
        from .vals import Infeasible
        raise Infeasible()


assume.__sym__ = _assume_sym


def emit(kind, *data):
    """A ghost event (the native oracle records it too)."""
    EMITTED.append((kind,) + data)


EMITTED = []


def _emit_sym(eng, kind, *data):
    eng.events.append((kind,) + data)


emit.__sym__ = _emit_sym


def report_all(events):
    """All of these are reported (contracts with traces)."""
    raise NotImplementedError


def _report_all_sym(eng, events):
    eng.models.list_extend(eng.trace['msg'], events)


report_all.__sym__ = _report_all_sym


def opaque(name, *argtypes, ret):
    """An uninterpreted function (an external we assume nothing about)."""
    f = smt.SpecFn(name, list(argtypes), ret, lambda args: None)
    f.py = None
    return f


def lemma_fact(cond):
    """Prove cond here (a proof step); natively an assert."""
    assert cond


def _lemma_fact_sym(eng, cond):
    M = eng.models
    b = M.as_bool_term(cond)
    if eng.sub is None:
        eng.prove(b, 'proof step')
    return None


lemma_fact.__sym__ = _lemma_fact_sym


def specfn(*argtypes, ret, unfold=True):
    """A recursive specification function; its body is its definition."""
    def deco(fn):
        def unfold_terms(args):
            if not unfold:
                return None
            from .vals import from_term
            eng = CURRENT[0]
            pc, sub, frames, active = eng.pc, eng.sub, eng.frames, eng.active
            events = eng.events
            eng.pc, eng.sub, eng.frames, eng.active = [], None, [], []
            eng.events = []
            outer, eng.in_definition = eng.in_definition, True
            try:
                from .interp import from_term_raw
                vals = [from_term(a, t, eng) for a, t in zip(args, argtypes)]
                return eng.merge_term(
                    lambda: eng.call_func(eng.wrap(fn), vals, {}), ret)
            finally:
                eng.in_definition = outer
                eng.pc, eng.sub, eng.frames, eng.active = pc, sub, frames, active
                eng.events = events
        s = smt.SpecFn(fn.__name__, list(argtypes), ret, unfold_terms)
        s.py = fn
        fn.__specfn__ = s
        return fn
    return deco


def record(cls, **fields):
    """A new object of the class with exactly these attributes."""
    o = object.__new__(cls)
    o.__dict__.update(fields)
    return o


def _record_sym(eng, cls, **fields):
    from .vals import SObj
    o = SObj(cls, dict(fields))
    o.birth = eng.birth()
    return o


record.__sym__ = _record_sym


def ghost(name):
    """A part of the input, named in the setup of the contract."""
    raise NotImplementedError


ghost.__sym__ = lambda eng, name: eng.env['ghosts'][name]
