"""Models of Python built-ins over symbolic values.

Everything here is part of the trusted base: it states what CPython's built-in
types do.  It is cross-checked against CPython by pyvc/selftest.py.
"""
import ast
import builtins
import collections
import re
import types

import z3

from . import ghost, smt, rex
from .smt import (INT, BOOL, STR, CHAR, BYTES, BYTE, NONE, UNBOUND, BOT, ObjT,
                  SeqT, SetT, DictT, TupT, RecT, UnionT, join, join_elem)
from .vals import *     # noqa
from .vals import decode_zstr   # noqa
from .interp import class_lookup, SeqView, from_term_raw, Frame

STRLIKE = (STR, CHAR)
INTLIKE = (INT, BYTE)


def S(z, t):
    return from_term(z, t)


# ---------------------------------------------------------------- regexes

def char_re(c):
    return z3.Re(zstr(c))


def set_re(chars):
    chars = sorted(set(chars))
    parts = []
    i = 0
    while i < len(chars):
        j = i
        while j + 1 < len(chars) and ord(chars[j + 1]) == ord(chars[j]) + 1:
            j += 1
        parts.append(z3.Range(zstr(chars[i]), zstr(chars[j])) if j > i
                     else char_re(chars[i]))
        i = j + 1
    if not parts:
        return z3.Empty(z3.ReSort(z3.StringSort()))
    return parts[0] if len(parts) == 1 else z3.Union(*parts)


ANY = z3.AllChar(z3.ReSort(z3.StringSort()))
FULL = z3.Full(z3.ReSort(z3.StringSort()))


def not_set_re(chars):
    return z3.Intersect(ANY, z3.Complement(set_re(chars)))


PY_SPACE = ''.join(chr(i) for i in range(0x110000) if chr(i).isspace())
RE_SPACE = ''.join(chr(i) for i in range(0x3100) if re.match(r'\s', chr(i)))

_re_cache = {}


def to_zre(pattern):
    """Translate a (capture-insensitive) Python regex to a z3 regex."""
    if pattern in _re_cache:
        return _re_cache[pattern]
    import re._parser as sp
    r = _tr_seq(sp.parse(pattern))
    _re_cache[pattern] = r
    return r


def _tr_seq(p):
    parts = []
    for op, av in p:
        parts.append(_tr(op, av))
    if not parts:
        return z3.Re(z3.StringVal(''))
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def _tr(op, av):
    name = str(op)
    if name == 'LITERAL':
        return char_re(chr(av))
    if name == 'NOT_LITERAL':
        return not_set_re(chr(av))
    if name == 'ANY':
        return not_set_re('\n')
    if name == 'IN':
        neg = False
        parts = []
        for o, a in av:
            o = str(o)
            if o == 'NEGATE':
                neg = True
            elif o == 'LITERAL':
                parts.append(char_re(chr(a)))
            elif o == 'RANGE':
                parts.append(z3.Range(zstr(chr(a[0])), zstr(chr(a[1]))))
            elif o == 'CATEGORY':
                parts.append(_category(str(a)))
            else:
                raise Unsupported('regex set %s' % o)
        r = parts[0] if len(parts) == 1 else z3.Union(*parts)
        return z3.Intersect(ANY, z3.Complement(r)) if neg else r
    if name in ('MAX_REPEAT', 'MIN_REPEAT'):
        lo, hi, sub = av
        r = _tr_seq(sub)
        hi = None if str(hi) == 'MAXREPEAT' else hi
        if hi is None:
            if lo == 0:
                return z3.Star(r)
            if lo == 1:
                return z3.Plus(r)
            return z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
        return z3.Loop(r, lo, hi) if (lo, hi) != (0, 1) else z3.Option(r)
    if name == 'SUBPATTERN':
        return _tr_seq(av[3])
    if name == 'BRANCH':
        return z3.Union(*[_tr_seq(b) for b in av[1]])
    raise Unsupported('regex %s' % name)


def _category(a):
    if a == 'CATEGORY_SPACE':
        return set_re(RE_SPACE)
    if a == 'CATEGORY_NOT_SPACE':
        return not_set_re(RE_SPACE)
    raise Unsupported('regex %s' % a)


# ------------------------------------------------- strip family (axioms)

_strip_fns = {}


def term_view(s):
    """(base, offset, length, guard): s is base[offset:offset+length] if guard."""
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
        base, off, n = s.arg(0), s.arg(1), s.arg(2)
        guard = z3.simplify(z3.And(off >= 0, n >= 0, off + n <= z3.Length(base)))
        if z3.is_true(guard):
            guard = None
        return base, off, n, guard
    return s, z3.IntVal(0), z3.Length(s), None


def strip_fn(kind, chars):
    """lstrip/rstrip of a given character set, defined by recursion."""
    key = (kind, ''.join(sorted(set(chars))))
    if key in _strip_fns:
        return _strip_fns[key]
    name = '%sstrip_%d' % (kind, len(_strip_fns))
    f = z3.Function(name, z3.StringSort(), z3.StringSort())
    chars = key[1]

    def isin(c):
        if len(chars) <= 8:
            return z3.Or(*[c == zstr(x) for x in chars])
        from . import rex
        code = z3.StrToCode(c)
        return z3.Or(*[z3.And(code >= a, code <= b) for a, b in rex.cls(
            [(ord(x), ord(x)) for x in chars])[1]])

    def ax(app):
        s = app.arg(0)
        m = z3.Length(app)
        base, off, n, guard = term_view(s)
        if kind == 'l':
            edge = z3.SubString(base, off, 1)
            rest = z3.SubString(base, off + 1, n - 1)
            res_edge = z3.SubString(app, 0, 1)
            fact = z3.SuffixOf(app, s)
            gone = z3.SubString(s, 0, z3.Length(s) - m)
        else:
            edge = z3.SubString(base, off + n - 1, 1)
            rest = z3.SubString(base, off, n - 1)
            res_edge = z3.SubString(app, m - 1, 1)
            fact = z3.PrefixOf(app, s)
            gone = z3.SubString(s, m, z3.Length(s) - m)
        rest = z3.simplify(rest)
        edge = z3.simplify(edge)
        out = [app == z3.If(n == 0, s, z3.If(isin(edge), f(rest), s)), m <= n]
        if guard is not None:
            out = [z3.Implies(guard, z3.And(*out))]
        if len(chars) > 8:
            out.append(z3.InRe(gone, z3.Star(set_re(chars))))
            out.append((app == zstr('')) == z3.InRe(s, z3.Star(set_re(chars))))
        return out + [fact, z3.Implies(m > 0, z3.Not(isin(res_edge)))]
    smt.AXIOMS[name] = ax
    from . import rex
    rex.STRIP[name] = (kind, rex.cls([(ord(c), ord(c)) for c in chars]))
    _strip_fns[key] = f
    return f


def strip_term(kind, chars, t):
    """strip, looking through concatenations with a literal that stops it."""
    f = strip_fn(kind, chars)
    parts = flat_concat(z3.simplify(t))
    if kind == 'r':
        parts = parts[::-1]
    for i, p in enumerate(parts):
        if z3.is_string_value(p):
            lit = decode_zstr(p)
            cut = lit.lstrip(chars) if kind == 'l' else lit.rstrip(chars)
            if not cut:
                continue
            gone = lit[:len(lit) - len(cut)] if kind == 'l' else lit[len(cut):]
            first = parts[:i] + ([zstr(gone)] if gone and i else [])
            if kind == 'r':
                first = first[::-1]
            if first:
                first = z3.Concat(*first) if len(first) > 1 else first[0]
                first = [] if all_blank(first, chars) else [f(first)]
            parts = first + [zstr(cut)] + parts[i + 1:]
            if kind == 'r':
                parts = parts[::-1]
            return z3.simplify(z3.Concat(*parts) if len(parts) > 1
                               else parts[0])
    return f(t)


def all_blank(t, chars):
    """Do the regular expression facts about t imply it is only chars?"""
    eng = ghost.CURRENT[0]
    facts = [p for p in getattr(eng, 'pc', ()) if z3.is_app(p)
             and p.decl().kind() == z3.Z3_OP_SEQ_IN_RE and p.arg(0).eq(t)]
    if not facts:
        return False
    return smt.quick_check(
        facts + [z3.Not(z3.InRe(t, z3.Star(set_re(chars))))]) == 'unsat'


def obviously_natural(t):
    """Is this integer term a sum of lengths and natural numbers?"""
    if z3.is_int_value(t):
        return t.as_long() >= 0
    if not z3.is_app(t):
        return False
    kind = t.decl().kind()
    if kind in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
        return all(obviously_natural(c) for c in t.children())
    return kind == z3.Z3_OP_SEQ_LENGTH


def join_parts(parts):
    if not parts:
        return zstr('')
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def join_seq(parts, empty):
    if not parts:
        return empty
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def flat_concat(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [x for c in t.children() for x in flat_concat(c)]
    return [t]


# uninterpreted single-argument string functions with per-application facts
def _uf(name, *sorts):
    return z3.Function(name, *sorts)


LETTERS = _uf('py_letters', z3.StringSort(), z3.SeqSort(z3.StringSort()))
LOWER = _uf('py_lower', z3.StringSort(), z3.StringSort())
UPPER = _uf('py_upper', z3.StringSort(), z3.StringSort())
INT_OF = _uf('py_int', z3.StringSort(), z3.IntSort())
IS_INT = _uf('py_is_int', z3.StringSort(), z3.BoolSort())
STR_OF = _uf('py_str_of_int', z3.IntSort(), z3.StringSort())
REPR = _uf('py_repr_str', z3.StringSort(), z3.StringSort())

_CASED = {}


def _ax_lower(app):
    s = app.arg(0)
    up = z3.Range(z3.StringVal('A'), z3.StringVal('Z'))
    ascii_low = z3.Star(z3.Intersect(
        z3.Range(z3.StringVal('\\u{0}'), z3.StringVal('\\u{7f}')),
        z3.Complement(up)))
    return [z3.Implies(z3.InRe(s, ascii_low), app == s),
            (z3.Length(s) == 0) == (z3.Length(app) == 0)]


def _ax_upper(app):
    s = app.arg(0)
    lo = z3.Range(z3.StringVal('a'), z3.StringVal('z'))
    ascii_up = z3.Star(z3.Intersect(
        z3.Range(z3.StringVal('\\u{0}'), z3.StringVal('\\u{7f}')),
        z3.Complement(lo)))
    return [z3.Implies(z3.InRe(s, ascii_up), app == s),
            (z3.Length(s) == 0) == (z3.Length(app) == 0)]


smt.AXIOMS['py_lower'] = _ax_lower
smt.AXIOMS['py_upper'] = _ax_upper

DIGITS = z3.Range(z3.StringVal('0'), z3.StringVal('9'))
import sys as _sys
DECIMAL_CHARS = ''.join(chr(i) for i in range(0x30000) if chr(i).isdecimal())
RE_DECIMAL = set_re(DECIMAL_CHARS)
RE_MINUS = z3.Concat(z3.Re('-'), z3.Plus(RE_DECIMAL))


def _ax_int(app):
    s = app.arg(0)
    return [z3.Implies(z3.InRe(s, z3.Plus(DIGITS)), app == z3.StrToInt(s)),
            z3.Implies(z3.InRe(s, z3.Plus(RE_DECIMAL)), app >= 0),
            z3.Implies(z3.InRe(s, RE_MINUS), app <= 0)]


def _ax_is_int(app):
    s = app.arg(0)
    return [z3.Implies(z3.InRe(s, z3.Plus(RE_DECIMAL)), app),
            z3.Implies(z3.InRe(s, RE_MINUS), app),
            z3.Implies(z3.Length(s) == 0, z3.Not(app))]


def _ax_str_of(app):
    n = app.arg(0)
    return [z3.Implies(n >= 0, app == z3.IntToStr(n)),
            z3.Implies(n < 0, app == z3.Concat(z3.StringVal('-'),
                                               z3.IntToStr(-n)))]


smt.AXIOMS['py_int'] = _ax_int
smt.AXIOMS['py_is_int'] = _ax_is_int
smt.AXIOMS['py_str_of_int'] = _ax_str_of

# codecs
UTF8_OK = _uf('utf8_ok', BYTES.sort(), z3.BoolSort())
UTF8_DEC = _uf('utf8_dec', BYTES.sort(), z3.StringSort())
CP1252_DEC = _uf('cp1252_dec_replace', BYTES.sort(), z3.StringSort())
UTF8_ENC = _uf('utf8_enc', z3.StringSort(), BYTES.sort())
UTF8_ENCOK = _uf('utf8_encodable', z3.StringSort(), z3.BoolSort())


def codec_fn(kind, enc, errors):
    if kind == 'dec':
        return z3.Function('dec_%s_%s' % (enc, errors), BYTES.sort(), z3.StringSort())
    return z3.Function('enc_%s_%s' % (enc, errors), z3.StringSort(), BYTES.sort())


def codec_ok(kind, enc, errors):
    a = BYTES.sort() if kind == 'dec' else z3.StringSort()
    return z3.Function('%sok_%s_%s' % (kind, enc, errors), a, z3.BoolSort())


TOTAL_CODECS = {('dec', 'cp1252', 'replace'), ('dec', 'latin1', 'strict'),
                ('dec', 'utf8', 'replace'), ('dec', 'utf8', 'surrogateescape'),
                ('dec', 'utf8', 'ignore'), ('dec', 'cp1252', 'ignore')}


def norm_enc(e):
    e = e.lower().replace('-', '').replace('_', '')
    return {'iso88591': 'latin1', 'windows1252': 'cp1252', 'u8': 'utf8'}.get(e, e)


class SMatch:
    """A successful regex match with symbolic groups."""
    def __init__(self, groups, whole=None, start=None, end=None):
        self.groups = groups
        self.whole = whole
        self.start = start
        self.end = end


REGEX_CONTRACTS = {}     # pattern text -> fn(eng, s, 'match'|'search') -> SMatch|None


LJUST = z3.Function('py_ljust', z3.StringSort(), z3.IntSort(), z3.StringSort())
RANGE = z3.Function('range', z3.IntSort(), z3.IntSort(),
                    z3.SeqSort(z3.IntSort()))
COMPS = []      # comprehensions that were given names


class Models:
    def __init__(self, eng):
        self.eng = eng

    # ------------------------------------------------------------- truth

    def truth_term(self, v):
        eng = self.eng
        if isinstance(v, Sym):
            t = v.t
            if t == BOOL:
                return v.z
            if t in INTLIKE:
                return v.z != 0
            if t in STRLIKE or t == BYTES:
                return self.view(v, t)[2] > 0 if t != CHAR else True
            if isinstance(t, UnionT):
                terms = []
                for a in t.alts:
                    if a in (NONE, UNBOUND):
                        continue
                    b = self.truth_term(from_term_raw(t.proj(v.z, a), a, eng))
                    b = z3.BoolVal(b) if isinstance(b, bool) else b
                    terms.append(z3.And(t.tester(v.z, a), b))
                return z3.Or(*terms) if terms else False
            if isinstance(t, ObjT):
                return self._obj_truth(v, t.cls)
            raise Unsupported('truth of %s' % t)
        if isinstance(v, SObj):
            return self._obj_truth(v, v.cls)
        if isinstance(v, SList):
            return bool(v.items) if v.concrete else z3.Length(v.z) > 0
        if isinstance(v, SDict):
            if v.concrete:
                return bool(v.items)
            d = v.t.dt()
            return d.accessor(0, 0)(v.z) != z3.K(v.t.key.sort(), z3.BoolVal(False))
        if isinstance(v, SSet):
            if v.concrete:
                return bool(v.items)
            if v.chars is not None:
                if v.filt is None:
                    return z3.Length(v.chars.z) > 0
                kind, chars = v.filt
                if kind == 'and':
                    return z3.Not(z3.InRe(v.chars.z, z3.Star(not_set_re(chars)))) \
                        if chars else False
                return z3.Not(z3.InRe(v.chars.z, z3.Star(set_re(chars)))) \
                    if chars else z3.Length(v.chars.z) > 0
            return v.z != z3.K(v.elem.sort(), z3.BoolVal(False))
        if isinstance(v, Filtered):
            raise Unsupported('truth of a filtered list')
        if isinstance(v, (FuncVal, Bound, Method, GenVal, SMatch, Stream)):
            return True
        if v is MISSING:
            raise Unsupported('truth of an unbound value')
        return bool(v)

    def _obj_truth(self, v, cls):
        m = class_lookup(cls, '__bool__')
        if m is not MISSING:
            return self.as_bool_term(self.eng.call(m, [v]))
        m = class_lookup(cls, '__len__')
        if m is not MISSING:
            r = self.eng.call(m, [v])
            return r != 0 if isinstance(r, int) else r.z != 0
        return True

    def as_bool_term(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Sym) and v.t == BOOL:
            return v.z
        return self.truth_term(self.eng.force(v))

    def bval(self, t):
        if isinstance(t, bool):
            return t
        return from_term(t, BOOL)

    # ---------------------------------------------------------- equality

    def eq_term(self, a, b):
        """Equality as a python bool or z3 term."""
        eng = self.eng
        if a is b and not isinstance(a, float):
            return True
        if isinstance(a, Sym) and isinstance(a.t, UnionT):
            return self._union_eq(a, b)
        if isinstance(b, Sym) and isinstance(b.t, UnionT):
            return self._union_eq(b, a)
        # user-defined __eq__
        for x, y in ((a, b), (b, a)):
            cls = self.class_of_user(x)
            if cls is not None:
                m = class_lookup(cls, '__eq__')
                if m is not MISSING and m is not object.__eq__:
                    r = eng.call(m, [x, y])
                    if r is NotImplemented:
                        continue
                    return self.as_bool_term(r)
        ca, cb = self.class_of_user(a), self.class_of_user(b)
        if ca is not None or cb is not None:
            if ca is None or cb is None:
                return False
            if isinstance(a, SObj) and isinstance(b, SObj):
                return a is b
            za = eng.obj_ref(a) if isinstance(a, SObj) else a.z
            zb = eng.obj_ref(b) if isinstance(b, SObj) else b.z
            return za == zb if ca is cb else False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.conj([self.eq_term(x, y) for x, y in zip(a, b)])
        if isinstance(a, SList) or isinstance(b, SList):
            if not (isinstance(a, (SList, list)) and isinstance(b, (SList, list))):
                return False
            ai = a if isinstance(a, list) else a.items
            bi = b if isinstance(b, list) else b.items
            if ai is not None and bi is not None:
                if len(ai) != len(bi):
                    return False
                return self.conj([self.eq_term(x, y) for x, y in zip(ai, bi)])
            t = join(typeof(a) if isinstance(a, SList) else typeof(tuple(a)),
                     typeof(b) if isinstance(b, SList) else typeof(tuple(b)))
            return to_term(a, t, eng) == to_term(b, t, eng)
        if isinstance(a, SDict) or isinstance(b, SDict):
            if not (isinstance(a, (SDict, dict)) and isinstance(b, (SDict, dict))):
                return False
            a, b = self.sdict(a), self.sdict(b)
            if a.concrete and b.concrete:
                if set(a.items) != set(b.items):
                    return False
                return self.conj([self.eq_term(a.items[k], b.items[k])
                                  for k in a.items])
            raise Unsupported('equality of symbolic dicts')
        if isinstance(a, SSet) or isinstance(b, SSet):
            a, b = self.sset(a), self.sset(b)
            if a.concrete and b.concrete:
                return a.items == b.items
            if a.z is not None or b.z is not None:
                t = SetT(a.elem if a.z is not None else b.elem)
                return to_term(a, t, self.eng) == to_term(b, t, self.eng)
            raise Unsupported('equality of symbolic sets')
        if isinstance(a, Sym) or isinstance(b, Sym):
            ta, tb = typeof(a), typeof(b)
            groups = (STRLIKE, INTLIKE + (BOOL,), (BYTES,))
            for g in groups:
                if ta in g and tb in g:
                    if ta == BOOL and tb == BOOL:
                        return to_term(a, BOOL) == to_term(b, BOOL)
                    if BOOL in (ta, tb):
                        return self.int_term(a) == self.int_term(b)
                    if g is STRLIKE:
                        return to_term(a, STR) == to_term(b, STR)
                    if g[0] is INT:
                        return to_term(a, INT) == to_term(b, INT)
                    return to_term(a, BYTES) == to_term(b, BYTES)
            return False
        if isinstance(a, (FuncVal, Bound, Method)) or \
                isinstance(b, (FuncVal, Bound, Method)):
            return a is b
        return bool(a == b)

    def conj(self, terms):
        out = []
        for t in terms:
            if isinstance(t, bool):
                if not t:
                    return False
            else:
                out.append(t)
        if not out:
            return True
        return out[0] if len(out) == 1 else z3.And(*out)

    def disj(self, terms):
        out = []
        for t in terms:
            if isinstance(t, bool):
                if t:
                    return True
            else:
                out.append(t)
        if not out:
            return False
        return out[0] if len(out) == 1 else z3.Or(*out)

    def _union_eq(self, u, other):
        if isinstance(other, Sym) and other.t == u.t and all(
                a in (NONE, INT, STR, CHAR, BOOL, BYTES) for a in u.t.alts):
            return u.z == other.z
        if any(isinstance(a, (ObjT,)) for a in u.t.alts) or \
                (isinstance(other, Sym) and isinstance(other.t, (UnionT, ObjT))) \
                or isinstance(other, SObj):
            v = self.eng.force(u)
            return self.eq_term(v, other)
        terms = []
        for a in u.t.alts:
            if a == NONE:
                b = other is None
            elif a == UNBOUND:
                continue
            else:
                b = self.eq_term(from_term_raw(u.t.proj(u.z, a), a, self.eng), other)
            if isinstance(b, bool):
                b = z3.BoolVal(b)
            terms.append(z3.And(u.t.tester(u.z, a), b))
        return z3.simplify(z3.Or(*terms)) if terms else False

    def class_of_user(self, v):
        """The class of an interpreted object (None for built-in values)."""
        if isinstance(v, SObj):
            return v.cls
        if isinstance(v, Sym) and isinstance(v.t, ObjT):
            return v.t.cls
        if isinstance(v, (Sym, SList, SDict, SSet, FuncVal, Bound, Method, type,
                          tuple, types.FunctionType)) or v is None or \
                isinstance(v, PRIMS) or v is MISSING:
            return None
        m = (type(v).__module__ or '').split('.')[0]
        if m in ('asterisklint', 'contracts'):
            return type(v)
        return None

    def eq(self, a, b):
        return self.bval(self.eq_term(a, b))

    def ne(self, a, b):
        cls = self.class_of_user(a)
        if cls is not None:
            m = class_lookup(cls, '__ne__')
            if m is not MISSING and m is not object.__ne__:
                return self.eng.call(m, [a, b])
        return self.eng.not_(self.eq(a, b))

    def is_(self, a, b):
        if isinstance(a, Sym) and isinstance(a.t, UnionT) and b is None:
            return self.bval(a.t.tester(a.z, NONE)) if NONE in a.t.alts else False
        if isinstance(b, Sym) and isinstance(b.t, UnionT) and a is None:
            return self.is_(b, a)
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, Sym) and a.t == BOOL or isinstance(b, Sym) and b.t == BOOL:
                return self.eq(a, b)
            a, b = self.eng.force(a), self.eng.force(b)
            return a is b
        a, b = self.eng.force(a), self.eng.force(b)
        if isinstance(a, Sym) and isinstance(b, Sym) and \
                isinstance(a.t, ObjT) and isinstance(b.t, ObjT):
            return self.bval(a.z == b.z) if a.t == b.t else False
        if isinstance(a, SObj) and isinstance(b, Sym) and isinstance(b.t, ObjT):
            return self.is_(b, a)
        if isinstance(a, Sym) and isinstance(a.t, ObjT) and isinstance(b, SObj):
            if a.t.cls is not b.cls:
                return False
            return self.bval(a.z == self.eng.obj_ref(b))
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, (SObj, type)) or isinstance(b, (SObj, type)):
                return False
            try:
                t = self.eq_term(a, b)
            except Unsupported:
                raise Unsupported('identity of values')
            # equal values may be the same or not
            return self.bval(z3.And(t if isinstance(t, z3.ExprRef) else
                                    z3.BoolVal(bool(t)), z3.Bool(
                                        self.eng.fresh_name('identical'))))
        return a is b

    # -------------------------------------------------------- containment

    def contains(self, c, x):
        eng = self.eng
        c = eng.force(c)
        if isinstance(c, (str,)) or isinstance(c, Sym) and c.t in STRLIKE:
            x = eng.force(x)
            if isinstance(x, str) and isinstance(c, str):
                return x in c
            if typeof(x) not in STRLIKE:
                raise PyExc(TypeError("'in <string>' requires string"))
            if isinstance(c, str):
                if typeof(x) == CHAR:
                    # one of finitely many characters
                    return self.bval(self.disj([self.eq_term(x, ch)
                                                for ch in sorted(set(c))]))
                subs = {c[i:j] for i in range(len(c)) for j in range(i, len(c) + 1)}
                if len(subs) < 40:
                    return self.bval(self.disj([self.eq_term(x, s)
                                                for s in sorted(subs | {''})]))
            got = self.locate(to_term(c, STR), x)
            if got is not None:
                return got != ()
            return self.bval(z3.Contains(to_term(c, STR), to_term(x, STR)))
        if isinstance(c, (tuple, list, frozenset, set)):
            return self.bval(self.disj([self.eq_term(i, x) for i in (
                sorted(c, key=repr) if isinstance(c, (set, frozenset)) else c)]))
        if isinstance(c, dict):
            return self.bval(self.disj([self.eq_term(i, x) for i in c]))
        if isinstance(c, SList):
            if c.concrete:
                return self.bval(self.disj([self.eq_term(i, x) for i in c.items]))
            j = join(c.elem, typeof(x))
            if j != c.elem:
                if isinstance(c.elem, UnionT) is False and \
                        {c.elem.name, typeof(x).name} != {'str', 'char'}:
                    return False
            return self.bval(self.has_element(
                c.z, to_term(x, c.elem, eng)))
        if isinstance(c, SDict):
            if c.concrete:
                if is_native(x):
                    if all(is_native(k) for k in c.items):
                        return x in c.items
                return self.bval(self.disj([self.eq_term(i, x) for i in c.items]))
            x = eng.force(x)
            tx = typeof(x)
            if join(tx, c.t.key) != c.t.key:
                return False
            d = c.t.dt()
            return self.bval(z3.Select(d.accessor(0, 0)(c.z),
                                       to_term(x, c.t.key, eng)))
        if isinstance(c, SSet):
            if c.concrete:
                return self.bval(self.disj([self.eq_term(i, x)
                                            for i in sorted(c.items, key=repr)]))
            if c.chars is not None and c.filt is None:
                return self.contains(c.chars, x)
            if c.z is not None:
                return self.bval(z3.Select(c.z, to_term(x, c.elem, eng)))
        if isinstance(c, RangeVal):
            x = self.int_term(x)
            if c.step == 1:
                return self.bval(z3.And(self.int_term(c.lo) <= x,
                                        x < self.int_term(c.hi)))
        if isinstance(c, (bytes, bytearray)):
            return self.bval(self.disj([self.eq_term(i, x) for i in sorted(set(c))]))
        if isinstance(c, Sym) and c.t == BYTES:
            x = eng.force(x)
            if typeof(x) == BYTES:
                return self.bval(z3.Contains(c.z, to_term(x, BYTES, eng)))
            if typeof(x) == INT:
                v = self.int_term(x)
                if not eng.branch(z3.And(v >= 0, v < 256)):
                    raise PyExc(ValueError('byte must be in range(0, 256)'))
                return self.bval(z3.Contains(c.z, z3.Unit(v)))
            if typeof(x) == BYTE:
                return self.bval(z3.Contains(c.z, z3.Unit(x.z)))
        cls = self.class_of_user(c)
        if cls is not None:
            m = class_lookup(cls, '__contains__')
            if m is not MISSING:
                return eng.call(m, [c, x])
        raise Unsupported('containment in %r' % (c,))

    def has_element(self, z, x):
        out = []
        for p in flat_concat(z3.simplify(z)):
            if p.decl().kind() == z3.Z3_OP_SEQ_EMPTY:
                continue
            if p.decl().kind() == z3.Z3_OP_SEQ_UNIT:
                out.append(p.arg(0) == x)
                continue
            u = z3.Unit(x)
            out.append(z3.Contains(p, u))
            if p.get_id() in self.eng.lasts:
                r, k, whole, last = self.eng.lasts[p.get_id()]
                self.eng.define(z3.Implies(k >= 0, z3.Contains(whole, u) ==
                                           z3.Or(z3.Contains(r, u), last == x)))
        return z3.simplify(z3.Or(*out)) if out else z3.BoolVal(False)

    # -------------------------------------------------------------- order

    def int_term(self, v):
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, Sym):
            if v.t == BOOL:
                return z3.If(v.z, z3.IntVal(1), z3.IntVal(0))
            if v.t in INTLIKE:
                return v.z
        raise Unsupported('not an int: %r' % (v,))

    def order(self, op, a, b):
        eng = self.eng
        a, b = eng.force(a), eng.force(b)
        names = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__'}
        refl = {ast.Lt: '__gt__', ast.LtE: '__ge__', ast.Gt: '__lt__', ast.GtE: '__le__'}
        ca = self.class_of_user(a)
        if ca is not None:
            m = class_lookup(ca, names[type(op)])
            if m is not MISSING and m is not getattr(object, names[type(op)]):
                r = eng.call(m, [a, b])
                if r is not NotImplemented:
                    return r
        cb = self.class_of_user(b)
        if cb is not None:
            m = class_lookup(cb, refl[type(op)])
            if m is not MISSING and m is not getattr(object, refl[type(op)]):
                r = eng.call(m, [b, a])
                if r is not NotImplemented:
                    return r
        if is_native(a) and is_native(b):
            try:
                return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b,
                        ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
            except TypeError as e:
                raise PyExc(e)
        if isinstance(op, (ast.Gt, ast.GtE)):
            return self.order(ast.Lt() if isinstance(op, ast.Gt) else ast.LtE(), b, a)
        strict = isinstance(op, ast.Lt)
        return self.bval(self.lt_term(a, b, strict))

    def lt_term(self, a, b, strict):
        eng = self.eng
        if isinstance(a, SList) and a.concrete:
            a = tuple(a.items)
        if isinstance(b, SList) and b.concrete:
            b = tuple(b.items)
        if isinstance(a, tuple) and isinstance(b, tuple):
            # first differing position decides
            res = len(a) < len(b) if strict else len(a) <= len(b)
            for x, y in reversed(list(zip(a, b))):
                e = self.eq_term(x, y)
                if e is True:
                    continue
                l = self.as_bool_term(self.order(ast.Lt(), x, y))
                l = z3.BoolVal(l) if isinstance(l, bool) else l
                if e is False:
                    res = l
                else:
                    res = z3.If(e, z3.BoolVal(res) if isinstance(res, bool) else res, l)
            return res
        ta, tb = typeof(a), typeof(b)
        if ta in STRLIKE and tb in STRLIKE:
            x, y = to_term(a, STR), to_term(b, STR)
            return x < y if strict else x <= y
        if ta in INTLIKE + (BOOL,) and tb in INTLIKE + (BOOL,):
            x, y = self.int_term(a), self.int_term(b)
            return x < y if strict else x <= y
        if isinstance(ta, SeqT) and isinstance(tb, SeqT):
            if isinstance(a, SList) and isinstance(b, SList) and \
                    join(ta, tb) == ta == tb:
                f = z3.Function('precedes_' + smt._mangle(ta.name), ta.sort(),
                                ta.sort(), z3.BoolSort())
                x, y = to_term(a, ta, self.eng), to_term(b, tb, self.eng)
                self.eng.define(z3.Implies(x == y, z3.Not(f(x, y))))
                return f(x, y) if strict else z3.Or(x == y, f(x, y))
            raise Unsupported('ordering of symbolic sequences')
        raise PyExc(TypeError("'<' not supported between instances"))

    # -------------------------------------------------------- arithmetic

    def binop(self, op, a, b):
        eng = self.eng
        a, b = eng.force(a), eng.force(b)
        if is_native(a) and is_native(b):
            try:
                return self.native_binop(op, a, b)
            except Exception as e:
                raise PyExc(e)
        if isinstance(op, ast.Add):
            ta = None
            if isinstance(a, SList) or isinstance(b, SList):
                return self.list_add(a, b)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            ca = self.class_of_user(a)
            if ca is not None:
                m = class_lookup(ca, '__add__')
                if m is not MISSING:
                    return eng.call(m, [a, b])
            ta, tb = typeof(a), typeof(b)
            if ta in STRLIKE and tb in STRLIKE:
                return self.concat([a, b])
            if ta in INTLIKE + (BOOL,) and tb in INTLIKE + (BOOL,):
                return S(self.int_term(a) + self.int_term(b), INT)
            if ta == BYTES and tb == BYTES:
                return S(z3.Concat(to_term(a, BYTES), to_term(b, BYTES)), BYTES)
            if not all(is_native(x) or isinstance(x, (Sym, SObj))
                       for x in (a, b)):
                raise Unsupported('%r + %r' % (a, b))
            raise PyExc(TypeError('unsupported operand type(s) for +'))
        if isinstance(op, ast.Sub):
            if isinstance(a, SSet) or isinstance(b, SSet):
                return self.set_op('sub', a, b)
            self.need_int(a, b, '-')
            return S(self.int_term(a) - self.int_term(b), INT)
        if isinstance(op, ast.Mult):
            ta, tb = typeof(a), typeof(b)
            if ta in INTLIKE and tb in INTLIKE:
                return S(self.int_term(a) * self.int_term(b), INT)
            raise Unsupported('*')
        if isinstance(op, ast.FloorDiv) and isinstance(b, int) and b > 0:
            self.need_int(a, b, '//')
            return S(self.int_term(a) / b, INT)
        if isinstance(op, ast.Mod):
            ta = typeof(a)
            if ta in STRLIKE:
                return self.percent(a, b)
            if isinstance(b, int) and b > 0:
                return S(self.int_term(a) % b, INT)
        if isinstance(op, ast.BitAnd):
            if isinstance(a, (SSet, set, frozenset)) or isinstance(b, SSet):
                return self.set_op('and', a, b)
            if isinstance(b, int) and b >= 0 and (b + 1) & b == 0:
                return S(self.int_term(a) % (b + 1), INT)
            if isinstance(b, int) and b > 0:
                low = b & -b
                if (b + low) & b == 0:      # one run of ones
                    x = self.int_term(a)
                    return S(x % (b + low) - x % low, INT)
        if isinstance(op, ast.BitOr):
            if isinstance(a, (SSet, set, frozenset)) or isinstance(b, SSet):
                return self.set_op('or', a, b)
            x, y = self.int_term(a), self.int_term(b)
            if eng.entails(z3.And(y >= 0, y < 256, x % 256 == 0)):
                return S(x + y, INT)
        if isinstance(op, ast.RShift) and isinstance(b, int) and b >= 0:
            self.need_int(a, b, '>>')
            return S(self.int_term(a) / (1 << b), INT)
        if isinstance(op, ast.LShift) and isinstance(b, int) and b >= 0:
            self.need_int(a, b, '<<')
            return S(self.int_term(a) * (1 << b), INT)
        raise Unsupported('binop %s %r %r' % (type(op).__name__, a, b))

    def need_int(self, a, b, op):
        for v in (a, b):
            if typeof(v) not in INTLIKE + (BOOL,):
                raise PyExc(TypeError('unsupported operand type(s) for ' + op))

    def native_binop(self, op, a, b):
        import operator as o
        return {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Mod: o.mod,
                ast.FloorDiv: o.floordiv, ast.BitOr: o.or_, ast.BitAnd: o.and_,
                ast.LShift: o.lshift, ast.RShift: o.rshift, ast.Div: o.truediv,
                ast.BitXor: o.xor, ast.Pow: o.pow}[type(op)](a, b)

    def percent(self, fmt, args):
        if not isinstance(fmt, str):
            raise Unsupported('symbolic format string')
        if not isinstance(args, tuple):
            args = (args,)
        parts = re.split(r'(%(?:-[0-9]+)?[srd])', fmt)
        out = []
        args = list(args)
        for p in parts:
            if p in ('%s', '%d'):
                if not args:
                    raise PyExc(TypeError('not enough arguments for format string'))
                out.append(self.to_str(args.pop(0)))
            elif p == '%r':
                out.append(self.to_repr(args.pop(0)))
            elif p[:2] == '%-' and p[-1] == 's':
                if not args:
                    raise PyExc(TypeError('not enough arguments for format string'))
                x = self.to_str(args.pop(0))
                n = int(p[2:-1])
                out.append(x.ljust(n) if isinstance(x, str) else from_term(
                    LJUST(to_term(x, STR), z3.IntVal(n)), STR))
            else:
                if '%' in p:
                    raise Unsupported('format string')
                out.append(p)
        if args:
            raise PyExc(TypeError('not all arguments converted'))
        return self.concat(out)

    def concat(self, parts):
        parts = [p for p in parts if not (isinstance(p, str) and p == '')]
        if not parts:
            return ''
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        if len(parts) == 1:
            return parts[0] if typeof(parts[0]) == STR else S(parts[0].z, STR)
        return S(z3.Concat(*[to_term(p, STR) for p in parts]), STR)

    def list_add(self, a, b):
        eng = self.eng
        if isinstance(a, SList) and a.concrete and isinstance(b, SList) and b.concrete:
            return eng.mklist(a.items + b.items)
        kinds = []
        for x in (a, b):
            if not isinstance(x, (SList, tuple)):
                if isinstance(x, (Sym, SObj)) or is_native(x):
                    raise PyExc(TypeError('can only concatenate list'))
                raise Unsupported('list + %r' % (x,))
            kinds.append(tuple if isinstance(x, tuple) else x.cls)
        if kinds[0] is not kinds[1]:
            raise PyExc(TypeError('can only concatenate list'))
        if kinds[0] is tuple:
            a, b = [x if isinstance(x, SList) else SList(items=list(x))
                    for x in (a, b)]
        t = join(typeof(a), typeof(b))
        z = z3.Concat(to_term(a, t, eng), to_term(b, t, eng))
        r = from_term(z, t, eng)
        if kinds[0] is tuple:
            r.cls = tuple
        return r

    def list_extend(self, l, v):
        eng = self.eng
        eng.note_write(l)
        v = eng.force(v)
        items = self.iter_concrete(v)
        if items is None and isinstance(v, (GenVal, GenExp)):
            eng.iterate(v, lambda x: self.list_append(l, x), eng.frame, None)
            return
        if l.concrete and items is not None:
            l.items.extend(items)
            return
        if items is not None:
            for i in items:
                self.list_append(l, i)
            return
        r = self.list_add(l, v if isinstance(v, SList) else self.to_slist(v))
        l.items, l.z, l.elem = None, r.z, r.elem
        l.version += 1

    def to_slist(self, v):
        if isinstance(v, SList):
            return v
        if isinstance(v, Sym) and v.t == BYTES:
            return SList(z=v.z, elem=BYTE)
        if isinstance(v, Sym) and v.t in STRLIKE:
            # its characters; all we say is how many, and what they make
            r = LETTERS(v.z)
            self.eng.define(z3.Length(r) == z3.Length(v.z))
            self.eng.define(join_fn('').decl(r) == v.z)
            return SList(z=r, elem=STR)
        if isinstance(v, RangeVal) and v.step == 1:
            eng = self.eng
            lo, hi = self.int_term(v.lo), self.int_term(v.hi)
            r = RANGE(lo, hi)
            n = z3.Length(r)
            eng.define(n == z3.If(hi > lo, hi - lo, 0))
            eng.define(z3.Implies(hi > lo, z3.And(
                r[0] == lo, r[n - 1] == hi - 1,
                r == z3.Concat(z3.Unit(lo), RANGE(lo + 1, hi)))))
            return SList(z=r, elem=BYTE if eng.entails(
                z3.And(lo >= 0, hi <= 256)) else INT)
        if isinstance(v, SSet) and v.z is not None:
            # in some order
            f = self.set_functions(v.elem)
            r = SList(z=f['listed'](v.z), elem=v.elem)
            self.eng.define(z3.Length(r.z) == f['card'](v.z))
            r.of_set = v.z, r.version
            return r
        raise Unsupported('as list: %r' % (v,))

    def set_functions(self, t):
        n = smt._mangle(t.name)
        st, qt = z3.ArraySort(t.sort(), z3.BoolSort()), SeqT(t).sort()
        return {'of': z3.Function('set_of_' + n, qt, st),
                'card': z3.Function('card_' + n, st, z3.IntSort()),
                'sorted': z3.Function('sorted_set_' + n, st, qt),
                # the order is a function of the set (assumed)
                'listed': z3.Function('listed_set_' + n, st, qt),
                'sort': z3.Function('sorted_list_' + n, qt, qt)}

    def list_sort(self, l):
        """What sorting puts into l (numbers or text; no key)."""
        eng = self.eng
        if l.elem not in (INT, BYTE, STR):
            raise Unsupported('sort of %r' % (l.elem,))
        f = self.set_functions(l.elem)
        s = getattr(l, 'of_set', None)
        if s is not None and s[1] == l.version:
            r = f['sorted'](s[0])
            eng.define(z3.Length(r) == f['card'](s[0]))
        else:
            r = f['sort'](l.z)
            eng.define(z3.Length(r) == z3.Length(l.z))
        return r

    def set_of_list(self, v):
        f = self.set_functions(v.elem)
        s = f['of'](v.z)
        n = f['card'](s)
        self.eng.define(z3.And(n >= 0, n <= z3.Length(v.z),
                               (n > 0) == (z3.Length(v.z) > 0)))
        return SSet(z=s, elem=v.elem)

    def list_append(self, l, x):
        eng = self.eng
        eng.note_write(l)
        if l.concrete:
            l.items.append(x)
            return
        t = SeqT(join_elem(l.elem, typeof(x)))
        if t.elem != l.elem:
            try:
                l.z = coerce_term(l.z, SeqT(l.elem), t, eng)
            except Unsupported:
                eng.widen(l, t)
                raise
            l.elem = t.elem
        l.z = z3.Concat(l.z, z3.Unit(to_term(x, l.elem, eng)))
        l.version += 1

    # ------------------------------------------------------------- slicing

    def clamp(self, i, n, default):
        """Python slice bound as a term within 0..n."""
        eng = self.eng
        if i is None:
            return default
        if isinstance(i, int) and not isinstance(i, bool):
            if i == 0:
                return z3.IntVal(0)
            if i > 0:
                if eng.entails(n >= i):
                    return z3.IntVal(i)
                return z3.If(n >= i, z3.IntVal(i), n)
            if eng.entails(n >= -i):
                return n + i
            return z3.If(n + i >= 0, n + i, z3.IntVal(0))
        z = self.int_term(i)
        if eng.entails(z3.And(z >= 0, z <= n)):
            return z
        if eng.entails(z >= 0):
            return z3.If(z <= n, z, n)
        return z3.If(z < 0, z3.If(n + z >= 0, n + z, z3.IntVal(0)),
                     z3.If(z <= n, z, n))

    def getslice(self, obj, lo, hi, st):
        eng = self.eng
        obj, lo, hi, st = (eng.force(x) for x in (obj, lo, hi, st))
        for x in (lo, hi, st):
            if x is not None and typeof(x) not in INTLIKE + (BOOL,):
                raise PyExc(TypeError('slice indices must be integers'))
        nat = all(x is None or isinstance(x, int) for x in (lo, hi, st))
        if nat and isinstance(obj, (str, tuple, bytes, list)):
            return obj[slice(lo, hi, st)]
        if nat and isinstance(obj, SList) and obj.concrete:
            return eng.mklist(obj.items[slice(lo, hi, st)])
        if st not in (None, 1):
            raise Unsupported('slice step')
        if isinstance(obj, (str, bytes)) or isinstance(obj, Sym) and obj.t in (
                STR, CHAR, BYTES):
            t = BYTES if typeof(obj) == BYTES else STR
            z, off, n = self.view(obj, t)
            a = self.clamp(lo, n, z3.IntVal(0))
            b = self.clamp(hi, n, n)
            if not eng.entails(b >= a):
                b = z3.If(b >= a, b, a)
            return self.substr(z, z3.simplify(off + a), z3.simplify(off + b), t)
        if isinstance(obj, SList):
            t = typeof(obj)
            z = to_term(obj, t, eng)
            if lo in (None, 0) and hi == -1 and st is None:
                parts = flat_concat(z)
                if parts[-1].decl().kind() == z3.Z3_OP_SEQ_UNIT:
                    return from_term(join_seq(parts[:-1], z3.Empty(z.sort())),
                                     t, eng)
            n = z3.Length(z)
            a = self.clamp(lo, n, z3.IntVal(0))
            b = self.clamp(hi, n, n)
            if not eng.entails(b >= a):
                b = z3.If(b >= a, b, a)
            return from_term(z3.Extract(z, a, z3.simplify(b - a)), t, eng)
        cls = self.class_of_user(obj)
        if cls is not None:
            m = class_lookup(cls, '__getitem__')
            if m is not MISSING:
                return eng.call(m, [obj, SliceVal(lo, hi, st)])
        raise Unsupported('slice of %r' % (obj,))

    def view(self, v, t):
        """(base, offset, length) of a possibly sliced value."""
        if isinstance(v, Sym) and v.meta is not None and v.meta[0] == 'view':
            _, base, a, b = v.meta
            return base, a, z3.simplify(b - a)
        z = to_term(v, t)
        return z, z3.IntVal(0), z3.Length(z) if not isinstance(v, (str, bytes)) \
            else z3.IntVal(len(v))

    def cut(self, z, a, b):
        """z[a:b] of a concatenation, if a and b are between its parts (or
        within literal ones)."""
        parts = flat_concat(z)
        if len(parts) < 2:
            return None
        right = self.split_parts(parts, a)
        if right is None:
            return None
        n = z3.simplify(b - a)
        if z3.simplify(b == z3.Length(z)).eq(z3.BoolVal(True)):
            left = right[1]
        else:
            left = self.split_parts(right[1], n)
            if left is None:
                return None
            left = left[0]
        if not left:
            return z3.StringVal('')
        return left[0] if len(left) == 1 else z3.Concat(*left)

    def lacks(self, part, ch):
        """Do the facts about this term rule out this character?"""
        if z3.is_string_value(part):
            return ch not in decode_zstr(part)
        facts = []
        for p in self.eng.all_pc():
            try:
                f = rex.fact(p)
            except rex.TooBig:
                continue
            if f is not None and f[0].eq(part):
                facts.append(p)
        if not facts:
            return False
        return rex.unsat(facts + [z3.Contains(part, zstr(ch))])

    def locate(self, z, sep, last=False):
        """(before, after) the separator, () if there is none, or None."""
        if not isinstance(sep, str) or len(sep) != 1:
            return None
        parts = flat_concat(z3.simplify(z))
        if last:
            parts = parts[::-1]
        for i, part in enumerate(parts):
            if self.lacks(part, sep):
                continue
            if not z3.is_string_value(part):
                return None
            x = decode_zstr(part)
            k = x.rindex(sep) if last else x.index(sep)
            a, b = [zstr(x[:k])] if k else [], \
                [zstr(x[k + 1:])] if x[k + 1:] else []
            if last:
                a, b = parts[i + 1:][::-1] + a, b + parts[:i][::-1]
            else:
                a, b = parts[:i] + a, b + parts[i + 1:]
            return join_parts(a), join_parts(b)
        return ()

    def split_parts(self, parts, pos):
        got = self.split_left(parts, pos)
        if got is None:
            n = z3.simplify(sum(map(z3.Length, parts), -pos))
            got = self.split_left(parts[::-1], n, reverse=True)
            if got is not None:
                got = got[1][::-1], got[0][::-1]
        return got

    def split_left(self, parts, pos, reverse=False):
        eng = self.eng
        for i, part in enumerate(parts):
            if z3.is_int_value(pos) and pos.as_long() == 0:
                return parts[:i], parts[i:]
            if z3.is_string_value(part):
                n = len(decode_zstr(part))
                if z3.is_int_value(pos):
                    if pos.as_long() < n:
                        x, k = decode_zstr(part), pos.as_long()
                        if reverse:
                            return (parts[:i] + [zstr(x[n - k:])],
                                    [zstr(x[:n - k])] + parts[i + 1:])
                        return (parts[:i] + [zstr(x[:k])],
                                [zstr(x[k:])] + parts[i + 1:])
                    pos = z3.IntVal(pos.as_long() - n)
                    continue
                rest = z3.simplify(pos - n)
                if not obviously_natural(rest):
                    return None
                pos = rest
                continue
            rest = z3.simplify(pos - z3.Length(part))
            if not obviously_natural(rest):
                if not eng.entails(rest == 0):
                    return None
                rest = z3.IntVal(0)
            pos = rest
        if z3.is_int_value(pos) and pos.as_long() == 0:
            return parts, []
        return None

    def substr(self, z, a, b, t):
        """z[a:b] for 0 <= a <= b <= len(z)."""
        a, b = z3.simplify(a), z3.simplify(b)
        n = z3.simplify(b - a)
        if t == STR:
            parts = self.cut(z, a, b)
            if parts is not None:
                return S(parts, t)
        if z3.is_int_value(a) and a.as_long() == 0 and z3.simplify(
                b == z3.Length(z)).eq(z3.BoolVal(True)):
            return S(z, t)
        f = z3.SubString if t == STR else z3.Extract
        r = S(f(z, a, n), t)
        if isinstance(r, Sym):
            r.meta = ('view', z, a, b)
        return r

    def index(self, i, n, what):
        """Normalised index or IndexError."""
        eng = self.eng
        z = self.int_term(i)
        if isinstance(i, int):
            if i >= 0:
                ok = n > i
                pos = z3.IntVal(i)
            else:
                ok = n >= -i
                pos = n + i
            if not eng.branch(ok):
                raise PyExc(IndexError(what + ' index out of range'))
            return pos
        if eng.branch(z3.And(z >= 0, z < n)):
            return z
        if eng.branch(z3.And(z < 0, n + z >= 0)):
            return n + z
        raise PyExc(IndexError(what + ' index out of range'))

    def getitem(self, obj, i):
        eng = self.eng
        obj, i = eng.force(obj), eng.force(i)
        if isinstance(obj, (dict,)):
            obj = self.sdict(obj)
        if isinstance(obj, SDict):
            return self.dict_get(obj, i)
        if isinstance(obj, SMatch):
            return self.match_group(obj, i)
        if isinstance(i, slice):
            i = SliceVal(i.start, i.stop, i.step)
        if isinstance(i, SliceVal) and not isinstance(obj, SObj):
            return self.getslice(obj, i.lo, i.hi, i.st)
        cls = self.class_of_user(obj)
        if cls is not None:
            m = class_lookup(cls, '__getitem__')
            if m is not MISSING:
                return eng.call(m, [obj, i])
            raise PyExc(TypeError('not subscriptable'))
        if isinstance(obj, (FuncVal, type)) or obj is None or isinstance(obj, int):
            raise PyExc(TypeError('not subscriptable'))
        if typeof(i) not in INTLIKE + (BOOL,):
            raise PyExc(TypeError('indices must be integers'))
        if isinstance(obj, (str, bytes, tuple, list)) and isinstance(i, int):
            try:
                return obj[i]
            except IndexError as e:
                raise PyExc(e)
        if isinstance(obj, SList) and obj.concrete and isinstance(i, int):
            try:
                return obj.items[i]
            except IndexError as e:
                raise PyExc(e)
        if isinstance(obj, (tuple, list)) or isinstance(obj, SList) and obj.concrete:
            items = obj.items if isinstance(obj, SList) else obj
            n = len(items)
            for k in range(n):
                if eng.branch(z3.Or(i.z == k, i.z == k - n)):
                    return items[k]
            raise PyExc(IndexError('index out of range'))
        if isinstance(obj, str) or isinstance(obj, Sym) and obj.t in STRLIKE:
            z, off, n = self.view(obj, STR)
            p = self.index(i, n, 'string')
            return self.char_at(z, z3.simplify(off + p))
        if isinstance(obj, Sym) and obj.t == BYTES:
            p = self.index(i, z3.Length(obj.z), 'index')
            r = Sym(obj.z[p], BYTE)
            for c in eng.type_facts(r.z, BYTE):
                eng.assume(c)
            return r
        if isinstance(obj, SList):
            if isinstance(i, int) and i == -1:
                last = flat_concat(obj.z)[-1]
                if last.decl().kind() == z3.Z3_OP_SEQ_UNIT and \
                        not last.eq(obj.z):
                    v = from_term(last.arg(0), obj.elem, eng)
                    if not isinstance(v, (SList, SDict, tuple)) or \
                            eng.in_definition:
                        return v
            p = self.index(i, z3.Length(obj.z), 'list')
            return self.list_item(obj, p)
        raise Unsupported('subscript of %r' % (obj,))

    def char_at(self, z, pos):
        """The character of z at a position that exists."""
        eng = self.eng
        parts = flat_concat(z)
        if len(parts) > 1:
            right = self.split_parts(parts, pos)
            if right and right[1]:
                first = right[1][0]
                if z3.is_string_value(first):
                    return decode_zstr(first)[0]
                if eng.entails(z3.Length(first) == 1):
                    return S(first, CHAR)
            if eng.sub is None:
                for i, part in enumerate(parts[:-1]):
                    n = z3.IntVal(len(decode_zstr(part))) \
                        if z3.is_string_value(part) else z3.Length(part)
                    if eng.branch(z3.simplify(pos < n)):
                        return self.char_at(part, pos)
                    pos = z3.simplify(pos - n)
                    if eng.entails(pos == 0):
                        return self.char_at(
                            z3.Concat(*parts[i + 1:])
                            if len(parts) > i + 2 else parts[i + 1],
                            z3.IntVal(0))
                return self.char_at(parts[-1], pos)
        if z3.is_string_value(z) and z3.is_int_value(pos):
            return decode_zstr(z)[pos.as_long()]
        return S(z3.SubString(z, pos, 1), CHAR)

    def list_item(self, l, p):
        eng = self.eng
        last = flat_concat(l.z)[-1]
        if last.decl().kind() == z3.Z3_OP_SEQ_UNIT and z3.simplify(
                p - z3.Length(l.z)).eq(z3.IntVal(-1)):
            z = last.arg(0)
        else:
            z = l.z[p]
        for c in eng.type_facts(z, l.elem):
            eng.assume(c)
        if getattr(l, 'comp', None) is not None and l.z.eq(l.comp[1]):
            eng.assume(l.comp[0](z))
        if not z3.is_int_value(p) and l.elem == STR:
            eng.touched.setdefault(l.z.get_id(), (l.z, []))[1].append(p)
        v = from_term(z, l.elem, eng)
        if isinstance(v, (SList, SDict)):
            v.parent = (l, p)
        if isinstance(v, tuple):
            for i, x in enumerate(v):
                if isinstance(x, (SList, SDict)):
                    x.parent = (l, p, i)
        return v

    def dict_get(self, d, k, default=PyExc):
        eng = self.eng
        if d.concrete:
            if is_native(k) and all(is_native(x) for x in d.items):
                if k in d.items:
                    return d.items[k]
            else:
                for x in d.items:
                    e = self.eq_term(x, k)
                    if e is True or (e is not False and eng.branch(e)):
                        return d.items[x]
            if default is not PyExc:
                return default
            if d.default is not None:
                v = eng.call(d.default, [])
                self.dict_set(d, k, v)
                return v
            raise PyExc(KeyError(k if is_native(k) else '?'))
        dt = d.t.dt()
        if join(typeof(k), d.t.key) != d.t.key:
            if default is not PyExc:
                return default
            raise PyExc(KeyError('?'))
        kt = to_term(k, d.t.key, eng)
        if eng.branch(z3.Select(dt.accessor(0, 0)(d.z), kt)):
            z = z3.Select(dt.accessor(0, 1)(d.z), kt)
            for c in eng.type_facts(z, d.t.val):
                eng.assume(c)
            v = from_term(z, d.t.val, eng)
            if isinstance(v, (SList, SDict)):
                v.parent = (d, k)
            return v
        if default is not PyExc:
            return default
        if d.default is not None:
            v = eng.call(d.default, [])
            self.dict_set(d, k, v)
            return v
        raise PyExc(KeyError('?'))

    def dict_set(self, d, k, v):
        eng = self.eng
        eng.note_write(d)
        if d.concrete:
            if is_native(k) and all(is_native(x) for x in d.items):
                d.items[k] = v
                self.write_back(d)
                return
            for x in list(d.items):
                e = self.eq_term(x, k)
                if e is True or (e is not False and eng.branch(e)):
                    d.items[x] = v
                    self.write_back(d)
                    return
            d.items[_Key(k) if not is_native(k) else k] = v
            self.write_back(d)
            return
        dt = d.t.dt()
        if not isinstance(d.t.val, RecT):
            nt = DictT(join_elem(d.t.key, typeof(k)),
                       join_elem(d.t.val, typeof(v)))
            if nt != DictT(d.t.key, d.t.val):
                raise Unsupported('dict type change %s -> %s' % (d.t, nt))
        kt, vt = to_term(k, d.t.key, eng), to_term(v, d.t.val, eng)
        d.z = dt.constructor(0)(
            z3.Store(dt.accessor(0, 0)(d.z), kt, z3.BoolVal(True)),
            z3.Store(dt.accessor(0, 1)(d.z), kt, vt))
        if isinstance(v, (SDict, SList)):
            v.parent = (d, k)
        self.write_back(d)

    def setitem(self, obj, i, v):
        eng = self.eng
        obj = eng.force(obj)
        if isinstance(obj, SDict):
            self.dict_set(obj, eng.force(i), v)
            return
        if isinstance(obj, SList):
            eng.note_write(obj)
            i = eng.force(i)
            if obj.concrete and isinstance(i, int):
                try:
                    obj.items[i] = v
                except IndexError as e:
                    raise PyExc(e)
                self.write_back(obj)
                return
            t = typeof(obj)
            z = to_term(obj, t, eng)
            p = self.index(i, z3.Length(z), 'list')
            wide = SeqT(join_elem(t.elem, typeof(v)))
            if wide != t:
                try:
                    z = coerce_term(z, t, wide, eng)
                except Unsupported:
                    eng.widen(obj, wide)
                    raise
                t = wide
            zv = to_term(v, t.elem, eng)
            obj.items = None
            obj.elem = t.elem
            if z3.simplify(p - z3.Length(z)).eq(z3.IntVal(-1)):
                parts = flat_concat(z)
                if parts[-1].decl().kind() == z3.Z3_OP_SEQ_UNIT:
                    parts[-1:] = [z3.Unit(zv)]
                else:
                    parts = [z3.Extract(z, 0, p), z3.Unit(zv)]
            else:
                parts = [z3.Extract(z, 0, p), z3.Unit(zv),
                         z3.Extract(z, p + 1, z3.Length(z) - p - 1)]
            obj.z = z3.Concat(*parts) if len(parts) > 1 else parts[0]
            self.write_back(obj)
            return
        raise Unsupported('item assignment on %r' % (obj,))

    def write_back(self, obj):
        if getattr(obj, 'parent', None) is not None:
            owner, k = obj.parent[:2]
            new = obj
            if len(obj.parent) == 3:
                # part of a tuple in a list
                new = list(from_term(owner.z[k], owner.elem, self.eng))
                new[obj.parent[2]] = obj
                new = tuple(new)
            if isinstance(k, z3.ExprRef):
                k = from_term(k, INT)
            self.setitem(owner, k, new)

    def delitem(self, obj, i):
        eng = self.eng
        obj = eng.force(obj)
        if isinstance(obj, SDict) and obj.concrete and is_native(i):
            eng.note_write(obj)
            if i not in obj.items:
                raise PyExc(KeyError(i))
            del obj.items[i]
            return
        if isinstance(obj, SList) and obj.concrete and isinstance(i, int):
            eng.note_write(obj)
            try:
                del obj.items[i]
            except IndexError as e:
                raise PyExc(e)
            return
        raise Unsupported('del item')

    def setslice(self, obj, lo, hi, v):
        eng = self.eng
        if not isinstance(obj, SList):
            raise Unsupported('slice assignment')
        eng.note_write(obj)
        items = self.iter_concrete(v)
        if obj.concrete and items is not None and all(
                x is None or isinstance(x, int) for x in (lo, hi)):
            obj.items[slice(lo, hi)] = list(items)
            return
        v = v if isinstance(v, SList) else eng.mklist(items)
        t = join(typeof(obj), typeof(v))
        z = to_term(obj, t, eng)
        n = z3.Length(z)
        a = self.clamp(lo, n, z3.IntVal(0))
        b = self.clamp(hi, n, n)
        if not eng.entails(b >= a):
            b = z3.If(b >= a, b, a)
        obj.items, obj.elem = None, t.elem
        obj.z = z3.Concat(z3.Extract(z, 0, a), to_term(v, t, eng),
                          z3.Extract(z, b, n - b))

    # ------------------------------------------------------------- wrapping

    def sdict(self, d):
        if isinstance(d, SDict):
            return d
        s = SDict(items=dict(d))
        s.birth = 0
        if isinstance(d, collections.defaultdict):
            s.default = d.default_factory
        return s

    def sset(self, v):
        if isinstance(v, SSet):
            return v
        if isinstance(v, (set, frozenset)):
            s = SSet(items=set(v))
            s.birth = 0
            return s
        raise Unsupported('not a set')

    def set_op(self, op, a, b):
        a, b = self.sset(a), self.sset(b)
        if a.concrete and b.concrete:
            r = SSet(items={'sub': a.items - b.items, 'and': a.items & b.items,
                            'or': a.items | b.items}[op])
        elif a.chars is not None and a.filt is None and b.concrete and \
                op in ('sub', 'and'):
            r = SSet(chars=a.chars, filt=(op, ''.join(sorted(b.items))))
        elif b.chars is not None and b.filt is None and a.concrete and op == 'and':
            r = SSet(chars=b.chars, filt=(op, ''.join(sorted(a.items))))
        elif a.chars is None and b.chars is None:
            t = typeof(a) if not a.concrete else typeof(b)
            if (a.concrete and a.items and join(t, typeof(a)) != t) or (
                    b.concrete and b.items and join(t, typeof(b)) != t):
                raise Unsupported('set operation')
            x, y = to_term(a, t, self.eng), to_term(b, t, self.eng)
            added, z = [], y
            while z3.is_store(z) and z3.is_true(z.arg(2)):
                added.append(z.arg(1))
                z = z.arg(0)
            if z3.is_K(z) and z3.is_false(z.arg(0)) and op == 'or':
                z = x
                for e in reversed(added):
                    z = z3.Store(z, e, z3.BoolVal(True))
            elif op == 'or':
                z = z3.SetUnion(x, y)
            elif op == 'and':
                z = z3.SetIntersect(x, y)
            else:
                z = z3.SetDifference(x, y)
            r = from_term(z, t, self.eng)
        else:
            raise Unsupported('set operation')
        r.birth = self.eng.birth()
        return r

    # ------------------------------------------------------------ iteration

    def iter_concrete(self, v):
        if isinstance(v, SList):
            return v.items
        if isinstance(v, SDict):
            return list(v.items) if v.concrete else None
        if isinstance(v, SSet):
            return sorted(v.items, key=repr) if v.concrete else None
        if isinstance(v, (str, tuple, list, bytes)):
            return list(v)
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=repr)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, (type({}.keys()), type({}.values()), type({}.items()))):
            return list(v)
        if isinstance(v, RangeVal):
            if all(isinstance(x, int) for x in (v.lo, v.hi, v.step)) and \
                    len(range(v.lo, v.hi, v.step)) <= 64:
                return list(range(v.lo, v.hi, v.step))
            return None
        if isinstance(v, range):
            return list(v)
        if isinstance(v, Enumerate):
            i = self.iter_concrete(v.it)
            return None if i is None else [(k + v.start, x) for k, x in enumerate(i)]
        if isinstance(v, Rev):
            i = self.iter_concrete(v.it)
            return None if i is None else list(reversed(i))
        if isinstance(v, Zip):
            its = [self.iter_concrete(i) for i in v.its]
            return None if any(i is None for i in its) else list(zip(*its))
        if isinstance(v, GenExp):
            gen = v.node.generators[0]
            it = self.eng.force(self.eng.ev(gen.iter, v.frame))
            if self.iter_concrete(it) is None or len(v.node.generators) > 1:
                return None
            return self._comp_items(v.node, v.frame)
        return None

    def _comp_items(self, node, frame):
        eng = self.eng
        out = []
        names = []

        def rec(gi, fr):
            if gi == len(node.generators):
                out.append(eng.ev(node.elt, fr))
                return
            g = node.generators[gi]
            it = eng.force(eng.ev(g.iter, fr))
            items = self.iter_concrete(it)
            if items is None:
                raise Unsupported('comprehension over a symbolic sequence')
            for x in list(items):
                eng.assign(g.target, x, fr)
                if all(eng.truth(eng.ev(c, fr)) for c in g.ifs):
                    rec(gi + 1, fr)
        fr = self.comp_frame(frame)
        rec(0, fr)
        return out

    def comp_frame(self, frame):
        from .interp import Frame
        fr = Frame(frame.fn, frame.depth)
        fr.locals = ScopedLocals(frame.locals)
        fr.birth = self.eng.births + 1
        return fr

    def listcomp(self, node, frame, src=None):
        eng = self.eng
        g = node.generators[0]
        it = eng.force(eng.ev(g.iter, frame)) if src is None else src
        if len(node.generators) == 1:
            items = self.iter_concrete(it)
            if items is None and isinstance(it, RangeVal):
                items = self.short_range(it)
            if items is None:
                if isinstance(it, GenVal):
                    l = eng.mklist([])
                    eng.iterate(it, lambda x: self._comp_step(node, g, frame, x, l),
                                frame, node)
                    return l
                return self.symcomp(node, g, it, frame)
            out = []
            fr = self.comp_frame(frame)
            for x in list(items):
                eng.assign(g.target, x, fr)
                if all(eng.truth(eng.ev(c, fr)) for c in g.ifs):
                    out.append(eng.ev(node.elt, fr))
            return eng.mklist(out)
        return eng.mklist(self._comp_items(node, frame))

    def short_range(self, r):
        """The numbers of a range that is known to be short: one path each."""
        eng = self.eng
        if r.step != 1 or not isinstance(r.lo, int) or eng.sub is not None:
            return None
        z = to_term(r.hi, INT)
        if not eng.entails(z <= r.lo + 4):
            return None
        n = 0
        while n < 4 and not eng.branch(z <= r.lo + n):
            n += 1
        return [r.lo + i for i in range(n)]

    def _comp_step(self, node, g, frame, x, l):
        eng = self.eng
        fr = self.comp_frame(frame)
        eng.assign(g.target, x, fr)
        if all(eng.truth(eng.ev(c, fr)) for c in g.ifs):
            self.list_append(l, eng.ev(node.elt, fr))

    def symcomp(self, node, g, it, frame):
        """A comprehension over a symbolic sequence: a spec function."""
        h = self.eng.env.get('symcomp')
        if h is not None:
            r = h(self.eng, node, g, it, frame)
            if r is not None:
                return r
        if isinstance(it, SObj):
            h = self.eng.env.get('iter')
            it = h(self.eng, it) if h is not None else it
            if isinstance(it, SList) and it.concrete:
                return self.eng.mklist(self._comp_over(node, g, it, frame))
        if isinstance(it, Sym) and it.t == BYTES:
            it = SList(z=it.z, elem=BYTE)
        if isinstance(it, Sym) and it.t in STRLIKE:
            it = self.to_slist(it)
        if isinstance(it, SSet) and it.z is not None:
            it = self.to_slist(it)
        if not isinstance(it, SList) or it.concrete:
            raise Unsupported('comprehension over a symbolic sequence')
        return self.comp_function(node, g, it, frame)

    def _comp_over(self, node, g, it, frame):
        eng = self.eng
        fr = self.comp_frame(frame)
        out = []
        for x in list(it.items):
            eng.assign(g.target, x, fr)
            if all(eng.truth(eng.ev(c, fr)) for c in g.ifs):
                out.append(eng.ev(node.elt, fr))
        return out

    def comp_function(self, node, g, it, frame, fuse=True):
        """The result as a function of the list, named after what it keeps
        and what it makes of it."""
        eng = self.eng
        fr = self.comp_frame(frame)
        made = getattr(it, 'made', None)
        if fuse and made is not None and it.z.eq(made[0]) and \
                it.elem == made[4]:
            # of what a comprehension made: one function of its list
            plain = self.comp_function(node, g, it, frame, False)
            it, cond0, elt0, t0 = made[1:5]
            t = it.elem
            e = comp_elem(t)
            e_term = from_term(elt0, t0, eng)
        else:
            plain = None
            t = it.elem
            e = comp_elem(t)
            cond0, e_term = z3.BoolVal(True), from_term(e, t, eng)

        def item():
            eng.assign(g.target, e_term, fr)
        z = it.z
        cond = cond0
        if g.ifs:
            def test():
                item()
                return all(eng.truth(eng.ev(c, fr)) for c in g.ifs)
            rs = self.no_exception(eng.merge(test), e, cond0, z)
            cond = z3.simplify(z3.And(cond0, self.total(rs, BOOL)[0]))

        def make():
            item()
            return eng.ev(node.elt, fr)
        rs = self.no_exception(eng.merge(make), e, cond, z)
        elt, et = self.total(rs)
        if z3.is_true(cond) and elt.eq(e):
            return SList(z=z, elem=et)
        cond, elt, name = comp_name(cond, elt)
        fewer, more = comp_subsets(cond, elt, e)
        rt = SeqT(et)
        f = z3.Function(name, z.sort(), rt.sort())

        def at(x, term):
            return z3.simplify(z3.substitute(term, (e, x)))
        out = []
        empty = z3.Empty(rt.sort())
        for p in flat_concat(z3.simplify(z)):
            k = p.decl().kind()
            if k == z3.Z3_OP_SEQ_EMPTY:
                continue
            if k == z3.Z3_OP_SEQ_UNIT:
                u = z3.Unit(at(p.arg(0), elt))
                c = at(p.arg(0), cond)
                out.append(u if z3.is_true(c) else z3.If(c, u, empty))
                continue
            r = f(p)
            if k == z3.Z3_OP_SEQ_EXTRACT and z3.is_int_value(p.arg(1)) and \
                    p.arg(1).as_long() == 0:
                base, k = p.arg(0), p.arg(2)
                x = base[z3.simplify(k - 1)]
                u = z3.Unit(at(x, elt))
                if not z3.is_true(cond):
                    u = z3.If(at(x, cond), u, empty)
                shorter = z3.simplify(z3.Extract(base, 0, z3.simplify(k - 1)))
                eng.define(z3.Implies(
                    z3.And(k >= 1, k <= z3.Length(base)),
                    r == (u if z3.is_int_value(k) and k.as_long() == 1 else
                          z3.Concat(f(shorter), u))))
                eng.define(z3.Implies(k <= 0, r == empty))
                eng.define(z3.Length(r) <= z3.Length(f(base)))
                eng.define(z3.Implies(k >= z3.Length(base), r == f(base)))
                last = z3.simplify(z3.Length(base) - k).eq(z3.IntVal(1))
                if last and not z3.is_true(cond):
                    # all but the last
                    eng.define(z3.Implies(k >= 0, z3.Length(f(base)) ==
                                          z3.Length(r) + z3.If(
                                              at(base[k], cond), 1, 0)))
                elif last:
                    eng.define(z3.Implies(k >= 0, f(base) == z3.Concat(
                        r, z3.Unit(at(base[k], elt)))))
                    eng.lasts[r.get_id()] = (r, k, f(base), at(base[k], elt))
            n, m = z3.Length(r), z3.Length(p)
            if z3.is_true(cond):
                eng.define(n == m)
                for x in (z3.IntVal(0), m - 1):
                    eng.define(z3.Implies(m > 0, r[x] == at(p[x], elt)))
            else:
                eng.define(n <= m)
                for x in (z3.IntVal(0), m - 1):
                    eng.define(z3.Implies(z3.And(n == 0, m > 0),
                                          z3.Not(at(p[x], cond))))
                if elt.eq(e):
                    for x in (z3.IntVal(0), n - 1):
                        eng.define(z3.Implies(n > 0, at(r[x], cond)))
            base = p.arg(0) if p.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and \
                z3.is_int_value(p.arg(1)) and p.arg(1).as_long() == 0 else p
            for i in eng.touched.get(base.get_id(), (0, ()))[1]:
                # an element that counts is counted
                eng.define(z3.Implies(z3.And(
                    i >= 0, i < m, at(base[i], cond)), n >= 1))
            for n0 in fewer:
                f0 = z3.Function(n0, z.sort(), rt.sort())
                eng.define(z3.Length(f0(p)) <= z3.Length(r))
            for n0 in more:
                f0 = z3.Function(n0, z.sort(), rt.sort())
                eng.define(z3.Length(f0(p)) >= z3.Length(r))
            out.append(r)
        res = from_term(join_seq(out, empty), rt, eng)
        if plain is not None and not plain.concrete and plain.elem == et:
            eng.define(plain.z == to_term(res, rt, eng))
        if elt.eq(e) and isinstance(res, SList):
            res.comp = (lambda x: at(x, cond)), res.z
        if isinstance(res, SList):
            res.made = res.z, SList(z=z, elem=t), cond, elt, et
        return res

    def no_exception(self, results, e, cond, z):
        """Without the exceptions that no element of the list raises."""
        eng = self.eng
        raised = [c for c, v in results if isinstance(v, PyExc)]
        if not raised or len(raised) == len(results):
            return results
        bad = z3.And(cond, z3.Or(*raised))
        if smt.valid_now(z3.Not(bad)):
            return [(c, v) for c, v in results if not isinstance(v, PyExc)]
        # known: there is no element of that kind, or of a wider kind
        left = []
        for p in flat_concat(z3.simplify(z)):
            k = p.decl().kind()
            if k == z3.Z3_OP_SEQ_EMPTY or k == z3.Z3_OP_SEQ_UNIT and \
                    eng.entails(z3.Not(z3.substitute(bad, (e, p.arg(0))))):
                continue
            if k == z3.Z3_OP_SEQ_EXTRACT:
                p = p.arg(0)        # (nor is there one in a part)
            left.append(p)
        for c0, e0, n0 in list(COMPS):
            if z3.is_int_value(e0) and smt.mentions(c0, e) and \
                    smt.valid_now(z3.Implies(bad, c0)):
                f = z3.Function(n0, z.sort(), SeqT(INT).sort())
                if all(eng.entails(z3.Length(f(p)) == 0) for p in left):
                    return [(c, v) for c, v in results
                            if not isinstance(v, PyExc)]
        return results

    def total(self, results, t=None):
        """(term, type) of the merged results of a pure evaluation."""
        eng = self.eng
        if not results or any(isinstance(v, PyExc) for _, v in results):
            raise Unsupported('exception in a comprehension: %s' % next(
                (v for _, v in results if isinstance(v, PyExc)), None))
        if t is None:
            t = typeof(results[0][1])
            for _, v in results[1:]:
                t = join(t, typeof(v))
        out = None
        for c, v in reversed(results):
            if t == BOOL:
                v = self.as_bool_term(v)
            else:
                v = to_term(v, t, eng)
            out = v if out is None else z3.If(c, v, out)
        return z3.simplify(out), t

    def setcomp(self, node, frame):
        items = self._comp_items(node, frame)
        if is_native(tuple(items)):
            s = SSet(items=set(items))
            s.birth = self.eng.birth()
            return s
        raise Unsupported('symbolic set comprehension')

    def iter_symbolic(self, v):
        eng = self.eng
        if isinstance(v, Sym) and v.t in STRLIKE:
            z, off, n = self.view(v, STR)
            return SeqView(lambda e: n, lambda e, k: self.char_at(
                z, z3.simplify(off + k)), v)
        if isinstance(v, Sym) and v.t == BYTES:
            def item(e, k):
                r = Sym(v.z[k], BYTE)
                for c in e.type_facts(r.z, BYTE):
                    e.assume(c)
                return r
            return SeqView(lambda e: z3.Length(v.z), item, v)
        if isinstance(v, SList):
            version = v.version
            z = v.z

            def litem(e, k):
                if v.version != version:
                    raise Unsupported('list modified while iterated')
                return self.list_item(v, k)
            return SeqView(lambda e: z3.Length(z), litem, v)
        if isinstance(v, Stream):
            sv = SeqView(None, v.make_item, None)
            sv.stream = True
            return sv
        if isinstance(v, RangeVal):
            lo, hi, st = v.lo, v.hi, v.step
            if st == 1:
                a, b = self.int_term(lo), self.int_term(hi)
                return SeqView(lambda e: z3.If(b >= a, b - a, z3.IntVal(0)),
                               lambda e, k: S(a + k, INT), None)
            if st == -1:
                a, b = self.int_term(lo), self.int_term(hi)
                return SeqView(lambda e: z3.If(a >= b, a - b, z3.IntVal(0)),
                               lambda e, k: S(a - k, INT), None)
        if isinstance(v, Enumerate):
            it = eng.force(v.it)
            if isinstance(it, GenVal):
                raise Unsupported('enumerate of a generator')
            s = self.iter_symbolic(it)
            if s is None:
                return None
            st = v.start
            r = SeqView(s._length,
                        lambda e, k: (S(k + self.int_term(st), INT),
                                      s._item(e, k)), s.value)
            r.reversed = getattr(s, 'reversed', False)
            return r
        if isinstance(v, Rev):
            s = self.iter_symbolic(eng.force(v.it))
            if s is None or s._length is None:
                return None
            r = SeqView(s._length,
                        lambda e, k: s._item(e, s._length(e) - 1 - k), s.value)
            r.reversed = True
            return r
        if isinstance(v, Zip):
            subs = []
            for i in v.its:
                i = eng.force(i)
                c = self.iter_concrete(i)
                if c is not None:
                    i = SList(items=list(c))
                    t = typeof(i)
                    i = SList(z=to_term(i, t, eng), elem=t.elem)
                s = self.iter_symbolic(i)
                if s is None or s._length is None:
                    return None
                subs.append(s)

            def length(e):
                r = subs[0]._length(e)
                for s in subs[1:]:
                    q = s._length(e)
                    r = z3.If(q < r, q, r)
                return r
            return SeqView(length,
                           lambda e, k: tuple(s._item(e, k) for s in subs), None)
        if isinstance(v, GenExp):
            gen = v.node.generators[0]
            if len(v.node.generators) > 1:
                return None

            def run(on_yield):
                it = eng.ev(gen.iter, v.frame)

                def body(x):
                    fr = self.comp_frame(v.frame)
                    eng.assign(gen.target, x, fr)
                    if all(eng.truth(eng.ev(c, fr)) for c in gen.ifs):
                        on_yield(eng.ev(v.node.elt, fr))
                eng.iterate(it, body, v.frame, v.node)
            return GenVal(run)
        cls = self.class_of_user(v)
        if cls is not None:
            m = class_lookup(cls, '__iter__')
            if m is not MISSING:
                r = eng.call(m, [v])
                if isinstance(r, (GenVal, SeqView)):
                    return r
                c = self.iter_concrete(r)
                if c is not None:
                    def run2(on_yield):
                        for x in c:
                            on_yield(x)
                    return GenVal(run2)
                return self.iter_symbolic(r)
        h = self.eng.env.get('iter')
        if h is not None:
            r = h(self.eng, v)
            return self.iter_symbolic(r) if isinstance(r, SList) else r
        return None

    def unpack(self, v, n):
        eng = self.eng
        v = eng.force(v)
        items = self.iter_concrete(v)
        if items is not None:
            items = list(items)
            if len(items) != n:
                raise PyExc(ValueError('unpack'))
            return items
        if isinstance(v, SList):
            if not eng.branch(z3.Length(v.z) == n):
                raise PyExc(ValueError('unpack'))
            return [self.list_item(v, z3.IntVal(i)) for i in range(n)]
        if isinstance(v, Sym) and v.t in STRLIKE:
            if not eng.branch(z3.Length(v.z) == n):
                raise PyExc(ValueError('unpack'))
            return [S(z3.SubString(v.z, i, 1), CHAR) for i in range(n)]
        if v is None or typeof(v) in INTLIKE:
            raise PyExc(TypeError('cannot unpack'))
        raise Unsupported('unpack %r' % (v,))

    # --------------------------------------------------------- spec functions

    def apply_spec(self, fn, args):
        eng = self.eng
        terms = [to_term(eng.force(a) if not isinstance(t, UnionT) else a, t, eng)
                 for a, t in zip(args, fn.argtypes)]
        if all(is_native(a) for a in args) and getattr(fn, 'py', None) is not None \
                and getattr(fn, 'native_ok', False):
            return fn.py(*args)
        return from_term(fn.decl(*terms), fn.rettype, eng)

    # ------------------------------------------------------------ conversion

    def to_str(self, v):
        eng = self.eng
        v = eng.force(v)
        if isinstance(v, str):
            return v
        if isinstance(v, Sym):
            if v.t in STRLIKE:
                return S(v.z, STR)
            if v.t in INTLIKE:
                return Sym(STR_OF(v.z), STR)
        cls = self.class_of_user(v)
        if cls is not None:
            m = class_lookup(cls, '__str__')
            if m is not MISSING and m is not object.__str__:
                return eng.call(m, [v])
            m = class_lookup(cls, '__repr__')
            if m is not MISSING and m is not object.__repr__:
                return eng.call(m, [v])
            raise Unsupported('str of object')
        if is_native(v):
            return str(v)
        if isinstance(v, SObj) and issubclass(v.cls, BaseException):
            return eng.fresh(STR, 'excstr')
        raise Unsupported('str(%r)' % (v,))

    def to_repr(self, v):
        eng = self.eng
        v = eng.force(v)
        if is_native(v):
            return repr(v)
        if isinstance(v, Sym) and v.t in STRLIKE:
            return Sym(REPR(v.z), STR)
        if isinstance(v, Sym) and v.t in INTLIKE:
            return Sym(STR_OF(v.z), STR)
        if isinstance(v, Sym) and v.t == BYTES:
            r = z3.Function('repr_of_bytes', BYTES.sort(),
                            z3.StringSort())(v.z)
            eng.define(z3.PrefixOf(zstr('b'), r))
            return Sym(r, STR)
        cls = self.class_of_user(v)
        if cls is not None:
            m = class_lookup(cls, '__repr__')
            if m is not MISSING and m is not object.__repr__:
                return eng.call(m, [v])
        raise Unsupported('repr(%r)' % (v,))

    def to_int(self, v, base=10):
        eng = self.eng
        v = eng.force(v)
        if base != 10:
            raise Unsupported('int base')
        if is_native(v):
            try:
                return int(v)
            except Exception as e:
                raise PyExc(e)
        if isinstance(v, Sym):
            if v.t in INTLIKE:
                return v
            if v.t == BOOL:
                return S(self.int_term(v), INT)
            if v.t in STRLIKE:
                if not eng.branch(IS_INT(v.z)):
                    raise PyExc(ValueError('invalid literal for int()'))
                return Sym(INT_OF(v.z), INT)
        cls = self.class_of_user(v)
        if cls is not None:
            m = class_lookup(cls, '__int__')
            if m is not MISSING:
                return eng.call(m, [v])
        raise PyExc(TypeError('int() argument'))

    # ---------------------------------------------------------------- length

    def length(self, v):
        eng = self.eng
        v = eng.force(v)
        if isinstance(v, Sym) and v.t in (STR, BYTES):
            return S(self.view(v, v.t)[2], INT)
        if isinstance(v, Sym) and v.t == CHAR:
            return 1
        if isinstance(v, SList):
            return len(v.items) if v.concrete else S(z3.Length(v.z), INT)
        if isinstance(v, (SDict, SSet)):
            if v.concrete:
                return len(v.items)
            if isinstance(v, SSet) and v.z is not None:
                n = self.set_functions(v.elem)['card'](v.z)
                self.eng.define(n >= 0)
                return S(n, INT)
            raise Unsupported('len of symbolic dict/set')
        if isinstance(v, (str, tuple, list, dict, set, frozenset, bytes)):
            return len(v)
        cls = self.class_of_user(v)
        if cls is not None:
            m = class_lookup(cls, '__len__')
            if m is not MISSING:
                return eng.call(m, [v])
        raise PyExc(TypeError('object has no len()'))

    # ------------------------------------------------------------- isinstance

    def pyclass(self, v):
        v = self.eng.force(v)
        if isinstance(v, Sym):
            t = v.t
            if t in STRLIKE:
                return str
            if t in INTLIKE:
                return int
            if t == BOOL:
                return bool
            if t == BYTES:
                return bytes
            if isinstance(t, ObjT):
                return t.cls
            raise Unsupported('class of %s' % t)
        if isinstance(v, SObj):
            return v.cls
        if isinstance(v, SList):
            return v.cls
        if isinstance(v, SDict):
            return collections.defaultdict if v.default else dict
        if isinstance(v, SSet):
            return set
        if isinstance(v, FuncVal):
            return types.FunctionType
        if isinstance(v, Bound):
            return types.MethodType
        if isinstance(v, SMatch):
            return re.Match
        if isinstance(v, SliceVal):
            return slice
        return type(v)

    def isinstance_(self, v, cls):
        if isinstance(v, Sym) and isinstance(v.t, UnionT):
            # no fork: a boolean over the alternatives
            terms = []
            for a in v.t.alts:
                if a == UNBOUND:
                    continue
                c = {NONE: type(None), INT: int, BYTE: int, BOOL: bool, STR: str,
                     CHAR: str, BYTES: bytes}.get(a)
                if c is None:
                    if isinstance(a, ObjT):
                        c = a.cls
                    elif isinstance(a, SeqT):
                        c = list
                    elif isinstance(a, TupT):
                        c = tuple
                    elif isinstance(a, DictT):
                        c = dict
                    else:
                        raise Unsupported('isinstance of %s' % a)
                if issubclass(c, self.clsarg(cls)):
                    terms.append(v.t.tester(v.z, a))
            if len(terms) == len(v.t.alts):
                return True
            return self.bval(self.disj(terms))
        embedded = self.eng.env.get('embedded')
        if embedded is not None and isinstance(v, Sym) and v.t in (STR, CHAR):
            # text in which some letters stand for embedded objects
            opaque, test = embedded
            cls = self.clsarg(cls)
            yes, no = issubclass(opaque, cls), issubclass(str, cls)
            if yes == no:
                return yes
            is_one = self.eng.models.apply_spec(test, [v])
            return is_one if yes else self.eng.not_(is_one)
        kinds = getattr(self.class_of_user(v), 'KINDS', None)
        if kinds is not None:
            # one of several classes: field `kind` tells which
            k = self.int_term(self.eng.getattr(v, 'kind'))
            return self.bval(self.disj([
                k == i for c, i in sorted(kinds.items(), key=lambda x: x[1])
                if issubclass(c, self.clsarg(cls))]))
        return issubclass(self.pyclass(v), self.clsarg(cls))

    def clsarg(self, c):
        if isinstance(c, SList):
            raise PyExc(TypeError('isinstance() arg 2'))
        if isinstance(c, tuple):
            return tuple(self.clsarg(i) for i in c)
        if not isinstance(c, type):
            raise PyExc(TypeError('isinstance() arg 2'))
        return c

    # ----------------------------------------------------------- construction

    def construct(self, cls, args, kwargs):
        eng = self.eng
        h = eng.env.get(('new', cls))
        if h is not None:
            return h(eng, *args, **kwargs)
        if cls is type and len(args) == 1:
            return self.pyclass(args[0])
        if cls is str:
            if not args:
                return ''
            if len(args) > 1 or kwargs:
                return self.call_method(args[0], 'decode', args[1:], kwargs)
            return self.to_str(args[0])
        if cls is int:
            return self.to_int(*args, **kwargs) if args else 0
        if cls is bool:
            return self.bval(self.as_bool_term(args[0])) if args else False
        if cls is bytes:
            return self.to_bytes(args, kwargs)
        if cls in (list, tuple):
            if not args:
                return eng.mklist([]) if cls is list else ()
            return self.to_seq(args[0], cls)
        if cls in (set, frozenset):
            if not args:
                s = SSet(items=set())
                s.birth = eng.birth()
                return s
            v = eng.force(args[0])
            if isinstance(v, Sym) and v.t in STRLIKE:
                s = SSet(chars=v)
            elif isinstance(v, SSet):
                s = SSet(items=None if v.items is None else set(v.items), z=v.z,
                         elem=v.elem, chars=v.chars, filt=v.filt)
            else:
                items = self.iter_concrete(v)
                if items is None and isinstance(v, GenExp):
                    v = self.listcomp(v.node, v.frame)
                if items is None and isinstance(v, SList) and v.elem in (
                        INT, BYTE, STR):
                    s = self.set_of_list(v)
                elif items is None or not is_native(tuple(items)):
                    raise Unsupported('set of symbolic items')
                else:
                    s = SSet(items=set(items))
            s.birth = eng.birth()
            return s
        if cls in (dict, collections.OrderedDict):
            d = SDict(items=dict(kwargs))
            d.birth = eng.birth()
            if args:
                v = eng.force(args[0])
                if isinstance(v, (SDict, dict)):
                    v = self.sdict(v)
                    if v.concrete:
                        d.items = dict(v.items, **kwargs)
                    elif not kwargs:
                        d.items, d.z, d.t = None, v.z, v.t
                    else:
                        raise Unsupported('dict()')
                else:
                    for x in self.iter_concrete(v):
                        k, y = self.unpack(x, 2)
                        self.dict_set(d, k, y)
            return d
        if cls is collections.defaultdict:
            d = SDict(items={}, default=args[0] if args else None)
            d.birth = eng.birth()
            return d
        if cls is enumerate:
            return Enumerate(args[0], args[1] if len(args) > 1
                             else kwargs.get('start', 0))
        if cls is range:
            a = [eng.force(x) for x in args]
            for x in a:
                if typeof(x) not in INTLIKE + (BOOL,):
                    raise PyExc(TypeError('range'))
            if len(a) == 1:
                return RangeVal(0, a[0], 1)
            return RangeVal(a[0], a[1], a[2] if len(a) > 2 else 1)
        if cls is reversed:
            return Rev(args[0])
        if cls is zip:
            return Zip(args)
        if cls is map:
            fn = args[0]
            its = self.iter_concrete(eng.force(args[1]))
            if its is None:
                raise Unsupported('map over symbolic')
            return eng.mklist([eng.call(fn, [x]) for x in its])
        if cls is filter:
            its = self.iter_concrete(eng.force(args[1]))
            if its is None:
                fn = args[0]
                fr = Frame_of(eng, fn=fn, it=args[1])
                src = eng.force(args[1])
                if fn is None or not isinstance(src, SList):
                    raise Unsupported('filter over symbolic')
                return self.symcomp(FILTER, FILTER.generators[0], src, fr)
            return eng.mklist([x for x in its if eng.truth(
                x if args[0] is None else eng.call(args[0], [x]))])
        if cls is object:
            o = SObj(object)
            o.birth = eng.birth()
            return o
        if cls is slice:
            return SliceVal(*([None] * (1 if len(args) == 1 else 0) + list(args) +
                              [None] * (3 - max(len(args), 2))))
        if isinstance(cls, type) and issubclass(cls, BaseException):
            o = SObj(cls, {'args': tuple(args)})
            o.birth = eng.birth()
            init = class_lookup(cls, '__init__')
            if isinstance(init, types.FunctionType):
                eng.call(init, [o] + list(args), kwargs)
            return o
        mh = eng.env.get('construct')
        if mh is not None:
            r = mh(eng, cls, args, kwargs)
            if r is not NotImplemented:
                return r
        if (cls.__module__ or '').split('.')[0] in ('asterisklint', 'contracts'):
            return self.new_object(cls, args, kwargs)
        if all(is_native(a) for a in args) and all(
                is_native(a) for a in kwargs.values()):
            raise Unsupported('construct %r' % (cls,))
        raise Unsupported('construct %r' % (cls,))

    def new_object(self, cls, args, kwargs):
        eng = self.eng
        if cls.__mro__[1] is tuple or issubclass(cls, tuple):
            raise Unsupported('namedtuple')
        meta_call = type(cls)
        if meta_call is not type:
            m = class_lookup(meta_call, '__call__')
            if isinstance(m, types.FunctionType):
                return eng.call(m, [cls] + list(args), kwargs)
        new = class_lookup(cls, '__new__')
        if isinstance(new, staticmethod):
            o = eng.call(new.__func__, [cls] + list(args), kwargs)
            if not (isinstance(o, SObj) and issubclass(o.cls, cls)):
                return o
        else:
            o = SObj(cls)
            o.birth = eng.birth()
        init = class_lookup(cls, '__init__')
        if init is not MISSING and isinstance(init, (types.FunctionType, FuncVal)):
            eng.call(init, [o] + list(args), kwargs)
        elif args or kwargs:
            raise PyExc(TypeError('%s() takes no arguments' % cls.__name__))
        return o

    def to_seq(self, v, cls):
        eng = self.eng
        v = eng.force(v)
        items = self.iter_concrete(v)
        if items is not None:
            return eng.mklist(items) if cls is list else tuple(items)
        if isinstance(v, SList):
            if cls is tuple and eng.sub is None:
                for n in range(5):
                    if eng.entails(z3.Length(v.z) == n):
                        return tuple(self.list_item(v, z3.IntVal(i))
                                     for i in range(n))
            return self.copy_list(v, cls)
        if isinstance(v, Sym) and v.t == BYTES:
            r = SList(z=v.z, elem=BYTE, cls=cls)
            r.birth = eng.birth()
            return r
        if isinstance(v, GenExp) and len(v.node.generators) == 1:
            src = eng.force(eng.ev(v.node.generators[0].iter, v.frame))
            if isinstance(src, SList) or isinstance(src, SSet) and \
                    src.z is not None:
                n = len(COMPS)
                try:
                    r = self.symcomp(v.node, v.node.generators[0], src,
                                     v.frame)
                except Unsupported:
                    del COMPS[n:]
                else:
                    if not isinstance(r, SList) or cls is list:
                        return r
                    return self.copy_list(r, cls)
        if isinstance(v, (GenVal, GenExp)):
            l = eng.mklist([])
            eng.iterate(v, lambda x: self.list_append(l, x), eng.frame,
                        v.node if isinstance(v, GenExp) else None)
            return l
        if cls is list and (isinstance(v, (RangeVal, SSet)) or
                            isinstance(v, Sym) and v.t in STRLIKE):
            r = self.to_slist(v)
            r.birth = eng.birth()
            return r
        if isinstance(v, (SObj,)) or isinstance(v, Sym) and isinstance(v.t, ObjT):
            s = self.iter_symbolic(v)
            if isinstance(s, GenVal):
                return self.to_seq(s, cls)
        if v is None or (not isinstance(v, (SObj, Sym)) and isinstance(v, int)):
            raise PyExc(TypeError('not iterable'))
        raise Unsupported('list(%r)' % (v,))

    def copy_list(self, v, cls):
        r = SList(z=v.z, elem=v.elem, cls=cls)
        for a in ('comp', 'made'):
            if getattr(v, a, None) is not None:
                setattr(r, a, getattr(v, a))
        r.birth = self.eng.birth()
        return r

    def to_bytes(self, args, kwargs):
        eng = self.eng
        if not args:
            return b''
        v = eng.force(args[0])
        if isinstance(v, str) or isinstance(v, Sym) and v.t in STRLIKE:
            return self.call_method(v, 'encode', list(args[1:]), kwargs)
        if isinstance(v, (SList, tuple, list)):
            items = self.iter_concrete(v)
            if items is not None and is_native(tuple(items)):
                try:
                    return bytes(items)
                except Exception as e:
                    raise PyExc(e)
            t = BYTES
            if items is not None:
                for i in items:
                    z = self.int_term(i)
                    if not eng.branch(z3.And(z >= 0, z <= 255)):
                        raise PyExc(ValueError('bytes must be in range(0, 256)'))
                return S(zseq([self.int_term(i) for i in items], BYTES.sort()), BYTES)
            if v.elem == BYTE:
                return Sym(v.z, BYTES)
        raise Unsupported('bytes(%r)' % (v,))

    # ----------------------------------------------------- attributes of values

    def getattr_value(self, obj, name):
        if isinstance(obj, (Sym, SList, SDict, SSet, str, bytes, tuple, list, dict,
                            set, frozenset, re.Pattern, SMatch, SliceVal)):
            cls = self.pyclass(obj) if not isinstance(obj, SliceVal) else slice
            if isinstance(obj, SliceVal):
                return {'start': obj.lo, 'stop': obj.hi, 'step': obj.st}[name]
            if name == '__class__':
                return cls
            if isinstance(obj, SList) and cls not in (list, tuple):
                v = class_lookup(cls, name)
                if isinstance(v, types.FunctionType):
                    return self.eng.bind_attr(v, obj, cls, name)
            if not hasattr(cls, name):
                raise PyExc(AttributeError(name), name)
            return Method(obj, name)
        if obj is None or isinstance(obj, (int, float)):
            if not hasattr(obj, name):
                raise PyExc(AttributeError(name), name)
            return Method(obj, name)
        if isinstance(obj, (FuncVal,)):
            if name == '__name__':
                return obj.name.split('.')[-1]
            raise PyExc(AttributeError(name))
        if isinstance(obj, Bound):
            if name == '__func__':
                return obj.func
            if name == '__self__':
                return obj.self_
            return self.eng.getattr(obj.func, name)
        if isinstance(obj, (Filtered, GenVal, Stream, Enumerate, RangeVal, Rev, Zip,
                            GenExp)):
            raise Unsupported('attribute %s of %r' % (name, obj))
        h = self.eng.env.get(('attr', type(obj), name))
        if h is not None:
            return h(self.eng, obj)
        try:
            return getattr(obj, name)
        except AttributeError as e:
            raise PyExc(AttributeError(name), name)

    # --------------------------------------------------------------- methods

    def call_method(self, obj, name, args, kwargs):
        eng = self.eng
        obj = eng.force(obj)
        args = [eng.force(a) for a in args]
        if isinstance(obj, str) or isinstance(obj, Sym) and obj.t in STRLIKE:
            return self.str_method(obj, name, args, kwargs)
        if isinstance(obj, bytes) or isinstance(obj, Sym) and obj.t == BYTES:
            return self.bytes_method(obj, name, args, kwargs)
        if isinstance(obj, SList):
            return self.list_method(obj, name, args, kwargs)
        if isinstance(obj, SDict):
            return self.dict_method(obj, name, args, kwargs)
        if isinstance(obj, dict):
            if name in ('get', 'items', 'keys', 'values', '__contains__', 'copy'):
                return self.dict_method(self.sdict(obj), name, args, kwargs)
        if isinstance(obj, SSet):
            return self.set_method(obj, name, args)
        if isinstance(obj, (set, frozenset)) and name in ('union', 'intersection',
                                                          'difference', 'copy'):
            return self.set_method(self.sset(obj), name, args)
        if isinstance(obj, (tuple, list)):
            if name == 'index':
                for k, x in enumerate(obj):
                    if eng.truth(self.eq(x, args[0])):
                        return k
                raise PyExc(ValueError('not in tuple'))
            if name == 'count':
                n = 0
                for x in obj:
                    if eng.truth(self.eq(x, args[0])):
                        n += 1
                return n
        if isinstance(obj, re.Pattern):
            return self.regex_method(obj, name, args, kwargs)
        if isinstance(obj, SMatch):
            return self.match_method(obj, name, args)
        if is_native(obj) and all(is_native(a) for a in args):
            try:
                return getattr(obj, name)(*args, **kwargs)
            except Exception as e:
                raise PyExc(e)
        raise Unsupported('method %s of %r' % (name, obj))

    def str_method(self, s, name, args, kwargs):
        eng = self.eng
        if isinstance(s, str) and all(is_native(a) for a in args) and \
                all(is_native(a) for a in kwargs.values()) and name != 'join':
            try:
                r = getattr(s, name)(*args, **kwargs)
            except Exception as e:
                raise PyExc(e)
            return eng.mklist(r) if isinstance(r, list) else r
        z = to_term(s, STR)
        n = z3.Length(z)
        if name in ('startswith', 'endswith'):
            f = z3.PrefixOf if name == 'startswith' else z3.SuffixOf
            if len(args) > 1:
                raise Unsupported('startswith offsets')
            pats = args[0] if isinstance(args[0], tuple) else (args[0],)
            if isinstance(args[0], SList) and args[0].cls is tuple:
                node = ANY_START if name == 'startswith' else ANY_END
                return self.any_all(any, GenExp(node, Frame_of(
                    eng, it=args[0], text=s)))
            for p in pats:
                if typeof(p) not in STRLIKE:
                    raise PyExc(TypeError(name))
            return self.bval(self.disj([f(to_term(p, STR), z) for p in pats]))
        if name in ('find', 'index'):
            if len(args) > 2:
                raise Unsupported('find with end')
            if typeof(args[0]) not in STRLIKE:
                raise PyExc(TypeError('find'))
            st = args[1] if len(args) > 1 else 0
            start = self.clamp(st, n, z3.IntVal(0))
            if len(args) == 1:
                got = self.locate(z, args[0])
                if got:
                    return S(z3.simplify(z3.Length(got[0])), INT)
                if got == () and name == 'find':
                    return -1
            r = z3.IndexOf(z, to_term(args[0], STR), start)
            if name == 'find':
                return S(r, INT)
            if not eng.branch(r >= 0):
                raise PyExc(ValueError('substring not found'))
            return S(r, INT)
        if name in ('rfind', 'rindex'):
            if len(args) > 1:
                raise Unsupported('rfind offsets')
            got = self.locate(z, args[0], last=True)
            if got:
                return S(z3.simplify(z3.Length(got[0])), INT)
            if got == () and name == 'rfind':
                return -1
            r = z3.LastIndexOf(z, to_term(args[0], STR))
            if name == 'rfind':
                return S(r, INT)
            if not eng.branch(r >= 0):
                raise PyExc(ValueError('substring not found'))
            return S(r, INT)
        if name in ('strip', 'lstrip', 'rstrip'):
            chars = args[0] if args and args[0] is not None else PY_SPACE
            if not isinstance(chars, str):
                raise Unsupported('strip of symbolic characters')
            r = z
            if not chars:
                return S(z, STR)
            if name in ('strip', 'rstrip'):
                r = strip_term('r', chars, r)
            if name in ('strip', 'lstrip'):
                r = strip_term('l', chars, r)
            return Sym(r, STR)
        if name in ('split', 'rsplit'):
            return self.str_split(s, name, args, kwargs)
        if name in ('partition', 'rpartition'):
            sep = to_term(args[0], STR)
            got = self.locate(z, args[0], last=name == 'rpartition')
            if got:
                return (S(got[0], STR), args[0], S(got[1], STR))
            if got == ():
                return (s, '', '') if name == 'partition' else ('', '', s)
            i = z3.IndexOf(z, sep, 0) if name == 'partition' else \
                z3.LastIndexOf(z, sep)
            if eng.branch(i >= 0):
                m = z3.Length(sep)
                return (S(z3.SubString(z, 0, i), STR), args[0],
                        S(z3.SubString(z, i + m, n - i - m), STR))
            return (s, '', '') if name == 'partition' else ('', '', s)
        if name == 'join':
            return self.str_join(s, args[0])
        if name in ('lower', 'upper'):
            return Sym((LOWER if name == 'lower' else UPPER)(z), STR)
        if name in ('isdigit', 'isdecimal', 'isalnum', 'isalpha', 'isspace',
                    'isupper', 'islower', 'isnumeric', 'isidentifier', 'isprintable'):
            if name == 'isdecimal':
                return self.bval(z3.InRe(z, z3.Plus(RE_DECIMAL)))
            if name == 'isspace':
                return self.bval(z3.InRe(z, z3.Plus(set_re(PY_SPACE))))
            if name in ('isdigit', 'isalpha', 'isalnum', 'isnumeric'):
                chars = ''.join(chr(i) for i in range(0x30000)
                                if getattr(chr(i), name)())
                return self.bval(z3.InRe(z, z3.Plus(set_re(chars))))
            raise Unsupported(name)
        if name == 'replace':
            return self.str_replace(s, args)
        if name == 'encode':
            enc = norm_enc(args[0] if args else kwargs.get('encoding', 'utf8'))
            err = args[1] if len(args) > 1 else kwargs.get('errors', 'strict')
            if not eng.branch(codec_ok('enc', enc, err)(z)):
                raise PyExc(UnicodeEncodeError(enc, '', 0, 0, '?'))
            return Sym(codec_fn('enc', enc, err)(z), BYTES)
        if name == 'format':
            return self.str_format(s, args, kwargs)
        if name == 'count' and len(args) == 1:
            return self.apply_spec(self.count_fn(), [s, args[0]])
        if name == '__contains__':
            return self.contains(s, args[0])
        if name == 'ljust' or name == 'rjust':
            raise Unsupported(name)
        raise Unsupported('str.%s' % name)

    def count_fn(self):
        raise Unsupported('str.count')

    def str_replace(self, s, args):
        if isinstance(args[0], str) and isinstance(args[1], str) and args[0]:
            f = replace_fn(args[0], args[1])
            return from_term(f.decl(to_term(s, STR)), STR)
        raise Unsupported('replace')

    def str_format(self, s, args, kwargs):
        if not isinstance(s, str):
            raise Unsupported('symbolic format')
        import string
        out = []
        auto = 0
        for lit, field, spec, conv in string.Formatter().parse(s):
            out.append(lit)
            if field is None:
                continue
            if spec:
                raise Unsupported('format spec')
            if field == '':
                field = str(auto)
                auto += 1
            m = re.match(r'^(\w+)((?:\.\w+)*)$', field)
            if not m:
                raise Unsupported('format field')
            base = m.group(1)
            try:
                v = args[int(base)] if base.isdigit() else kwargs[base]
            except IndexError as e:
                raise PyExc(e)
            except KeyError as e:
                raise PyExc(e)
            for a in m.group(2).split('.')[1:]:
                v = self.eng.getattr(v, a)
            out.append(self.to_repr(v) if conv == 'r' else self.to_str(v))
        return self.concat(out)

    def str_split(self, s, name, args, kwargs):
        eng = self.eng
        z = to_term(s, STR)
        n = z3.Length(z)
        sep = args[0] if args else kwargs.get('sep')
        mx = args[1] if len(args) > 1 else kwargs.get('maxsplit', -1)
        if sep is None:
            raise Unsupported('split on whitespace')
        zs = to_term(sep, STR)
        m = z3.Length(zs)
        if isinstance(mx, int) and 0 <= mx <= 4:
            parts = []
            rest, zr = s, z
            for _ in range(mx):
                got = self.locate(zr, sep, last=name == 'rsplit')
                if got == ():
                    break
                if got:
                    if name == 'split':
                        parts.append(S(got[0], STR))
                        zr = got[1]
                    else:
                        parts.insert(0, S(got[1], STR))
                        zr = got[0]
                    continue
                i = z3.IndexOf(zr, zs, 0) if name == 'split' else \
                    z3.LastIndexOf(zr, zs)
                if not eng.branch(i >= 0):
                    break
                ln = z3.Length(zr)
                if name == 'split':
                    parts.append(S(z3.SubString(zr, 0, i), STR))
                    zr = z3.simplify(z3.SubString(zr, i + m, ln - i - m))
                else:
                    parts.insert(0, S(z3.SubString(zr, i + m, ln - i - m), STR))
                    zr = z3.simplify(z3.SubString(zr, 0, i))
            last = S(zr, STR)
            return eng.mklist(parts + [last] if name == 'split' else [last] + parts)
        if mx == -1 and isinstance(sep, str):
            f = split_fn(sep)
            parts, zr = [], z
            while len(sep) == 1:
                got = self.locate(zr, sep)
                if got is None:
                    break
                if got == ():
                    return eng.mklist(parts + [S(zr, STR)])
                parts.append(S(got[0], STR))
                zr = got[1]
            if parts:
                return self.list_add(eng.mklist(parts), from_term(
                    f.decl(zr), SeqT(STR), eng))
            return from_term(f.decl(z), SeqT(STR), eng)
        raise Unsupported('split')

    def str_join(self, sep, it):
        eng = self.eng
        it = eng.force(it)
        items = self.iter_concrete(it)
        if items is not None:
            out = []
            for i, x in enumerate(items):
                if typeof(eng.force(x)) not in STRLIKE:
                    raise PyExc(TypeError('sequence item: expected str instance'))
                if i:
                    out.append(sep)
                out.append(eng.force(x))
            return self.concat(out)
        if isinstance(it, (GenExp, GenVal)):
            it = self.to_seq(it, list)
            if it.concrete:
                return self.str_join(sep, it)
        if isinstance(it, SList) and it.elem in STRLIKE and isinstance(sep, str):
            f = join_fn(sep)
            parts = seq_parts(it.z) if sep == '' else [it.z]
            if len(parts) > 1:
                # one after the other
                return self.concat([
                    Sym(p.arg(0), STR)
                    if p.decl().kind() == z3.Z3_OP_SEQ_UNIT
                    else Sym(f.decl(p), STR) for p in parts])
            return Sym(f.decl(it.z), STR)
        if isinstance(it, Sym) and it.t in STRLIKE and sep == '':
            return it
        raise Unsupported('join')

    def bytes_method(self, b, name, args, kwargs):
        eng = self.eng
        if isinstance(b, bytes) and all(is_native(a) for a in args):
            try:
                return getattr(b, name)(*args, **kwargs)
            except Exception as e:
                raise PyExc(e)
        z = to_term(b, BYTES)
        if name == 'decode':
            enc = norm_enc(args[0] if args else kwargs.get('encoding', 'utf8'))
            err = args[1] if len(args) > 1 else kwargs.get('errors', 'strict')
            if ('dec', enc, err) not in TOTAL_CODECS:
                if not eng.branch(codec_ok('dec', enc, err)(z)):
                    raise PyExc(UnicodeDecodeError(enc, b'', 0, 0, '?'))
            return Sym(codec_fn('dec', enc, err)(z), STR)
        if name in ('startswith', 'endswith') and len(args) == 1:
            f = z3.PrefixOf if name == 'startswith' else z3.SuffixOf
            return self.bval(f(to_term(args[0], BYTES), z))
        raise Unsupported('bytes.%s' % name)

    def list_method(self, l, name, args, kwargs):
        eng = self.eng
        if name == '__getitem__' and not kwargs:
            return self.getitem(l, *args)
        if name == 'append':
            self.list_append(l, args[0])
            self.write_back(l)
            return None
        if name == 'extend':
            self.list_extend(l, args[0])
            self.write_back(l)
            return None
        if name == 'pop':
            eng.note_write(l)
            i = args[0] if args else -1
            if l.concrete and isinstance(i, int):
                try:
                    return l.items.pop(i)
                except IndexError as e:
                    raise PyExc(e)
            n = z3.Length(l.z)
            if i == -1:
                if not eng.branch(n > 0):
                    raise PyExc(IndexError('pop from empty list'))
                v = self.list_item(l, n - 1)
                l.z = z3.Extract(l.z, 0, n - 1)
            elif i == 0:
                if not eng.branch(n > 0):
                    raise PyExc(IndexError('pop from empty list'))
                v = self.list_item(l, z3.IntVal(0))
                l.z = z3.Extract(l.z, 1, n - 1)
            else:
                raise Unsupported('pop(i)')
            if isinstance(v, (SList, SDict)):
                v.parent = None
            l.version += 1
            self.write_back(l)
            return v
        if name == 'insert':
            self.setslice(l, args[0], args[0], eng.mklist([args[1]]))
            return None
        if name == 'index':
            if l.concrete:
                for k, x in enumerate(l.items):
                    if eng.truth(self.eq(x, args[0])):
                        return k
                raise PyExc(ValueError('not in list'))
            r = z3.IndexOf(l.z, z3.Unit(to_term(args[0], l.elem, eng)), 0)
            if not eng.branch(r >= 0):
                raise PyExc(ValueError('not in list'))
            return S(r, INT)
        if name == 'copy':
            r = SList(items=None if l.items is None else list(l.items), z=l.z,
                      elem=l.elem)
            r.birth = eng.birth()
            return r
        if name == 'reverse' and l.concrete:
            eng.note_write(l)
            l.items.reverse()
            return None
        if name == 'clear':
            eng.note_write(l)
            l.items, l.z, l.elem = [], None, None
            return None
        if name == 'sort' and l.concrete and is_native(tuple(l.items)) and not kwargs:
            eng.note_write(l)
            l.items.sort()
            return None
        if name == 'sort' and not l.concrete and not kwargs:
            eng.note_write(l)
            l.z = self.list_sort(l)
            l.version += 1
            self.write_back(l)
            return None
        if name == 'sort' and not l.concrete and list(kwargs) == ['key']:
            # by a key that has a specification: a function of key and list
            key = kwargs['key']
            key = getattr(eng.env.get(('key', key), key), '__specfn__', None)
            if key is None:
                raise Unsupported('sort by %r' % (kwargs['key'],))
            eng.note_write(l)
            s = l.z.sort()
            z = z3.Function('sorted_by_%s_%s' % (key.name, s), s, s)(l.z)
            eng.define(z3.Length(z) == z3.Length(l.z))
            l.z = z
            l.version += 1
            self.write_back(l)
            return None
        if name == 'remove' and l.concrete:
            eng.note_write(l)
            for k, x in enumerate(l.items):
                if eng.truth(self.eq(x, args[0])):
                    del l.items[k]
                    return None
            raise PyExc(ValueError('list.remove(x): x not in list'))
        if name == 'remove':
            x = to_term(args[0], l.elem, eng)
            parts = flat_concat(l.z)
            for k, part in enumerate(parts):
                if part.decl().kind() == z3.Z3_OP_SEQ_UNIT:
                    if eng.entails(part.arg(0) == x):
                        eng.note_write(l)
                        rest = parts[:k] + parts[k + 1:]
                        l.z = z3.Concat(*rest) if len(rest) > 1 else \
                            rest[0] if rest else z3.Empty(l.z.sort())
                        l.version += 1
                        self.write_back(l)
                        return None
                    if not eng.entails(part.arg(0) != x):
                        break
                elif not eng.entails(z3.Not(z3.Contains(part, z3.Unit(x)))):
                    break
            i = z3.IndexOf(l.z, z3.Unit(x), 0)
            if not eng.branch(i >= 0):
                raise PyExc(ValueError('list.remove(x): x not in list'))
            eng.note_write(l)
            n = z3.Length(l.z)
            l.z = z3.Concat(z3.Extract(l.z, 0, i),
                            z3.Extract(l.z, i + 1, n - i - 1))
            l.version += 1
            self.write_back(l)
            return None
        if name == 'count' and l.concrete:
            return sum(1 for x in l.items if eng.truth(self.eq(x, args[0])))
        if name in ('__contains__',):
            return self.contains(l, args[0])
        raise Unsupported('list.%s' % name)

    def dict_method(self, d, name, args, kwargs):
        eng = self.eng
        if name == 'get':
            return self.dict_get(d, args[0], args[1] if len(args) > 1 else None)
        if name == 'setdefault':
            if eng.truth(self.contains(d, args[0])):
                return self.dict_get(d, args[0])
            v = args[1] if len(args) > 1 else None
            self.dict_set(d, args[0], v)
            return v
        if name == '__contains__':
            return self.contains(d, args[0])
        if d.concrete:
            keys = [k.v if isinstance(k, _Key) else k for k in d.items]
            if name == 'items':
                return eng.mklist(list(zip(keys, d.items.values())))
            if name == 'keys':
                return eng.mklist(keys)
            if name == 'values':
                return eng.mklist(list(d.items.values()))
            if name == 'copy':
                r = SDict(items=dict(d.items), default=d.default)
                r.birth = eng.birth()
                return r
            if name == 'update':
                eng.note_write(d)
                if args:
                    for k, v in self.sdict(args[0]).items.items():
                        self.dict_set(d, k, v)
                d.items.update(kwargs)
                return None
            if name == 'pop':
                eng.note_write(d)
                if is_native(args[0]) and args[0] in d.items:
                    return d.items.pop(args[0])
                if is_native(args[0]) and len(args) > 1:
                    return args[1]
                raise PyExc(KeyError(args[0]))
        raise Unsupported('dict.%s' % name)

    def set_method(self, s, name, args):
        eng = self.eng
        if name == 'add':
            eng.note_write(s)
            if s.concrete and is_native(args[0]):
                s.items.add(args[0])
                return None
            if s.concrete:
                t = typeof(args[0])
                for i in s.items:
                    t = join(t, typeof(i))
                z = z3.K(t.sort(), z3.BoolVal(False))
                for i in s.items:
                    z = z3.Store(z, to_term(i, t, eng), z3.BoolVal(True))
                s.items, s.z, s.elem = None, z, t
            if s.z is not None:
                s.z = z3.Store(s.z, to_term(args[0], s.elem, eng), z3.BoolVal(True))
                return None
        if name in ('union', 'intersection', 'difference') and args:
            op = {'union': 'or', 'intersection': 'and', 'difference': 'sub'}[name]
            a = args[0]
            if not isinstance(a, (SSet, set, frozenset)):
                a = self.construct(set, [a], {})
            return self.set_op(op, s, a)
        if name == '__contains__':
            return self.contains(s, args[0])
        if name == 'copy':
            return self.construct(set, [s], {})
        if name == 'isdisjoint':
            a = args[0]
            if not isinstance(a, (SSet, set, frozenset)):
                a = self.construct(set, [a], {})
            return eng.not_(self.bval(self.as_bool_term(self.bval(
                self.truth_term(self.set_op('and', s, a))))))
        raise Unsupported('set.%s' % name)

    # ----------------------------------------------------------------- regex

    def regex_method(self, rx, name, args, kwargs):
        eng = self.eng
        s = args[0] if args else None
        if isinstance(s, str) and len(args) == 1 or \
                name in ('sub',) and all(isinstance(a, str) for a in args):
            r = getattr(rx, name)(*args)
            if isinstance(r, list):
                return eng.mklist(r)
            return r
        c = REGEX_CONTRACTS.get(rx.pattern)
        if c is not None:
            return c(eng, s, name)
        if name in ('match', 'fullmatch') and typeof(s) in STRLIKE and not rx.flags & (
                re.I | re.M | re.S | re.X):
            z = to_term(s, STR)
            return self.generic_match(rx, z, name)
        fn = self.eng.env.get((name, rx.pattern))
        if fn is not None:
            return self.apply_spec(fn.__specfn__, args)
        raise Unsupported('regex %s %r' % (name, rx.pattern))

    def generic_match(self, rx, z, name):
        """Only whether it matches; the groups are not available."""
        eng = self.eng
        pat = rx.pattern
        anchored = name == 'fullmatch'
        if pat.startswith('^'):
            pat = pat[1:]
        dollar = False
        if pat.endswith('$') and not pat.endswith('\\$'):
            pat = pat[:-1]
            dollar = True
        r = to_zre(pat)
        if dollar:
            full = z3.Union(r, z3.Concat(r, z3.Re(z3.StringVal('\\u{a}'))))
        elif anchored:
            full = r
        else:
            full = z3.Concat(r, FULL)
        if eng.branch(z3.InRe(z, full)):
            m = SMatch(None)
            m.regex = (rx, z, name)
            return m
        return None

    def match_parts(self, m):
        """The groups of a match, by what the backtracking order implies.

        The subject is cut into one piece per item of the pattern; a repeated
        single character class is as long (or, if lazy, as short) as the rest
        of the pattern permits.  The facts given are necessary, hence sound.
        """
        import re._parser as sp
        rx, z, name = m.regex
        eng = self.eng
        items, groups, opened = [], {}, []

        def walk(seq):
            for op, av in seq:
                if str(op) == 'SUBPATTERN':
                    if av[0] is None or av[1] or av[2]:
                        raise Unsupported('regex group flags')
                    a = len(items)
                    walk(av[3])
                    groups[av[0]] = (a, len(items))
                elif str(op) == 'AT':
                    if str(av) == 'AT_BEGINNING' and not items:
                        continue
                    if str(av) == 'AT_END':
                        items.append(('end', None, None, z3.Option(
                            char_re('\n'))))
                        continue
                    raise Unsupported('regex anchor')
                else:
                    if items and items[-1][0] == 'end':
                        raise Unsupported('regex after $')
                    if str(op) == 'BRANCH':
                        raise Unsupported('groups of alternatives')
                    kind, c = 'one', None
                    if str(op) in ('MAX_REPEAT', 'MIN_REPEAT'):
                        lo, hi, sub = av
                        if len(sub) != 1 or str(sub[0][0]) not in (
                                'IN', 'ANY', 'LITERAL', 'NOT_LITERAL'):
                            raise Unsupported('groups with this repeat')
                        c = _tr(*sub[0])
                        kind = 'max' if str(op) == 'MAX_REPEAT' else 'min'
                        if str(hi) != 'MAXREPEAT':
                            kind = 'one'
                        elif lo == 0:
                            kind += '*'
                    items.append((kind, c, None, _tr(op, av)))
        walk(sp.parse(rx.pattern))
        if not items or items[-1][0] != 'end':
            if name == 'fullmatch':
                raise Unsupported('groups of fullmatch')
            items.append(('rest', None, None, FULL))
        parts = []
        for i, it in enumerate(items):
            p = z3.Const(eng.fresh_name('re%d' % i), z3.StringSort())
            eng.assume(z3.InRe(p, it[3]))
            parts.append(p)
        eng.assume(z == z3.Concat(*parts) if len(parts) > 1 else z == parts[0])
        one = z3.IntVal(1)
        for i, it in enumerate(items[:-1]):
            p, nxt = parts[i], parts[i + 1]
            nk, nc = items[i + 1][0], items[i + 1][1]
            if it[0] in ('min*', 'min') and nk in ('max*', 'min*') \
                    and it[0] == 'min*':
                last = z3.SubString(p, z3.Length(p) - one, one)
                eng.assume(z3.Or(p == zstr(''), z3.Not(z3.InRe(last, nc))))
            if it[0] in ('max*', 'max') and nk in ('max*', 'min*'):
                first = z3.SubString(nxt, z3.IntVal(0), one)
                eng.assume(z3.Or(nxt == zstr(''),
                                 z3.Not(z3.InRe(first, it[1]))))
        m.groups = []
        for g in range(1, (max(groups) if groups else 0) + 1):
            a, b = groups[g]
            if a == b:
                m.groups.append('')
            else:
                m.groups.append(S(z3.Concat(*parts[a:b]) if b > a + 1
                                  else parts[a], STR))
        kept = [p for p, it in zip(parts, items)
                if it[0] not in ('rest', 'end')]
        m.whole = S(z3.Concat(*kept) if len(kept) > 1 else kept[0], STR) \
            if kept else ''
        m.start, m.end = 0, S(z3.Length(to_term(m.whole, STR)), INT)

    def match_method(self, m, name, args):
        if m.groups is None and getattr(m, 'regex', None):
            self.match_parts(m)
        if name == 'groups':
            if m.groups is None:
                raise Unsupported('groups of a generic match')
            return tuple(m.groups)
        if name == 'group':
            if len(args) == 1:
                return self.match_group(m, args[0])
            if not args:
                return self.match_group(m, 0)
        if name == 'end' and m.end is not None and not args:
            return m.end
        if name == 'start' and m.start is not None and not args:
            return m.start
        raise Unsupported('match.%s' % name)

    def match_group(self, m, i):
        if i == 0 and m.whole is not None:
            return m.whole
        if m.groups is None or not isinstance(i, int):
            raise Unsupported('group of a generic match')
        return m.groups[i - 1]

    # -------------------------------------------------------------- built-ins

    def call_builtin(self, fn, args, kwargs):
        eng = self.eng
        if fn is len:
            return self.length(args[0])
        if fn is isinstance:
            return self.isinstance_(args[0], args[1])
        if fn is issubclass:
            return issubclass(*args)
        if fn is getattr:
            try:
                return eng.getattr(args[0], args[1])
            except PyExc as e:
                if len(args) > 2 and issubclass(e.cls, AttributeError):
                    return args[2]
                raise
        if fn is hasattr:
            if not isinstance(args[1], str):
                raise Unsupported('hasattr')
            try:
                eng.getattr(args[0], args[1])
                return True
            except PyExc as e:
                if issubclass(e.cls, AttributeError):
                    return False
                raise
        if fn is setattr:
            return eng.setattr(args[0], args[1], args[2])
        if fn is repr:
            return self.to_repr(args[0])
        if fn is callable:
            v = eng.force(args[0])
            if isinstance(v, SObj):
                return class_lookup(v.cls, '__call__') is not MISSING
            return isinstance(v, (FuncVal, Bound, Method)) or callable(v)
        if fn is ord:
            v = eng.force(args[0])
            if isinstance(v, str):
                return ord(v)
            if not eng.entails(z3.Length(v.z) == 1):
                if not eng.branch(z3.Length(v.z) == 1):
                    raise PyExc(TypeError('ord() expected a character'))
            return S(z3.StrToCode(v.z), INT)
        if fn is chr:
            v = eng.force(args[0])
            if isinstance(v, int):
                try:
                    return chr(v)
                except Exception as e:
                    raise PyExc(e)
            if not eng.branch(z3.And(v.z >= 0, v.z <= 0x2ffff)):
                raise Unsupported('chr range')
            r = Sym(z3.StrFromCode(v.z), CHAR)
            return r
        if fn in (any, all):
            return self.any_all(fn, args[0])
        if fn in (min, max):
            return self.min_max(fn, args, kwargs)
        if fn is sum:
            items = self.iter_concrete(eng.force(args[0]))
            if items is None:
                raise Unsupported('sum')
            r = 0
            for i in items:
                r = self.binop(ast.Add(), r, i)
            return r
        if fn is abs:
            v = eng.force(args[0])
            return abs(v) if isinstance(v, int) else S(z3.If(v.z >= 0, v.z, -v.z), INT)
        if fn is sorted:
            items = self.iter_concrete(eng.force(args[0]))
            if items is not None and is_native(tuple(items)) and not kwargs:
                return eng.mklist(sorted(items))
            if items is not None and len(items) <= 1:
                return eng.mklist(items)
            h = eng.env.get('sorted')
            if h is not None:
                return h(eng, args[0], kwargs)
            if not kwargs:
                l = self.to_slist(eng.force(args[0]))
                r = SList(z=self.list_sort(l), elem=l.elem)
                r.birth = eng.birth()
                return r
            raise Unsupported('sorted')
        if fn is iter:
            v = eng.force(args[0])
            if isinstance(v, (SObj,)):
                m = class_lookup(v.cls, '__iter__')
                return eng.call(m, [v])
            return v
        if fn is next:
            return self.next_(args)
        if fn is id:
            return eng.fresh(INT, 'id')
        if fn is hash:
            v = eng.force(args[0])
            cls = self.class_of_user(v)
            if cls is not None:
                m = class_lookup(cls, '__hash__')
                if m is not MISSING and isinstance(m, types.FunctionType):
                    return eng.call(m, [v])
            return HashOf(v)
        if fn is print:
            eng.emit(('print', tuple(args), kwargs.get('file')) +
                     tuple(kwargs.get(k) for k in ('sep', 'end')))
            return None
        if fn is type:
            return self.pyclass(args[0])
        if fn is vars or fn is dir:
            raise Unsupported('vars/dir')
        # unbound methods of built-in types: str.lower(x), object.__init__(x)
        if isinstance(fn, (types.MethodDescriptorType, types.WrapperDescriptorType)):
            if fn.__objclass__ is object:
                if fn.__name__ == '__init__':
                    return None
                if fn.__name__ == '__new__':
                    o = SObj(args[0])
                    o.birth = eng.birth()
                    return o
                raise Unsupported('object.%s' % fn.__name__)
            return self.call_method(args[0], fn.__name__, args[1:], kwargs)
        if isinstance(fn, types.BuiltinFunctionType):
            if fn is object.__new__:
                o = SObj(args[0])
                o.birth = eng.birth()
                return o
            slf = getattr(fn, '__self__', None)
            if slf is not None and not isinstance(slf, types.ModuleType):
                if isinstance(slf, type):
                    if slf is dict and fn.__name__ == 'fromkeys':
                        raise Unsupported('fromkeys')
                    raise Unsupported('%r' % fn)
                return self.call_method(slf, fn.__name__, args, kwargs)
        m = getattr(fn, '__module__', None) or ''
        if fn is re.compile or m == 're':
            if all(is_native(a) for a in args):
                return fn(*args, **kwargs)
        if m in PURE_MODULES and all(is_native(a) for a in args) and all(
                is_native(a) for a in kwargs.values()):
            try:
                return fn(*args, **kwargs)
            except Exception as e:
                raise PyExc(e)
        h = eng.env.get('external')
        if h is not None:
            r = h(eng, fn, args, kwargs)
            if r is not NotImplemented:
                return r
        if fn is None or isinstance(fn, (int, str, tuple, SList, SDict)) or \
                isinstance(fn, Sym):
            raise PyExc(TypeError('object is not callable'))
        raise Unsupported('call of %r' % (fn,))

    def next_(self, args):
        eng = self.eng
        it = eng.force(args[0])
        if isinstance(it, GenExp):
            items = self.iter_concrete(it)
            if items is not None:
                if items:
                    return items[0]
                if len(args) > 1:
                    return args[1]
                raise PyExc(StopIteration())
        h = eng.env.get('next')
        if h is not None:
            return h(eng, it, *args[1:])
        raise Unsupported('next')

    def any_all(self, fn, it):
        eng = self.eng
        it = eng.force(it)
        want = fn is any
        if isinstance(it, GenExp):
            gen = it.node.generators[0]
            src = eng.force(eng.ev(gen.iter, it.frame))
            items = self.iter_concrete(src)
            if len(it.node.generators) == 1 and items is not None:
                fr = self.comp_frame(it.frame)
                for x in list(items):
                    eng.assign(gen.target, x, fr)
                    if all(eng.truth(eng.ev(c, fr)) for c in gen.ifs):
                        if eng.truth(eng.ev(it.node.elt, fr)) == want:
                            return want
                return not want
            if len(it.node.generators) == 1 and isinstance(src, Sym) and \
                    src.t in STRLIKE and not gen.ifs and \
                    isinstance(gen.target, ast.Name):
                r = self.char_quant(it, gen, src)
                if r is not None:
                    if want:
                        # exists a char satisfying P: not all satisfy not P
                        return self.bval(z3.Not(z3.InRe(src.z, z3.Star(
                            z3.Intersect(ANY, z3.Complement(r))))))
                    return self.bval(z3.InRe(src.z, z3.Star(r)))
            if isinstance(src, Rev):
                src = eng.force(src.it)     # in any order
            # whether any is left when we drop those that do not match
            key = '_left_' + str(want)
            left = getattr(it.node, key, None)
            if left is None:
                test = it.node.elt if want else ast.UnaryOp(
                    op=ast.Not(), operand=it.node.elt)
                left = ast.ListComp(elt=ast.Constant(value=1), generators=[
                    ast.comprehension(target=gen.target, iter=gen.iter,
                                      ifs=gen.ifs + [test], is_async=0)])
                ast.copy_location(left, it.node)
                ast.fix_missing_locations(left)
                setattr(it.node, key, left)
            n = z3.Length(to_term(self.listcomp(left, it.frame, src),
                                  SeqT(INT), eng))
            return self.bval(n > 0 if want else n == 0)
        items = self.iter_concrete(it)
        if items is None:
            raise Unsupported('any/all')
        for x in items:
            if eng.truth(x) == want:
                return want
        return not want

    def char_quant(self, ge, gen, src):
        """A predicate on one character as a regex (when it is a finite test)."""
        eng = self.eng
        c = z3.Const(eng.fresh_name('qc'), z3.StringSort())

        def thunk():
            fr = self.comp_frame(ge.frame)
            fr.locals[gen.target.id] = Sym(c, CHAR)
            return eng.ev(ge.node.elt, fr)
        eng_pc = len(eng.pc)
        t = eng.merge_bool(thunk)
        return bool_to_char_re(z3.simplify(t), c)

    def min_max(self, fn, args, kwargs):
        eng = self.eng
        items = list(args)
        if len(args) == 1:
            items = self.iter_concrete(eng.force(args[0]))
            if items is None:
                raise Unsupported('min/max of symbolic sequence')
            items = list(items)
        if kwargs:
            raise Unsupported('min/max key')
        if not items:
            raise PyExc(ValueError('empty'))
        r = eng.force(items[0])
        for x in items[1:]:
            x = eng.force(x)
            if is_native(r) and is_native(x):
                r = fn(r, x)
                continue
            a, b = self.int_term(r), self.int_term(x)
            r = S(z3.If(b < a, b, a) if fn is min else z3.If(b > a, b, a), INT)
        return r


FILTER = ast.parse('[x for x in it if fn(x)]', mode='eval').body


ANY_START = ast.parse('(text.startswith(x) for x in it)', mode='eval').body
ANY_END = ast.parse('(text.endswith(x) for x in it)', mode='eval').body


def Frame_of(eng, **local):
    from .interp import Frame
    fr = Frame(eng.frame.fn, eng.frame.depth)
    fr.locals = dict(local)
    fr.birth = eng.births + 1
    return fr


PURE_MODULES = ('posixpath', 'string', 'keyword', 'operator')


def bool_to_char_re(t, c):
    if z3.is_true(t):
        return ANY
    if z3.is_false(t):
        return z3.Empty(z3.ReSort(z3.StringSort()))
    k = t.decl().kind()
    if k == z3.Z3_OP_OR:
        rs = [bool_to_char_re(x, c) for x in t.children()]
        return None if any(r is None for r in rs) else z3.Union(*rs)
    if k == z3.Z3_OP_AND:
        rs = [bool_to_char_re(x, c) for x in t.children()]
        return None if any(r is None for r in rs) else z3.Intersect(*rs)
    if k == z3.Z3_OP_NOT:
        r = bool_to_char_re(t.arg(0), c)
        return None if r is None else z3.Intersect(ANY, z3.Complement(r))
    if k == z3.Z3_OP_EQ:
        a, b = t.arg(0), t.arg(1)
        if b.eq(c):
            a, b = b, a
        if a.eq(c) and z3.is_string_value(b):
            return z3.Re(b)
    if k == z3.Z3_OP_SEQ_IN_RE and t.arg(0).eq(c):
        return z3.Intersect(ANY, t.arg(1))
    return None


def comp_elem(t):
    return z3.Const('comp_elem_' + smt._mangle(t.name), t.sort())


def comp_name(cond, elt):
    import hashlib
    for c0, e0, n0 in COMPS:
        if smt.same(cond, c0) and smt.same(elt, e0):
            return c0, e0, n0
    name = 'comp_' + hashlib.sha1((
        cond.sexpr() + '|' + elt.sexpr()).encode()).hexdigest()[:12]
    COMPS.append((cond, elt, name))
    return cond, elt, name


_subsets = {}


def comp_subsets(cond, elt, e):
    """Which other functions count no more, or no less, than this."""
    fewer, more = [], []
    if z3.is_int_value(elt):
        for c0, e0, n0 in COMPS:
            if z3.is_int_value(e0) and not c0.eq(cond) and \
                    smt.mentions(c0, e):
                k = c0.get_id(), cond.get_id()
                if k not in _subsets:
                    _subsets[k] = (smt.valid_now(z3.Implies(c0, cond)),
                                   smt.valid_now(z3.Implies(cond, c0)),
                                   c0, cond)
                if _subsets[k][0]:
                    fewer.append(n0)
                if _subsets[k][1]:
                    more.append(n0)
    return fewer, more


class HashOf:
    def __init__(self, v):
        self.v = self.key_value = v


class SliceVal:
    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st


class _Key:
    """A symbolic key of an otherwise concrete dict (by value)."""
    def __init__(self, v):
        self.v = self.key_value = v


class ScopedLocals(dict):
    """Locals of a comprehension: reads fall through to the enclosing scope."""
    def __init__(self, parent):
        super().__init__()
        self.parent = parent

    def __contains__(self, k):
        return dict.__contains__(self, k) or k in self.parent

    def __getitem__(self, k):
        if dict.__contains__(self, k):
            return dict.__getitem__(self, k)
        return self.parent[k]

    def get(self, k, d=None):
        return self[k] if k in self else d


# ----------------------------------------------- recursive built-in functions

_split_fns = {}


def split_fn(sep):
    if sep not in _split_fns:
        holder = {}
        rt = SeqT(STR)

        def unfold(args):
            s = args[0]
            i = z3.IndexOf(s, zstr(sep), 0)
            n = z3.Length(s)
            m = len(sep)
            me = holder['f'].decl(s)
            rest = holder['f'].decl(z3.SubString(s, i + m, n - i - m))
            return [z3.Length(me) >= 1, me == z3.If(
                i < 0, z3.Unit(s),
                z3.Concat(z3.Unit(z3.SubString(s, 0, i)), rest))]
        f = smt.SpecFn('split_%d' % len(_split_fns), [STR], rt, unfold)
        holder['f'] = f
        f.py = lambda s: s.split(sep)
        f.native_ok = True
        _split_fns[sep] = f
    return _split_fns[sep]


def split_last(s):
    """(init, last) of a term that visibly ends in one element."""
    k = s.decl().kind()
    if k == z3.Z3_OP_SEQ_UNIT:
        return z3.Empty(s.sort()), s.arg(0)
    if k == z3.Z3_OP_SEQ_CONCAT:
        kids = s.children()
        sub = split_last(kids[-1])
        if sub is not None:
            init = kids[:-1]
            if sub[0].decl().kind() != z3.Z3_OP_SEQ_EMPTY:
                init = init + [sub[0]]
            return (init[0] if len(init) == 1 else z3.Concat(*init)), sub[1]
    return None


def seq_parts(z):
    if z.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [q for p in z.children() for q in seq_parts(p)]
    if z.decl().kind() == z3.Z3_OP_SEQ_EMPTY:
        return []
    return [z]


_join_fns = {}


def join_fn(sep):
    if sep not in _join_fns:
        holder = {}

        def unfold(args):
            s = args[0]
            n = z3.Length(s)
            f = holder['f'].decl
            app = split_last(s)
            if app is not None:
                init, last = app
                glue = [f(init)] + ([zstr(sep)] if sep else []) + [last]
                if not sep:
                    return [f(s) == z3.Concat(*glue)]
                return [f(s) == z3.If(z3.Length(init) == 0, last,
                                      z3.Concat(*glue))]
            facts = []
            if s.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and \
                    z3.is_int_value(s.arg(1)) and s.arg(1).as_long() == 0:
                # a prefix: without its last element it is one, too
                base, m = s.arg(0), s.arg(2)
                inner = z3.And(m > 0, m <= z3.Length(base))
                init = z3.Extract(base, 0, z3.simplify(m - 1))
                last = base[z3.simplify(m - 1)]
                facts = [z3.Implies(inner, f(s) == z3.If(
                    m == 1, last, z3.Concat(f(init), zstr(sep), last))
                    if sep else f(s) == z3.Concat(f(init), last))]
            init = z3.Extract(s, 0, n - 1)
            last = s[n - 1]
            if not sep:
                return facts + [f(s) == z3.If(
                    n <= 0, z3.StringVal(''), z3.Concat(f(init), last))]
            return facts + [f(s) == z3.If(n <= 0, z3.StringVal(''), z3.If(
                n == 1, s[0], z3.Concat(f(init), zstr(sep), last)))]
        f = smt.SpecFn('join_%d' % len(_join_fns), [SeqT(STR)], STR, unfold)
        holder['f'] = f
        _join_fns[sep] = f
    return _join_fns[sep]


_replace_fns = {}


def replace_fn(old, new):
    if (old, new) not in _replace_fns:
        holder = {}

        def unfold(args):
            s = args[0]
            i = z3.IndexOf(s, zstr(old), 0)
            n = z3.Length(s)
            m = len(old)
            return z3.If(i < 0, s, z3.Concat(
                z3.SubString(s, 0, i), zstr(new),
                holder['f'].decl(z3.SubString(s, i + m, n - i - m))))
        f = smt.SpecFn('replace_%d' % len(_replace_fns), [STR], STR, unfold)
        holder['f'] = f
        _replace_fns[(old, new)] = f
    return _replace_fns[(old, new)]
