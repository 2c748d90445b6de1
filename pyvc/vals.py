"""Symbolic values and their conversion to and from SMT terms."""
import z3

from . import smt
from .smt import (INT, BOOL, STR, CHAR, BYTES, BYTE, NONE, UNBOUND, BOT, ObjT, RecT,
                  SeqT, SetT, DictT, StructT, TupT, UnionT, join, join_elem)


class Unsupported(Exception):
    """The engine cannot express this construct; nothing is concluded."""


class Infeasible(Exception):
    """The current path has been pruned."""


class PyExc(Exception):
    """An exception raised by the interpreted program."""
    def __init__(self, exc, origin=None):
        self.exc = exc                    # SObj / real exception instance
        self.origin = origin
        super().__init__(repr(exc))

    @property
    def cls(self):
        e = self.exc
        return e.cls if isinstance(e, SObj) else type(e)


class Sym:
    """A symbolic immutable value (or an object reference of ObjT)."""
    __slots__ = ('z', 't', 'meta')

    def __init__(self, z, t, meta=None):
        self.z = z
        self.t = t
        self.meta = meta

    def __repr__(self):
        return 'Sym<%s>(%s)' % (self.t, str(self.z)[:80])


class SObj:
    """A heap object with concrete identity."""
    counter = [0]

    def __init__(self, cls, fields=None, lazy=None, frozen=False):
        self.cls = cls
        self.fields = fields if fields is not None else {}
        self.lazy = lazy or {}            # field -> type | callable
        self.frozen = frozen
        self.ref = None                   # term when stored in a container
        self.birth = None

    def __repr__(self):
        return 'SObj<%s>' % self.cls.__name__


class SList:
    """A mutable list: concrete spine (items) or symbolic (z, elem)."""
    def __init__(self, items=None, z=None, elem=None, cls=list):
        self.items = items
        self.z = z
        self.elem = elem
        self.cls = cls
        self.parent = None                # (SList, index term) write-through
        self.birth = None
        self.version = 0

    @property
    def concrete(self):
        return self.items is not None

    def __repr__(self):
        if self.concrete:
            return 'SList%r' % (self.items,)
        return 'SList<%s>(%s)' % (self.elem, str(self.z)[:60])


class SDict:
    def __init__(self, items=None, z=None, t=None, default=None):
        self.items = items                # concrete keys -> values
        self.z = z
        self.t = t
        self.default = default            # default factory
        self.birth = None

    @property
    def concrete(self):
        return self.items is not None

    def __repr__(self):
        return 'SDict%r' % (self.items if self.concrete else self.t,)


class SSet:
    """A set: concrete python set, symbolic array, or the chars of a str."""
    def __init__(self, items=None, z=None, elem=None, chars=None, filt=None):
        self.items = items
        self.z = z
        self.elem = elem
        self.chars = chars                # Sym STR: the set of its characters
        self.filt = filt                  # concrete set it is intersected with
        self.birth = None

    @property
    def concrete(self):
        return self.items is not None


class FuncVal:
    def __init__(self, node, globs, closure, name, defaults=(), kwdefaults=None,
                 owner=None, real=None):
        self.node = node
        self.globs = globs
        self.closure = closure
        self.name = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.owner = owner                # class for zero-arg super()
        self.real = real

    def __repr__(self):
        return 'FuncVal<%s>' % self.name


class Bound:
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_


class Method:
    """A built-in method of a (symbolic) built-in value."""
    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


class SuperVal:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class GenVal:
    """A suspended generator call (run when iterated)."""
    def __init__(self, run):
        self.run = run                    # run(on_yield)


class Stream:
    """An opaque stream of items, consumed by a loop."""
    def __init__(self, name, make_item, fields=None):
        self.name = name
        self.make_item = make_item        # (engine, index term) -> value
        self.fields = fields or {}


class Enumerate:
    def __init__(self, it, start=0):
        self.it = it
        self.start = start


class RangeVal:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Rev:
    def __init__(self, it):
        self.it = it


class Zip:
    def __init__(self, its):
        self.its = its


class Filtered:
    """[x for x in seq if pred(x)] over a symbolic sequence."""
    def __init__(self, seq, pred, mapf):
        self.seq = seq
        self.pred = pred
        self.mapf = mapf


class GenExp:
    def __init__(self, node, frame):
        self.node = node
        self.frame = frame


class Missing:
    def __repr__(self):
        return '<missing>'


MISSING = Missing()

PRIMS = (int, bool, str, bytes, type(None), float)


def is_native(v):
    if isinstance(v, PRIMS):
        return True
    if isinstance(v, (tuple, frozenset, set, list)):
        return all(is_native(i) for i in v)
    if isinstance(v, dict):
        return all(is_native(k) and is_native(x) for k, x in v.items())
    return False


# ------------------------------------------------------------------ types

# the structures that lists of some lengths are taken for (by a contract)
STRUCTS = {}


def typeof(v):
    if v is MISSING:
        return UNBOUND
    if isinstance(v, Sym):
        return v.t
    if v is None:
        return NONE
    if isinstance(v, bool):
        return BOOL
    if isinstance(v, int):
        return INT
    if isinstance(v, str):
        return CHAR if len(v) == 1 else STR
    if isinstance(v, (bytes, bytearray)):
        return BYTES
    if isinstance(v, tuple):
        return TupT(*[typeof(i) for i in v])
    if isinstance(v, SList):
        if not v.concrete:
            return SeqT(v.elem)
        if len(v.items) in STRUCTS:
            return STRUCTS[len(v.items)]
        e = BOT
        for i in v.items:
            e = join_elem(e, typeof(i))
        return SeqT(e)
    if isinstance(v, SDict):
        if not v.concrete or isinstance(v.t, RecT):
            return v.t
        k = x = BOT
        for a, b in v.items.items():
            k = join_elem(k, typeof(getattr(a, 'key_value', a)))
            x = join_elem(x, typeof(b))
        return DictT(k, x)
    if isinstance(v, SSet):
        if v.concrete:
            e = BOT
            for i in v.items:
                e = join_elem(e, typeof(i))
            return SetT(e)
        if v.z is not None:
            return SetT(v.elem)
    if isinstance(v, SObj):
        return ObjT(v.cls)
    if isinstance(v, Filtered):
        raise Unsupported('typeof filtered list')
    raise Unsupported('typeof %r' % (type(v).__name__,))


def sub(a, b):
    """a is covered by b."""
    try:
        return join(a, b) == b
    except Exception:
        return False


def zstr(s):
    # z3 string literals: escape everything non printable
    out = []
    for c in s:
        o = ord(c)
        if o > 0x2ffff:
            raise Unsupported('character beyond U+2FFFF')
        if 32 <= o < 127 and c != '\\':
            out.append(c)
        else:
            out.append('\\u{%x}' % o)
    return z3.StringVal(''.join(out))


def zbytes(b):
    if not b:
        return z3.Empty(BYTES.sort())
    parts = [z3.Unit(z3.IntVal(i)) for i in b]
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


def zseq(terms, sort):
    if not terms:
        return z3.Empty(sort)
    parts = [z3.Unit(t) for t in terms]
    return parts[0] if len(parts) == 1 else z3.Concat(*parts)


_COERCE_UF = {}


def coerce_term(z, a, b, eng=None):
    """Term of type a as a term of (wider) type b."""
    if a == b or a.sort() == b.sort() and not isinstance(b, UnionT) \
            and not isinstance(a, UnionT):
        return z
    if isinstance(b, UnionT):
        if isinstance(a, UnionT):
            res = None
            for alt in a.alts:
                inner = a.proj(z, alt) if alt not in (NONE, UNBOUND, BOT) else None
                t = inject(b, alt, inner, eng)
                res = t if res is None else z3.If(a.tester(z, alt), t, res)
            return res
        return inject(b, a, z, eng)
    if isinstance(a, TupT) and isinstance(b, TupT):
        da, db = a.dt(), b.dt()
        return db.constructor(0)(*[
            coerce_term(da.accessor(0, i)(z), x, y, eng)
            for i, (x, y) in enumerate(zip(a.elems, b.elems))])
    if isinstance(a, SeqT) and isinstance(b, SeqT):
        if a.elem == BOT:
            return z3.Empty(b.sort())
        # elementwise coercion of a symbolic sequence
        if eng is None:
            raise Unsupported('coerce %s -> %s' % (a, b))
        return eng.coerce_seq(z, a, b)
    if isinstance(a, DictT) and isinstance(b, DictT) and a.key == BOT:
        return empty_dict(b)
    if isinstance(a, SetT) and isinstance(b, SetT) and a.elem == BOT:
        return z3.K(b.elem.sort(), z3.BoolVal(False))
    raise Unsupported('coerce %s -> %s' % (a, b))


def inject(u, alt, term, eng=None):
    if alt in u.alts:
        return u.inj(alt, term)
    for cand in u.alts:
        if sub(alt, cand):
            return u.inj(cand, coerce_term(term, alt, cand, eng))
    raise Unsupported('inject %s into %s' % (alt, u))


def empty_dict(t):
    d = t.dt()
    dv = z3.Const('dflt_' + smt._mangle(t.val.name), t.val.sort())
    return d.constructor(0)(z3.K(t.key.sort(), z3.BoolVal(False)),
                            z3.K(t.key.sort(), dv))


def to_term(v, t, eng=None):
    """Value -> term of type t."""
    if isinstance(t, UnionT):
        if isinstance(v, Sym):
            return coerce_term(v.z, v.t, t, eng)
        vt = typeof(v)
        for alt in t.alts:
            if vt == alt:
                return t.inj(alt, None if alt in (NONE, UNBOUND, BOT)
                             else to_term(v, alt, eng))
        for alt in t.alts:
            if sub(vt, alt):
                return t.inj(alt, to_term(v, alt, eng))
        raise Unsupported('to_term %s as %s' % (vt, t))
    if isinstance(v, Sym):
        return coerce_term(v.z, v.t, t, eng)
    if v is None:
        return z3.IntVal(0)
    if v is MISSING:
        return z3.IntVal(0)
    if isinstance(v, bool):
        if t == BOOL:
            return z3.BoolVal(v)
        if t == INT:
            return z3.IntVal(int(v))
    if isinstance(v, int) and t in (INT, BYTE):
        return z3.IntVal(v)
    if isinstance(v, str) and t in (STR, CHAR):
        return zstr(v)
    if isinstance(v, (bytes, bytearray)) and t == BYTES:
        return zbytes(v)
    if isinstance(t, StructT) and isinstance(v, SList) and v.concrete and \
            len(v.items) == len(t.elems):
        return t.dt().constructor(0)(*[to_term(i, e, eng)
                                       for i, e in zip(v.items, t.elems)])
    if isinstance(v, tuple) and type(t) is TupT:
        return t.dt().constructor(0)(*[to_term(i, e, eng)
                                       for i, e in zip(v, t.elems)])
    if isinstance(v, tuple) and isinstance(t, SeqT):
        return zseq([to_term(i, t.elem, eng) for i in v], t.sort())
    if isinstance(v, SList) and (isinstance(t, SeqT) or t == BYTES):
        elem = t.elem if isinstance(t, SeqT) else BYTE
        if v.concrete:
            return zseq([to_term(i, elem, eng) for i in v.items], t.sort())
        if v.elem == elem or v.elem.sort() == elem.sort():
            return v.z
        return coerce_term(v.z, SeqT(v.elem), t, eng)
    if isinstance(v, (SDict, dict)) and isinstance(t, RecT):
        items = v.items if isinstance(v, SDict) else v
        if items is None or sorted(map(str, items)) != sorted(t.fields):
            raise Unsupported('to_term %r as %s' % (v, t))
        return t.dt().constructor(0)(*[
            to_term(items[k], x, eng) for k, x in t.fields.items()])
    if isinstance(v, dict) and isinstance(t, DictT):
        v = SDict(items=v)
    if isinstance(v, SDict) and isinstance(t, DictT):
        if not v.concrete:
            if v.t == t or v.t.sort() == t.sort():
                return v.z
            return coerce_term(v.z, v.t, t, eng)
        z = empty_dict(t)
        d = t.dt()
        has, val = d.accessor(0, 0)(z), d.accessor(0, 1)(z)
        for k, x in v.items.items():
            kt = to_term(getattr(k, 'key_value', k), t.key, eng)
            has = z3.Store(has, kt, z3.BoolVal(True))
            val = z3.Store(val, kt, to_term(x, t.val, eng))
        return d.constructor(0)(has, val)
    if isinstance(v, SSet) and isinstance(t, SetT):
        if v.concrete:
            z = z3.K(t.elem.sort(), z3.BoolVal(False))
            for i in v.items:
                z = z3.Store(z, to_term(i, t.elem, eng), z3.BoolVal(True))
            return z
        if v.z is not None:
            return v.z
    if isinstance(v, SObj) and isinstance(t, ObjT):
        return eng.obj_ref(v)
    raise Unsupported('to_term %r as %s' % (v, t))


def from_term(z, t, eng=None):
    """Term -> value (immutable kinds only are shared)."""
    if isinstance(t, TupT):
        d = t.dt()
        r = tuple(from_term(z3.simplify(d.accessor(0, i)(z)), e, eng)
                  for i, e in enumerate(t.elems))
        if isinstance(t, StructT):
            r = SList(items=list(r))
            r.birth = eng.birth() if eng is not None else 0
        return r
    if t == NONE:
        return None
    if t == UNBOUND:
        return MISSING
    if isinstance(t, SeqT):
        l = SList(z=z, elem=t.elem)
        l.birth = eng.birth() if eng else None
        return l
    if isinstance(t, RecT):
        d = SDict(items={}, t=t)
        d.birth = eng.birth() if eng else None
        for i, (k, x) in enumerate(t.fields.items()):
            x = d.items[k] = from_term(
                z3.simplify(t.dt().accessor(0, i)(z)), x, eng)
            if isinstance(x, (SDict, SList)):
                x.parent = (d, k)
        return d
    if isinstance(t, DictT):
        d = SDict(z=z, t=t)
        d.birth = eng.birth() if eng else None
        return d
    if isinstance(t, SetT):
        d = SSet(z=z, elem=t.elem)
        d.birth = eng.birth() if eng else None
        return d
    z = z3.simplify(z)
    if t == INT or t == BYTE:
        if z3.is_int_value(z):
            return z.as_long()
    if t == BOOL:
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
    if t in (STR, CHAR) and z3.is_string_value(z):
        return decode_zstr(z)
    if isinstance(t, UnionT):
        # a literally constructed alternative
        if z3.is_app(z):
            for i, alt in enumerate(t.alts):
                if z.decl().eq(t.dt().constructor(i)):
                    if alt == NONE:
                        return None
                    if alt == UNBOUND:
                        return MISSING
                    return from_term(z.arg(0), alt, eng)
    return Sym(z, t)


def decode_zstr(z):
    s = z.as_string()
    out = []
    i = 0
    while i < len(s):
        if s.startswith('\\u{', i):
            j = s.index('}', i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)
