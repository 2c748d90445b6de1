"""A decision procedure for conjunctions of regular constraints.

Derivatives of regular expressions (with intersection and complement) over
intervals of code points.  From a list of assertions, the facts about each
string term are collected as one regular expression; a term that equals a
concatenation must also be in the product of the languages of its parts.  When
the language of a term is empty, the assertions are unsatisfiable.
"""
import z3

from .vals import decode_zstr

MAXCHAR = 0x2ffff
LIMIT = 4000


class TooBig(Exception):
    pass


# Regular expressions as interned tuples.
_table = {}


def mk(*t):
    return _table.setdefault(t, t)


EPS = mk('eps')
NONE = mk('cls', ())


def cls(ranges):
    out = []
    for a, b in sorted(ranges):
        if a > b:
            continue
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return mk('cls', tuple(out))


def comp_cls(ranges):
    out, at = [], 0
    for a, b in ranges:
        if a > at:
            out.append((at, a - 1))
        at = b + 1
    if at <= MAXCHAR:
        out.append((at, MAXCHAR))
    return mk('cls', tuple(out))


ANYC = cls([(0, MAXCHAR)])


def star(r):
    if r in (EPS, NONE):
        return EPS
    if r[0] == 'star':
        return r
    return mk('star', r)


ALL = star(ANYC)


def cat(a, b):
    if a is NONE or b is NONE:
        return NONE
    if a is EPS:
        return b
    if b is EPS:
        return a
    if a[0] == 'cat':
        return cat(a[1], cat(a[2], b))
    if a is ALL and (b is ALL or b[0] == 'cat' and b[1] is ALL):
        return b
    return mk('cat', a, b)


def alt(*rs):
    out = set()
    ranges = []
    for r in rs:
        for x in (r[1] if r[0] == 'alt' else (r,)):
            if x is ALL:
                return ALL
            if x[0] == 'cls':
                ranges.extend(x[1])
            else:
                out.add(x)
    if ranges:
        out.add(cls(ranges))
    if not out:
        return NONE
    if len(out) == 1:
        return next(iter(out))
    return mk('alt', frozenset(out))


def both(*rs):
    out = set()
    for r in rs:
        for x in (r[1] if r[0] == 'and' else (r,)):
            if x is NONE:
                return NONE
            if x is not ALL:
                out.add(x)
    for x in out:
        if neg(x) in out:
            return NONE
    if not out:
        return ALL
    if len(out) == 1:
        return next(iter(out))
    return mk('and', frozenset(out))


def neg(r):
    if r[0] == 'not':
        return r[1]
    if r is NONE:
        return ALL
    if r is ALL:
        return NONE
    return mk('not', r)


def lit(s):
    r = EPS
    for c in reversed(s):
        r = cat(cls([(ord(c), ord(c))]), r)
    return r


def rep(r, lo, hi):
    out = EPS
    if hi is None:
        out = star(r)
    else:
        for _ in range(hi - lo):
            out = alt(EPS, cat(r, out))
    for _ in range(lo):
        out = cat(r, out)
    return out


_null = {}


def nullable(r):
    if r in _null:
        return _null[r]
    k = r[0]
    v = (k in ('eps', 'star') or
         k == 'cat' and nullable(r[1]) and nullable(r[2]) or
         k == 'alt' and any(nullable(x) for x in r[1]) or
         k == 'and' and all(nullable(x) for x in r[1]) or
         k == 'not' and not nullable(r[1]))
    _null[r] = v
    return v


_deriv = {}


def deriv(r, c):
    key = (r, c)
    if key in _deriv:
        return _deriv[key]
    k = r[0]
    if k == 'eps':
        v = NONE
    elif k == 'cls':
        v = EPS if any(a <= c <= b for a, b in r[1]) else NONE
    elif k == 'star':
        v = cat(deriv(r[1], c), r)
    elif k == 'cat':
        v = cat(deriv(r[1], c), r[2])
        if nullable(r[1]):
            v = alt(v, deriv(r[2], c))
    elif k == 'alt':
        v = alt(*[deriv(x, c) for x in r[1]])
    elif k == 'and':
        v = both(*[deriv(x, c) for x in r[1]])
    else:
        v = neg(deriv(r[1], c))
    _deriv[key] = v
    return v


def cuts(r, out, seen):
    if r in seen:
        return
    seen.add(r)
    if r[0] == 'cls':
        for a, b in r[1]:
            out.add(a)
            out.add(b + 1)
    elif r[0] in ('star', 'not'):
        cuts(r[1], out, seen)
    elif r[0] == 'cat':
        cuts(r[1], out, seen)
        cuts(r[2], out, seen)
    elif r[0] in ('alt', 'and'):
        for x in r[1]:
            cuts(x, out, seen)


_empty = {}


def empty(r):
    """Is the language empty?  Raises TooBig beyond LIMIT states."""
    if r in _empty:
        return _empty[r]
    points = {0}
    cuts(r, points, set())
    # one representative for every set of characters treated alike
    classes, sigs = [], set()
    leaves = []

    def collect(x, seen):
        if x in seen:
            return
        seen.add(x)
        if x[0] == 'cls':
            leaves.append(x[1])
        elif x[0] in ('star', 'not'):
            collect(x[1], seen)
        elif x[0] == 'cat':
            collect(x[1], seen)
            collect(x[2], seen)
        elif x[0] in ('alt', 'and'):
            for y in x[1]:
                collect(y, seen)
    collect(r, set())
    for c in sorted(points):
        if c > MAXCHAR:
            continue
        sig = tuple(any(a <= c <= b for a, b in l) for l in leaves)
        if sig not in sigs:
            sigs.add(sig)
            classes.append(c)
    seen, todo = {r}, [r]
    while todo:
        x = todo.pop()
        if nullable(x):
            _empty[r] = False
            return False
        for c in classes:
            y = deriv(x, c)
            if y not in seen:
                seen.add(y)
                todo.append(y)
                if len(seen) > LIMIT:
                    raise TooBig()
    _empty[r] = True
    return True


# ---------------------------------------------------------- z3 translation

_tr = {}


def from_z3(r):
    i = r.get_id()
    if i in _tr and _tr[i][0].eq(r):
        return _tr[i][1]
    v = _from_z3(r)
    _tr[i] = (r, v)
    return v


def _lit_of(t):
    return decode_zstr(t) if z3.is_string_value(t) else None


def _from_z3(r):
    k = r.decl().kind()
    ch = r.children()
    if k == z3.Z3_OP_SEQ_TO_RE:
        s = _lit_of(ch[0])
        if s is None:
            raise TooBig()
        return lit(s)
    if k == z3.Z3_OP_RE_STAR:
        return star(from_z3(ch[0]))
    if k == z3.Z3_OP_RE_PLUS:
        x = from_z3(ch[0])
        return cat(x, star(x))
    if k == z3.Z3_OP_RE_OPTION:
        return alt(EPS, from_z3(ch[0]))
    if k == z3.Z3_OP_RE_UNION:
        return alt(*[from_z3(c) for c in ch])
    if k == z3.Z3_OP_RE_INTERSECT:
        return both(*[from_z3(c) for c in ch])
    if k == z3.Z3_OP_RE_CONCAT:
        x = EPS
        for c in reversed(ch):
            x = cat(from_z3(c), x)
        return x
    if k == z3.Z3_OP_RE_COMPLEMENT:
        return neg(from_z3(ch[0]))
    if k == z3.Z3_OP_RE_RANGE:
        a, b = _lit_of(ch[0]), _lit_of(ch[1])
        if a is None or b is None or len(a) != 1 or len(b) != 1:
            raise TooBig()
        return cls([(ord(a), ord(b))])
    if k == z3.Z3_OP_RE_LOOP:
        p = r.decl().params()
        return rep(from_z3(ch[0]), p[0], p[1] if len(p) > 1 else None)
    if k == z3.Z3_OP_RE_FULL_SET:
        return ALL
    if k == z3.Z3_OP_RE_EMPTY_SET:
        return NONE
    n = r.decl().name()
    if n in ('re.allchar',):
        return ANYC
    raise TooBig()


def is_str(t):
    return t.sort() == z3.StringSort()


_facts = {}


def fact(a, pos=True):
    """-> (term, regular expression) for a literal about one term, or None"""
    i = a.get_id(), pos
    f = _facts.get(i)
    if f is None or not f[0].eq(a):
        try:
            f = a, _fact(a, pos)
        except TooBig:
            f = a, TooBig
        _facts[i] = f
    if f[1] is TooBig:
        raise TooBig()
    return f[1]


def _fact(a, pos):
    if z3.is_not(a):
        return fact(a.arg(0), not pos)
    if not z3.is_app(a):
        return None
    k = a.decl().kind()
    r = None
    if k == z3.Z3_OP_SEQ_IN_RE:
        t, r = a.arg(0), from_z3(a.arg(1))
    elif k == z3.Z3_OP_SEQ_CONTAINS:
        t, s = a.arg(0), _lit_of(a.arg(1))
        r = None if s is None else cat(ALL, cat(lit(s), ALL))
    elif k == z3.Z3_OP_SEQ_PREFIX:
        t, s = a.arg(1), _lit_of(a.arg(0))
        r = None if s is None else cat(lit(s), ALL)
    elif k == z3.Z3_OP_SEQ_SUFFIX:
        t, s = a.arg(1), _lit_of(a.arg(0))
        r = None if s is None else cat(ALL, lit(s))
    elif k == z3.Z3_OP_EQ and is_str(a.arg(0)):
        x, y = a.arg(0), a.arg(1)
        if _lit_of(x) is not None:
            x, y = y, x
        if _lit_of(y) is not None:
            t, r = x, lit(_lit_of(y))
    elif k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_EQ) and \
            z3.is_int_value(a.arg(1)) and z3.is_app(a.arg(0)) and \
            a.arg(0).decl().kind() == z3.Z3_OP_SEQ_LENGTH:
        t, n = a.arg(0).arg(0), a.arg(1).as_long()
        if not is_str(t) or n > 64:
            return None
        r = (rep(ANYC, 0, n) if n >= 0 else NONE) if k == z3.Z3_OP_LE else \
            rep(ANYC, max(n, 0), None) if k == z3.Z3_OP_GE else \
            rep(ANYC, n, n) if n >= 0 else NONE
    elif k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_EQ) and \
            z3.is_int_value(a.arg(1)) and z3.is_app(a.arg(0)) and \
            a.arg(0).decl().name() == 'str.to_code':
        t, n = a.arg(0).arg(0), a.arg(1).as_long()
        low = cls([(0, min(n, MAXCHAR))])
        if n < 0:
            return None
        r = alt(low, neg(ANYC)) if k == z3.Z3_OP_LE else \
            cls([(n, MAXCHAR)]) if k == z3.Z3_OP_GE else \
            cls([(n, n)]) if n <= MAXCHAR else NONE
    elif a.decl().name() == 'py_is_int':
        t, r = a.arg(0), int_literal()
    elif k in (z3.Z3_OP_OR, z3.Z3_OP_AND):
        fs = [fact(c, pos) for c in a.children()]
        if any(f is None for f in fs):
            return None
        if any(not f[0].eq(fs[0][0]) for f in fs):
            return None
        join = alt if (k == z3.Z3_OP_OR) == pos else both
        return fs[0][0], join(*[f[1] for f in fs])
    if r is None or not is_str(t):
        return None
    return pull(t, r if pos else neg(r))


_int_literal = []


def int_literal():
    """What int() accepts (of less than 4300 digits)."""
    if not _int_literal:
        chars = [chr(i) for i in range(MAXCHAR + 1)]
        digit = cls([(ord(c), ord(c)) for c in chars if c.isdecimal()])
        blank = star(cls([(ord(c), ord(c)) for c in chars if c.isspace()]))
        sign = alt(EPS, lit('+'), lit('-'))
        digits = cat(cat(digit, star(digit)),
                     star(cat(lit('_'), cat(digit, star(digit)))))
        _int_literal.append(cat(blank, cat(sign, cat(digits, blank))))
    return _int_literal[0]


STRIP = {}      # function name -> (side, class of characters)


def pull(t, r):
    """A fact about a part of a term as a fact about the whole."""
    while z3.is_app(t):
        k = t.decl().kind()
        if t.decl().name() in STRIP:
            side, c = STRIP[t.decl().name()]
            other = comp_cls(c[1])
            if side == 'l':
                r = cat(star(c), both(r, alt(EPS, cat(other, ALL))))
            else:
                r = cat(both(r, alt(EPS, cat(ALL, other))), star(c))
        elif k == z3.Z3_OP_SEQ_EXTRACT and z3.is_int_value(t.arg(1)) and \
                z3.is_int_value(t.arg(2)) and t.arg(1).as_long() == 0 and \
                0 < t.arg(2).as_long() <= 32:
            n = t.arg(2).as_long()
            r = alt(cat(both(r, rep(ANYC, n, n)), ALL),
                    both(r, rep(ANYC, 0, n - 1)))
        elif k == z3.Z3_OP_SEQ_EXTRACT and z3.is_int_value(t.arg(2)) and \
                t.arg(2).as_long() == 1 and t.arg(1).eq(z3.simplify(
                    z3.Length(t.arg(0)) - 1)):
            r = alt(cat(ALL, both(r, ANYC)), both(r, EPS))
        elif k == z3.Z3_OP_SEQ_AT and z3.is_int_value(t.arg(1)) and \
                t.arg(1).as_long() == 0:
            r = alt(cat(both(r, ANYC), ALL), both(r, EPS))
        elif k == z3.Z3_OP_SEQ_AT and t.arg(1).eq(z3.simplify(
                z3.Length(t.arg(0)) - 1)):
            r = alt(cat(ALL, both(r, ANYC)), both(r, EPS))
        else:
            break
        t = t.arg(0)
    return t, r


_alphabet = {}


def alphabet(r):
    """A class with all characters of all words of the language."""
    a = _alphabet.get(r)
    if a is None:
        k = r[0]
        if k == 'eps':
            a = NONE
        elif k == 'cls':
            a = r
        elif k == 'star':
            a = alphabet(r[1])
        elif k == 'cat':
            a = alt(alphabet(r[1]), alphabet(r[2]))
        elif k == 'alt':
            a = alt(*[alphabet(x) for x in r[1]])
        elif k == 'and':
            a = ANYC
            for x in r[1]:
                bad = comp_cls(alphabet(x)[1])[1]
                a = comp_cls(cls(list(comp_cls(a[1])[1]) + list(bad))[1])
        else:
            a = ANYC
        _alphabet[r] = a
    return a


_gathered = {}


def gather(top):
    """The facts and equations that an assertion consists of."""
    out, todo = [], [top]
    while todo:
        a = todo.pop()
        if z3.is_and(a):
            todo.extend(a.children())
            continue
        try:
            f = fact(a)
        except TooBig:
            f = None
        if f is None and z3.is_not(a) and z3.is_or(a.arg(0)):
            todo.extend(z3.Not(c) for c in a.arg(0).children())
        elif f is not None:
            out.append((f, None))
        elif z3.is_eq(a) and is_str(a.arg(0)):
            out.append((None, (a.arg(0), a.arg(1))))
    return out


def unsat(assertions):
    """True only if the assertions are contradictory."""
    try:
        return _unsat(assertions)
    except (TooBig, RecursionError):
        return False


def _unsat(assertions):
    facts, eqs = {}, []
    for top in assertions:
        kept = _gathered.get(top.get_id())
        if kept is None or not kept[0].eq(top):
            kept = _gathered[top.get_id()] = top, gather(top)
        for f, e in kept[1]:
            if f is not None:
                facts.setdefault(f[0].get_id(), (f[0], []))[1].append(f[1])
            else:
                eqs.append(e)
    if not facts:
        return False
    groups = {}                       # id -> set of ids of equal terms
    terms = {i: t for i, (t, _) in facts.items()}
    for x, y in eqs:
        terms[x.get_id()], terms[y.get_id()] = x, y
        g = groups.get(x.get_id(), {x.get_id()}) | \
            groups.get(y.get_id(), {y.get_id()})
        for i in g:
            groups[i] = g
    memo = {}

    def lang(t, active):
        s = _lit_of(t)
        if s is not None:
            return lit(s)
        i = t.get_id()
        if i in memo:
            return memo[i]
        if i in active:
            return ALL
        active = active | groups.get(i, {i})
        out = []
        for j in groups.get(i, {i}):
            out.extend(facts[j][1] if j in facts else ())
            out.append(product(terms.get(j, t), active))
        r = both(*out)
        if not (active - groups.get(i, {i})):
            memo[i] = r
        return r

    def product(t, active):
        s = _lit_of(t)
        if s is not None:
            return lit(s)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            r = EPS
            for c in reversed(t.children()):
                r = cat(lang(c, active), r)
            return r
        if z3.is_app(t) and t.decl().kind() in (
                z3.Z3_OP_SEQ_AT, z3.Z3_OP_SEQ_EXTRACT):
            a = alphabet(lang(t.arg(0), active))
            if t.decl().kind() == z3.Z3_OP_SEQ_AT:
                return alt(EPS, a)
            return star(a)
        return ALL
    done = set()
    for i, t in list(terms.items()):
        g = frozenset(groups.get(i, {i}))
        if g in done:
            continue
        done.add(g)
        try:
            if empty(lang(t, frozenset())):
                return True
        except TooBig:
            pass
    return False


_consts = {}


def consts(t):
    """The ids of the uninterpreted constants (and functions) in a term."""
    i = t.get_id()
    if i in _consts and _consts[i][0].eq(t):
        return _consts[i][1]
    out = set()
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 0 and \
                    x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().get_id())
            todo.extend(x.children())
        elif z3.is_quantifier(x):
            todo.append(x.body())
    _consts[i] = (t, frozenset(out))
    return _consts[i][1]


def component(pc, cond):
    """The assertions that share constants, directly or not, with cond."""
    mine = set(consts(cond))
    rest = [(p, consts(p)) for p in pc]
    out = []
    while True:
        keep = []
        for p, c in rest:
            if mine.isdisjoint(c):
                keep.append((p, c))
            else:
                mine |= c
                out.append(p)
        if len(keep) == len(rest):
            return out
        rest = keep


def decide(pc, cond):
    """Is pc and cond satisfiable, if only regular facts about one term
    matter?  None if that is not the case."""
    try:
        f = fact(z3.simplify(cond))
        if f is None or not z3.is_const(f[0]):
            return None
        facts = [f[1]]
        mine = consts(f[0])
        for p in pc:
            if consts(p).isdisjoint(mine):
                continue
            g = fact(z3.simplify(p))
            if g is None or not g[0].eq(f[0]):
                return None
            facts.append(g[1])
        return not empty(both(*facts))
    except (TooBig, RecursionError):
        return None


_heavy = {}


def heavy(t):
    """Does it have a regular expression that z3 is slow with?"""
    i = t.get_id()
    if i not in _heavy or not _heavy[i][0].eq(t):
        n, todo = 0, [t]
        while todo and n < 25:
            x = todo.pop()
            if z3.is_app(x):
                n += x.decl().kind() == z3.Z3_OP_RE_RANGE
                todo.extend(x.children())
        _heavy[i] = (t, n >= 25)
    return _heavy[i][1]
