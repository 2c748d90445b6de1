"""SMT layer: types <-> z3 sorts, spec-function unfolding, queries.

Every obligation ends here as a quantifier-free formula over strings, integers,
sequences, datatypes and uninterpreted spec functions.  Spec functions are
unfolded a bounded number of times per ground application (fuel); that is sound
for *proving* (each unfolding is an instance of the definition) and merely
incomplete for refuting.
"""
import hashlib
import os
import subprocess
import tempfile
import time

import z3

z3.set_param('warning', False)

STATS = {'queries': 0, 'cache_hits': 0, 'z3_time': 0.0, 'cvc5_time': 0.0,
         'z3_unsat': 0, 'cvc5_unsat': 0, 'sat': 0, 'unknown': 0}

# ---------------------------------------------------------------- types

_DT = {}


class T:
    name = '?'

    def __eq__(self, o):
        return isinstance(o, T) and self.name == o.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name

    def sort(self):
        raise NotImplementedError(self.name)


class Prim(T):
    def __init__(self, name, sort):
        self.name = name
        self._sort = sort

    def sort(self):
        return self._sort


INT = Prim('int', z3.IntSort())
BOOL = Prim('bool', z3.BoolSort())
STR = Prim('str', z3.StringSort())
CHAR = Prim('char', z3.StringSort())          # a str of length one
BYTES = Prim('bytes', z3.SeqSort(z3.IntSort()))
BYTE = Prim('byte', z3.IntSort())             # an int in 0..255
NONE = Prim('none', z3.IntSort())
UNBOUND = Prim('unbound', z3.IntSort())
BOT = Prim('bot', z3.IntSort())               # element type of an empty list


class ObjT(T):
    """A reference to an object whose dynamic class is exactly cls."""
    def __init__(self, cls):
        self.cls = cls
        self.name = 'obj<%s>' % (cls.__name__,)

    def sort(self):
        return z3.IntSort()


class SeqT(T):
    def __init__(self, elem, kind='list'):
        self.elem = elem
        self.kind = kind
        self.name = '%s<%s>' % (kind, elem.name)

    def sort(self):
        return z3.SeqSort(self.elem.sort())


class SetT(T):
    def __init__(self, elem):
        self.elem = elem
        self.name = 'set<%s>' % elem.name

    def sort(self):
        return z3.ArraySort(self.elem.sort(), z3.BoolSort())


class DictT(T):
    """A mapping (insertion order is not modelled)."""
    def __init__(self, key, val, default=None):
        self.key = key
        self.val = val
        self.default = default
        self.name = 'dict<%s,%s%s>' % (
            key.name, val.name, ',default' if default else '')

    def dt(self):
        if self.name not in _DT:
            d = z3.Datatype('D_' + _mangle(self.name))
            d.declare('mk', ('has', z3.ArraySort(self.key.sort(), z3.BoolSort())),
                      ('val', z3.ArraySort(self.key.sort(), self.val.sort())))
            _DT[self.name] = d.create()
        return _DT[self.name]

    def sort(self):
        return self.dt()


class TupT(T):
    def __init__(self, *elems):
        self.elems = list(elems)
        self.name = 'tup<%s>' % ','.join(e.name for e in elems)

    def dt(self):
        if self.name not in _DT:
            d = z3.Datatype('T_' + _mangle(self.name))
            d.declare('mk', *[('f%d' % i, e.sort()) for i, e in enumerate(self.elems)])
            _DT[self.name] = d.create()
        return _DT[self.name]

    def sort(self):
        return self.dt()


class StructT(TupT):
    """A list of a fixed number of items, each with its type."""
    def __init__(self, *elems):
        super().__init__(*elems)
        self.name = 'struct<%s>' % ','.join(e.name for e in elems)


class RecT(T):
    """A dict with a fixed set of constant string keys (a record)."""
    def __init__(self, **fields):
        self.fields = dict(sorted(fields.items()))
        self.name = 'rec<%s>' % ','.join(
            '%s:%s' % (k, v.name) for k, v in self.fields.items())

    def dt(self):
        if self.name not in _DT:
            d = z3.Datatype('R_' + _mangle(self.name))
            d.declare('mk', *[('r_%s' % k, v.sort()) for k, v in self.fields.items()])
            _DT[self.name] = d.create()
        return _DT[self.name]

    def sort(self):
        return self.dt()


class UnionT(T):
    def __init__(self, *alts):
        flat = []
        for a in alts:
            for b in (a.alts if isinstance(a, UnionT) else [a]):
                if b not in flat:
                    flat.append(b)
        if STR in flat and CHAR in flat:
            flat.remove(CHAR)
        if INT in flat and BYTE in flat:
            flat.remove(BYTE)
        self.alts = sorted(flat, key=lambda t: t.name)
        self.name = 'union<%s>' % '|'.join(a.name for a in self.alts)

    def dt(self):
        if self.name not in _DT:
            d = z3.Datatype('U_' + _mangle(self.name))
            for i, a in enumerate(self.alts):
                if a in (NONE, UNBOUND, BOT):
                    d.declare('c%d' % i)
                else:
                    d.declare('c%d' % i, ('v%d' % i, a.sort()))
            _DT[self.name] = d.create()
        return _DT[self.name]

    def sort(self):
        return self.dt()

    def tester(self, term, alt):
        i = self.alts.index(alt)
        return self.dt().recognizer(i)(term)

    def proj(self, term, alt):
        i = self.alts.index(alt)
        return self.dt().accessor(i, 0)(term)

    def inj(self, alt, term):
        i = self.alts.index(alt)
        c = self.dt().constructor(i)
        if alt in (NONE, UNBOUND, BOT):
            return c()
        return c(term)


def Opt(t):
    return UnionT(NONE, t)


def join(a, b):
    """Least type covering both."""
    if a == b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    pair = {a.name, b.name}
    if pair == {'str', 'char'}:
        return STR
    if pair == {'int', 'byte'}:
        return INT
    if isinstance(a, SeqT) and isinstance(b, SeqT) and a.kind == b.kind:
        return SeqT(join_elem(a.elem, b.elem), a.kind)
    if isinstance(a, TupT) and isinstance(b, TupT) and len(a.elems) == len(b.elems):
        if type(a) is type(b):
            return type(a)(*[join(x, y) for x, y in zip(a.elems, b.elems)])
    if isinstance(a, DictT) and isinstance(b, DictT):
        return DictT(join_elem(a.key, b.key), join_elem(a.val, b.val),
                     a.default or b.default)
    if isinstance(a, SetT) and isinstance(b, SetT):
        return SetT(join_elem(a.elem, b.elem))
    # several sequence alternatives in one union are merged
    alts = []
    for t in (a, b):
        for x in (t.alts if isinstance(t, UnionT) else [t]):
            for i, y in enumerate(alts):
                if (isinstance(x, SeqT) and isinstance(y, SeqT) and x.kind == y.kind) or \
                        (isinstance(x, DictT) and isinstance(y, DictT)):
                    alts[i] = join(x, y)
                    break
            else:
                alts.append(x)
    u = UnionT(*alts)
    return u.alts[0] if len(u.alts) == 1 else u


def join_elem(a, b):
    if a == BOT:
        return b
    if b == BOT:
        return a
    return join(a, b)


def _mangle(s):
    return ''.join(c if c.isalnum() else '_' for c in s) + '_' + \
        hashlib.md5(s.encode()).hexdigest()[:6]


# ---------------------------------------------------------------- spec fns

SPEC_DEFS = {}      # z3 decl name -> SpecFn


class SpecFn:
    def __init__(self, name, argtypes, rettype, unfold):
        self.name = name
        self.argtypes = argtypes
        self.rettype = rettype
        self.unfold = unfold              # list of z3 terms -> z3 term | None
        self.decl = z3.Function('spec_' + name, *[t.sort() for t in argtypes],
                                rettype.sort())
        self.cache = {}
        SPEC_DEFS['spec_' + name] = self

    def axioms(self, app):
        key = app.get_id()
        if key not in self.cache:
            args = [app.arg(i) for i in range(app.num_args())]
            ax = self.unfold(args)
            self.cache[key] = (app, [] if ax is None else
                               (ax if isinstance(ax, list) else [app == ax]))
        return self.cache[key][1]


# functions with axiom schemata over single applications (externals)
AXIOMS = {}         # decl name -> fn(app) -> [axioms]

_apps_cache = {}


def spec_apps(term):
    """All spec / axiomatised applications inside term (memoised)."""
    out = {}
    seen = set()
    stack = [term]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args():
                n = t.decl().name()
                if n in SPEC_DEFS or n in AXIOMS:
                    out[i] = t
            stack.extend(t.children())
    return out


PAIR_AXIOMS = []    # fn(list_of_apps) -> [axioms]; cross-application lemmas


def close_assertions(assertions, fuel):
    """Add `fuel` rounds of definitional unfoldings / axiom instances."""
    result = list(assertions)
    done = {}
    frontier = list(assertions)
    for _ in range(fuel):
        new = []
        for a in frontier:
            for i, app in spec_apps(a).items():
                if i in done:
                    continue
                done[i] = app
                n = app.decl().name()
                if n in SPEC_DEFS:
                    new.extend(SPEC_DEFS[n].axioms(app))
                if n in AXIOMS:
                    new.extend(AXIOMS[n](app))
        if not new:
            break
        result.extend(new)
        frontier = new
    if PAIR_AXIOMS and done:
        apps = list(done.values())
        for f in PAIR_AXIOMS:
            result.extend(f(apps))
    return result


# ---------------------------------------------------------------- queries

_cache = {}
Z3_TIMEOUT = 1500
CVC5_TIMEOUT = 8000


def _key(assertions):
    h = hashlib.sha1()
    for a in assertions:
        h.update(a.sexpr().encode())
        h.update(b'\n')
    return h.hexdigest()


def quick_check(assertions, timeout=250):
    """Feasibility: 'unsat' only if z3 says so quickly; no unfolding."""
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*assertions)
    t0 = time.time()
    r = s.check()
    STATS['z3_time'] += time.time() - t0
    return str(r)


def run_cvc5(assertions, timeout):
    s = z3.Solver()
    s.add(*assertions)
    txt = s.to_smt2()
    # z3's printer emits a few z3-only spellings
    txt = txt.replace('(_ char ', '(_ char ').replace('seq.nth_i', 'seq.nth')
    # beyond its ends nth is anything
    txt = txt.replace('seq.nth_u', 'seq.nth')
    txt = '(set-logic ALL)\n' + '\n'.join(
        l for l in txt.split('\n') if not l.startswith('(set-info')
        and not l.startswith('; '))
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    t0 = time.time()
    try:
        p = subprocess.run(['cvc5', '--strings-exp', '--tlimit=%d' % timeout, f.name],
                           capture_output=True, text=True,
                           timeout=timeout / 1000 + 5)
        out = p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
        if out not in ('sat', 'unsat', 'unknown'):
            if os.environ.get('PYVC_DEBUG'):
                print('CVC5:', p.stdout[:300], p.stderr[:300])
            out = 'unknown'
    except subprocess.TimeoutExpired:
        out = 'unknown'
    finally:
        STATS['cvc5_time'] += time.time() - t0
        os.unlink(f.name)
    return out


def check(assertions, fuel=2, z3_timeout=None, cvc5_timeout=None, want_model=False):
    """Returns (verdict, backend, model|None)."""
    z3_timeout = z3_timeout or Z3_TIMEOUT
    cvc5_timeout = CVC5_TIMEOUT if cvc5_timeout is None else cvc5_timeout
    assertions = resolved(assertions)
    key = _key(assertions) + str(fuel)
    if key in _cache and not want_model:
        STATS['cache_hits'] += 1
        return _cache[key] + (None,)
    STATS['queries'] += 1
    verdict, backend, model = 'unknown', '', None
    hard = False
    from . import rex
    if rex.unsat([z3.simplify(a) for a in assertions]):
        STATS['rex_unsat'] = STATS.get('rex_unsat', 0) + 1
        _cache[key] = ('unsat', 'derivatives')
        return 'unsat', 'derivatives', None
    last = None
    levels = []
    for f in range(0, fuel + 1):
        full = close_assertions(assertions, f)
        if last is not None and len(full) == len(last):
            break
        last = full
        loose = [opaque_regexes(z3.simplify(a)) for a in full]
        if all(a.eq(b) for a, b in zip(loose, full)):
            break
        r = _z3(loose, 200)[0]
        if r == 'unsat':
            STATS['z3_unsat'] += 1
            _cache[key] = ('unsat', 'z3')
            return 'unsat', 'z3', None
        if r == 'unknown':
            hard = True
            break
    last = None
    for f in range(0, fuel + 1):
        full = close_assertions(assertions, f)
        if last is not None and len(full) == len(last):
            break
        last = full
        levels.append(full)
        if hard and cvc5_timeout and run_cvc5(full, 500) == 'unsat':
            verdict, backend = 'unsat', 'cvc5'
            break
        r, m = _z3(full, 250)
        if r == 'unsat':
            verdict, backend = r, 'z3'
            break
        if r == 'sat':
            verdict, backend, model = r, 'z3', m
            continue
        verdict, backend, model = 'unknown', '', None
        if cvc5_timeout and not hard and run_cvc5(full, 700) == 'unsat':
            verdict, backend = 'unsat', 'cvc5'
            break
    if verdict == 'unknown':
        r, m = _z3(last, z3_timeout)
        if r != 'unknown':
            verdict, backend, model = r, 'z3', m
    if verdict == 'unknown' and cvc5_timeout:
        for full in levels[1:2] + levels[-1:]:
            r = run_cvc5(full, cvc5_timeout if full is last else cvc5_timeout / 2)
            if r == 'unsat' or (r == 'sat' and full is last):
                verdict, backend = r, 'cvc5'
                break
    if verdict == 'unknown' and small_model(last):
        verdict, backend = 'sat', 'z3'
    if verdict == 'unsat':
        STATS['z3_unsat' if backend == 'z3' else 'cvc5_unsat'] += 1
    elif verdict == 'sat':
        STATS['sat'] += 1
    else:
        STATS['unknown'] += 1
        d = os.environ.get('PYVC_DUMP')
        if d:
            s = z3.Solver()
            s.add(*last)
            with open('%s/q%d.smt2' % (d, STATS['unknown']), 'w') as fh:
                fh.write(s.to_smt2())
    _cache[key] = (verdict, backend)
    return verdict, backend, model


def resolved(assertions):
    """The same without the conditionals that the assertions decide."""
    ids = {a.get_id() for a in assertions}
    if len(assertions) < 2:
        return assertions
    known, seen, todo = [], set(), list(assertions)
    while todo:
        t = todo.pop()
        if t.get_id() in seen or z3.is_quantifier(t):
            continue
        seen.add(t.get_id())
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c = t.arg(0)
            parts = c.children() if z3.is_and(c) else [c]
            if all(p.get_id() in ids for p in parts):
                known.append((c, z3.BoolVal(True)))
        todo.extend(t.children())
    if not known:
        return assertions
    return [a if z3.is_and(a) or any(a.eq(c) for c, _ in known)
            else z3.simplify(z3.substitute(a, *known)) for a in assertions]


def small_model(assertions):
    """Is there a model where all sequences are short?

    (The solver often finds no model of a sequence of unknown length.)
    """
    seqs, seen, todo = {}, set(), list(assertions)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return False
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                z3.is_seq(t) and not t.is_string():
            seqs[t.get_id()] = t
        todo.extend(t.children())
    if not seqs:
        return False
    for n in (1, 2, 3):
        pairs = []
        for t in seqs.values():
            units = [z3.Unit(z3.Const('%s@%d' % (t.decl().name(), i),
                                      t.sort().basis())) for i in range(n)]
            pairs.append((t, units[0] if n == 1 else z3.Concat(*units)))
        if _z3([z3.simplify(z3.substitute(a, pairs)) for a in assertions],
               300)[0] == 'sat':
            return True
    return False


_opaque = {}
_same = {}
_opaque_keep = []


def opaque_regexes(t):
    """The same with memberships of regular languages left uninterpreted
    (which only allows more)."""
    i = t.get_id()
    if i in _opaque:
        return _opaque[i]
    r = t
    if z3.is_app(t) and t.num_args():
        d = t.decl()
        if d.kind() == z3.Z3_OP_SEQ_IN_RE:
            f = z3.Function('in_re_%d' % t.arg(1).get_id(), t.arg(0).sort(),
                            z3.BoolSort())
            _opaque_keep.append(t.arg(1))
            r = f(opaque_regexes(t.arg(0)))
        else:
            ch = [opaque_regexes(c) for c in t.children()]
            if any(not a.eq(b) for a, b in zip(ch, t.children())):
                k = d.kind()
                r = (z3.And(*ch) if k == z3.Z3_OP_AND else
                     z3.Or(*ch) if k == z3.Z3_OP_OR else
                     z3.Concat(*ch) if k == z3.Z3_OP_SEQ_CONCAT else d(*ch))
    elif z3.is_quantifier(t):
        r = t
    _opaque[i] = r
    _opaque_keep.append(t)
    return r


def same(a, b, timeout=400):
    """Are two terms equal for all values of what they mention?"""
    if a.eq(b):
        return True
    if a.sort() != b.sort():
        return False
    key = a.get_id(), b.get_id()
    if key not in _same:
        _same[key] = _z3([opaque_regexes(z3.simplify(a != b))],
                         timeout)[0] == 'unsat'
        _opaque_keep.extend((a, b))
    return _same[key]


def valid_now(t, timeout=300):
    """Valid without any assumption (cheaply decided)."""
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(z3.Not(t))
    return s.check() == z3.unsat


def mentions(t, c):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.eq(c):
            return True
        if x.get_id() not in seen:
            seen.add(x.get_id())
            todo.extend(x.children())
    return False


def _z3(full, timeout):
    s = z3.Solver()
    s.set('timeout', int(timeout))
    s.add(*full)
    t0 = time.time()
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = 'unknown'
    STATS['z3_time'] += time.time() - t0
    m = None
    if r == 'sat':
        try:
            m = s.model()
        except z3.Z3Exception:
            m = None
    return r, m


# ------------------------------------------------------------ tidying terms

_has_nth = {}
_hidden = {}


def nths(t, out):
    """The elements of sequences in t, innermost first."""
    k = t.get_id()
    if k in _has_nth:
        found = _has_nth[k][1]
    else:
        inner = {}
        for c in t.children():
            nths(c, inner)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_NTH:
            inner[k] = t
        found = inner
        _has_nth[k] = (t, found)
    out.update(found)


def tidy(t):
    """z3.simplify, which would turn each element of a sequence into a case
    distinction and move that outwards."""
    found = {}
    nths(t, found)
    if not found:
        return z3.simplify(t)
    back = []
    while found:
        # innermost elements first, so that outer ones can still be found
        pairs = []
        for e in found.values():
            sub = {}
            for c in e.children():
                nths(c, sub)
            if not sub:
                s = e.arg(0)
                key = s.sort().sexpr()
                if key not in _hidden:
                    _hidden[key] = z3.Function(
                        'nth_%d' % len(_hidden), s.sort(), z3.IntSort(),
                        e.sort())
                pairs.append((e, _hidden[key](s, e.arg(1))))
        t = z3.substitute(t, pairs)
        found = {}
        nths(t, found)
    t = z3.simplify(t)
    return unhide(t, {})


_names = {}


def unhide(t, memo):
    names = {f.get_id(): f for f in _hidden.values()}

    def go(t):
        k = t.get_id()
        if k in memo:
            return memo[k]
        r = t
        if z3.is_app(t) and t.num_args():
            kids = [go(c) for c in t.children()]
            if t.decl().get_id() in names:
                r = kids[0][kids[1]]
            elif any(not a.eq(b) for a, b in zip(kids, t.children())):
                r = t.decl()(*kids)
        memo[k] = r
        return r
    return go(t)
