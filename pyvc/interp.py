"""Symbolic interpreter / verification condition generator for Python.

The interpreter executes the *real* abstract syntax of the functions in /repo
(re-read on every run).  Paths are explored by replaying decision prefixes, so
the state of a path is ordinary Python data.  Loops over symbolic data are cut:
everything the loop writes is forgotten, candidate invariants are proved on
entry and preserved by an arbitrary iteration (Houdini style: candidates that
are not inductive are dropped, and everything is re-proved without them).
"""
import ast
import builtins
import inspect
import time
import types

import z3

from . import rex, smt
from .smt import (INT, BOOL, STR, CHAR, BYTES, BYTE, NONE, UNBOUND, BOT, ObjT,
                  SeqT, SetT, DictT, TupT, UnionT, join, join_elem)
from .vals import *     # noqa
from .vals import decode_zstr   # noqa


POISON = smt.Prim('poison', z3.IntSort())


class Poison:
    """A leftover local of an unmodelled type; it may not be read."""


class Restart(Exception):
    pass


class PathEnd(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


# ---------------------------------------------------------------- sources

_ast_cache = {}


def module_ast(filename):
    if filename not in _ast_cache:
        with open(filename, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src)
        index = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                lines = [node.lineno]
                for d in getattr(node, 'decorator_list', []):
                    lines.append(d.lineno)
                index.setdefault(min(lines), []).append(node)
        _ast_cache[filename] = (tree, index)
    return _ast_cache[filename]


def func_node(f):
    code = f.__code__
    tree, index = module_ast(code.co_filename)
    cands = [n for n in index.get(code.co_firstlineno, [])
             if getattr(n, 'name', '<lambda>') == code.co_name]
    if len(cands) > 1:
        names = code.co_varnames[:code.co_argcount]
        cands = [n for n in cands
                 if tuple(a.arg for a in n.args.args) == tuple(names)] or cands
        # distinguish by column when available
        pos = next(iter(code.co_positions()), None)
        if pos and len(cands) > 1:
            best = [n for n in cands if n.body and isinstance(n, ast.Lambda)
                    and n.body.lineno == pos[0]]
            cands = best or cands
    if not cands:
        raise Unsupported('no source for %r' % (f,))
    return cands[0]


def is_generator(node):
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                          ast.GeneratorExp)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


_gen_cache = {}


def is_gen_cached(node):
    if node not in _gen_cache:
        _gen_cache[node] = is_generator(node)
    return _gen_cache[node]


# ---------------------------------------------------------------- frames

class Frame:
    def __init__(self, fn, depth):
        self.fn = fn
        self.locals = {}
        self.depth = depth
        self.on_yield = None
        self.loop_ordinal = 0
        self.birth = 0
        self.uid = None

    def __repr__(self):
        return 'Frame<%s>' % (self.fn.name,)


TRACES = {'yield': 'yielded', 'msg': 'reported'}


class Inside(Exception):
    """A path leads into a container without a concrete spine."""


class LoopInfo:
    def __init__(self):
        self.havoc = {}          # path tuple -> type
        self.dropped = set()     # indices of dropped candidates
        self.kept = set()
        self.why = {}


class Obligation:
    def __init__(self, name, verdict, backend='', model=None, detail=''):
        self.name = name
        self.verdict = verdict   # discharged | refuted | unknown
        self.backend = backend
        self.model = model
        self.detail = detail


MAX_UNROLL = 64
MAX_DEPTH = 60


class Engine:
    def __init__(self, contracts=None, env=None, fuel=3, deadline=None,
                 debug=False):
        self.contracts = contracts or {}     # (module, qualname) -> contract
        self.env = env or {}
        self.fuel = fuel
        self.deadline = deadline
        self.debug = debug
        self.loops = {}                      # loop key -> LoopInfo
        self.obligations = []
        self.schemas = {}                    # class -> {field: type}
        self.class_models = {}               # class -> model object
        self.restarts = 0
        self.inlined = set()
        self.used_contracts = set()
        self.paths = 0
        self.assumed = set()
        self.fold = None
        self.cands = []
        self.on_call = None
        self.feas_timeout = 120

    # ------------------------------------------------------ exploration

    def explore(self, thunk):
        """Run thunk on every feasible path; restarts on loop refinement."""
        while True:
            self.obligations = []
            self.paths = 0
            try:
                self._explore(thunk)
                return
            except Restart:
                self.restarts += 1
                # what was dropped while less was known to change in a loop
                # may yet hold
                shape = {k: dict(i.havoc) for k, i in self.loops.items()}
                if shape != getattr(self, 'shape', None):
                    self.shape = shape
                    for i in self.loops.values():
                        i.dropped.clear()
                if self.restarts > 400:
                    raise Unsupported('too many loop refinements')

    def _explore(self, thunk):
        self.work = [[]]
        while self.work:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time budget exhausted')
            self.prefix = self.work.pop()
            self.pos = 0
            self.decisions = []
            self.pc = []
            self.solver = z3.Solver()
            self.solver.set('timeout', self.feas_timeout)
            self.names = {}
            self.events = []
            self.trace = None
            self.in_definition = False
            self.births = 0
            self.frames = []
            self.active = []                 # active cut loops
            self.pure = 0
            self.sub = None
            self.in_spec = False
            self.refs = {}
            self.touched = {}
            self.lasts = {}
            self.obl_seen = 0
            self.paths += 1
            if self.paths > 4000:
                raise Unsupported('too many paths')
            try:
                thunk()
            except (Infeasible, PathEnd):
                pass

    def birth(self):
        self.births += 1
        return self.births

    def fresh_name(self, hint):
        n = self.names.get(hint, 0)
        self.names[hint] = n + 1
        return '%s!%d' % (hint, n)

    def fresh(self, t, hint='v'):
        """A fresh symbolic value of type t."""
        if t == POISON:
            return Poison()
        if t == NONE:
            return None
        if t == UNBOUND:
            return MISSING
        if t == BOT:
            raise Unsupported('fresh value of unknown type')
        if type(t) is TupT:
            return tuple(self.fresh(e, hint) for e in t.elems)
        z = z3.Const(self.fresh_name(hint), t.sort())
        for c in self.type_facts(z, t):
            self.assume(c)
        return from_term_raw(z, t, self)

    def type_facts(self, z, t):
        if t == CHAR:
            return [z3.Length(z) == 1]
        if t == BYTE:
            return [z >= 0, z <= 255]
        if t == BYTES or (isinstance(t, SeqT) and t.elem == BYTE):
            return []
        if isinstance(t, UnionT):
            out = []
            for a in t.alts:
                if a in (CHAR, BYTE) or isinstance(a, ObjT):
                    p = t.proj(z, a)
                    fs = self.type_facts(p, a)
                    if fs:
                        out.append(z3.Implies(t.tester(z, a), z3.And(*fs)))
            return out
        if isinstance(t, ObjT):
            f = self.env.get(('facts', t.cls))
            return f(self, z) if f else []
        return []

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise Infeasible()
            return
        cond = smt.tidy(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise Infeasible()
        if self.sub is not None:
            self.sub.pc.append(cond)
            return
        self.pc.append(cond)
        self.solver.add(cond)

    def define(self, cond):
        """Assume what holds by definition, whatever was decided."""
        sub, self.sub = self.sub, None
        try:
            self.assume(cond)
        finally:
            self.sub = sub

    def branch(self, cond):
        """Decide a symbolic condition; forks."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.sub is not None:
            return self.sub.branch(cond)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            t_ok = self.feasible(cond)
            f_ok = self.feasible(z3.Not(cond))
            if t_ok and f_ok:
                self.work.append(self.decisions + [False])
                d = True
            elif t_ok:
                d = True
            elif f_ok:
                d = False
            else:
                raise Infeasible()
        self.pos += 1
        self.decisions.append(d)
        c = cond if d else z3.Not(cond)
        self.pc.append(c)
        self.solver.add(c)
        return d

    feasible_cache = {}

    def feasible(self, cond, timeout=None):
        pc = self.all_pc()
        mine = rex.component(pc, cond)
        key = (cond.get_id(), frozenset(p.get_id() for p in mine))
        r = self.feasible_cache.get(key)
        if r is None:
            r = self.feasible_now(pc, mine, cond, timeout), cond, mine
            self.feasible_cache[key] = r
        return r[0]

    def feasible_now(self, pc, mine, cond, timeout):
        r = rex.decide(mine, cond)
        if r is not None:
            return r
        light = [p for p in mine if not rex.heavy(p)]
        if len(light) < len(mine) or rex.heavy(cond):
            if rex.unsat(mine + [cond]):
                return False
            if rex.heavy(cond):
                return True
            mine = light
        if timeout or len(mine) < len(pc) * .8 or len(light) < len(pc):
            solver = z3.Solver()
            solver.set('timeout', timeout or self.feas_timeout)
            solver.add(*mine)
        else:
            solver = self.solver
        solver.push()
        try:
            solver.add(cond)
            t0 = time.time()
            r = solver.check()
            smt.STATS['z3_time'] += time.time() - t0
            if r == z3.unknown and rex.unsat(mine + [cond]):
                return False
            return r != z3.unsat
        except z3.Z3Exception:
            return True
        finally:
            solver.pop()

    def entails(self, cond):
        """Cheap entailment by the path condition (for simplification)."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return not self.feasible(z3.Not(cond), 200 if self.sub else None)

    def all_pc(self):
        pcs = list(self.pc)
        chain = []
        s = self.sub
        while s is not None:
            chain.append(s.pc)
            s = s.outer
        for c in reversed(chain):
            pcs.extend(c)
        return pcs

    def choose(self, n):
        """Non-deterministic choice without a condition."""
        if self.sub is not None:
            raise Unsupported('choice in a pure context')
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            for i in range(n - 1, 0, -1):
                self.work.append(self.decisions + [i])
            d = 0
        self.pos += 1
        self.decisions.append(d)
        return d

    # -------------------------------------------------------- obligations

    def prove(self, cond, name, detail='', assume_after=True, weak=False):
        """Record and discharge one obligation on this path."""
        if self.sub is not None:
            raise Unsupported('obligation in a pure context')
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        if self.pos < len(self.prefix):
            # already decided on the sibling path this one forked from
            if assume_after:
                self.assume(cond)
            return 'replayed'
        verdict, backend, model = self.valid(cond)
        if weak and verdict == 'refuted':
            verdict = 'unknown'
        self.obligations.append(Obligation(name, verdict, backend, model, detail))
        if self.debug and verdict != 'discharged':
            print('   OBLIGATION', name, verdict, detail)
            if verdict == 'refuted' or self.debug > 1:
                print('      cond', str(z3.simplify(cond))[:600])
                for p in self.pc[-12:] if self.debug > 1 else ():
                    print('      pc', str(p)[:200])
        if assume_after and verdict != 'discharged':
            try:
                self.assume(cond)
            except Infeasible:
                raise PathEnd()
        elif assume_after:
            self.assume(cond)
        return verdict

    def valid(self, cond):
        cond = smt.tidy(cond)
        if z3.is_true(cond):
            return 'discharged', 'simplifier', None
        asserts = self.all_pc() + [z3.Not(cond)]
        r, backend, model = smt.check(asserts, fuel=self.fuel, want_model=False)
        if r == 'unsat':
            return 'discharged', backend, None
        if r == 'sat':
            return 'refuted', backend, model
        return 'unknown', backend, None

    # ------------------------------------------------------------- frames

    @property
    def frame(self):
        return self.frames[-1]

    def write_local(self, frame, name, value):
        for lp in self.active:
            if frame.birth < lp.birth or (frame is lp.frame):
                lp.note_local(frame, name)
        frame.locals[name] = value

    def note_write(self, obj, field=None):
        """A heap object is about to be modified."""
        if getattr(obj, 'frozen', False) and (
                field is None or field in self.schema(obj.cls)):
            raise Unsupported('write to an object stored in a container')
        if self.sub is not None and (obj.birth or 0) <= self.sub.birth0:
            raise Unsupported('side effect in a pure context')
        for lp in self.active:
            if obj.birth is None or obj.birth <= lp.birth:
                lp.note_object(obj, field)

    def emit(self, event):
        """Something observable happens."""
        t = self.trace
        if t is not None and event[0] in t:
            v = event[1] if event[0] == 'yield' else \
                self.env['report'](self, *event[1:])
            self.models.list_append(t[event[0]], v)
            return
        self.events.append(event)

    def widen(self, obj, t):
        """The contents of obj need a wider type: start over with it."""
        for lp in self.active:
            for path, old in list(lp.info.havoc.items()):
                if old in (None, POISON):
                    continue
                try:
                    if lp.read(path) is obj and join(old, t) != old:
                        lp.info.havoc[path] = join(old, t)
                        raise Restart()
                except (KeyError, IndexError, Inside):
                    continue

    # ---------------------------------------------------------- evaluation

    def lookup(self, name, frame):
        if name in frame.locals:
            v = frame.locals[name]
            if v is MISSING:
                raise PyExc(UnboundLocalError(name), name)
            if isinstance(v, Poison):
                raise Unsupported('value of %s left over from an earlier '
                                  'iteration' % name)
            if isinstance(v, Sym) and isinstance(v.t, UnionT) and UNBOUND in v.t.alts:
                if self.branch(v.t.tester(v.z, UNBOUND)):
                    raise PyExc(UnboundLocalError(name), name)
                rest = [a for a in v.t.alts if a != UNBOUND]
                if len(rest) == 1:
                    nv = from_term(v.t.proj(v.z, rest[0])
                                   if rest[0] != NONE else None, rest[0], self) \
                        if rest[0] != NONE else None
                    return nv
            return v
        fn = frame.fn
        if fn is not None:
            if name in assigned_names(fn.node):
                raise PyExc(UnboundLocalError(name), name)
            f = fn.closure
            while f is not None:
                if name in f.locals:
                    v = f.locals[name]
                    if v is MISSING:
                        raise PyExc(NameError(name), name)
                    return v
                f = f.fn.closure if f.fn is not None else None
            if fn.real is not None and fn.real.__closure__:
                for n, c in zip(fn.real.__code__.co_freevars,
                                fn.real.__closure__):
                    if n == name:
                        return c.cell_contents
            if name in fn.globs:
                return fn.globs[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyExc(NameError(name), name)

    def ev(self, node, frame):
        m = getattr(self, 'ev_' + node.__class__.__name__, None)
        if m is None:
            raise Unsupported('expression %s' % node.__class__.__name__)
        return m(node, frame)

    def ev_Constant(self, node, frame):
        return node.value

    def ev_Name(self, node, frame):
        return self.lookup(node.id, frame)

    def ev_Tuple(self, node, frame):
        out = []
        for e in node.elts:
            if isinstance(e, ast.Starred):
                out.extend(self.concrete_items(self.ev(e.value, frame)))
            else:
                out.append(self.ev(e, frame))
        return tuple(out)

    def ev_List(self, node, frame):
        return self.mklist(list(self.ev_Tuple(node, frame)))

    def mklist(self, items):
        l = SList(items=list(items))
        l.birth = self.birth()
        return l

    def ev_Set(self, node, frame):
        items = self.ev_Tuple(node, frame)
        if is_native(items):
            s = SSet(items=set(items))
            s.birth = self.birth()
            return s
        s = SSet(items=set())
        s.birth = self.birth()
        for i in items:
            self.models.set_method(s, 'add', [i])
        return s

    def ev_Dict(self, node, frame):
        d = SDict(items={})
        d.birth = self.birth()
        for k, v in zip(node.keys, node.values):
            if k is None:
                raise Unsupported('dict unpacking')
            kk = self.ev(k, frame)
            vv = self.ev(v, frame)
            if not is_native(kk):
                self.models.dict_set(d, kk, vv)
            else:
                d.items[kk] = vv
        return d

    def ev_IfExp(self, node, frame):
        if self.truth(self.ev(node.test, frame)):
            return self.ev(node.body, frame)
        return self.ev(node.orelse, frame)

    def ev_BoolOp(self, node, frame):
        isand = isinstance(node.op, ast.And)
        v = None
        for i, e in enumerate(node.values):
            v = self.ev(e, frame)
            if i == len(node.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v
            if not isand and t:
                return v
        return v

    def ev_UnaryOp(self, node, frame):
        v = self.ev(node.operand, frame)
        if isinstance(node.op, ast.Not):
            if isinstance(v, Sym) and v.t == BOOL:
                return from_term(z3.Not(v.z), BOOL)
            return not self.truth(v)
        v = self.force(v)
        if isinstance(node.op, ast.USub):
            if isinstance(v, Sym) and v.t in (INT, BYTE):
                return Sym(-v.z, INT)
            return -v
        raise Unsupported('unary op')

    def ev_Lambda(self, node, frame):
        defaults = [self.ev(d, frame) for d in node.args.defaults]
        return FuncVal(node, frame.fn.globs, frame, '<lambda>', defaults,
                       owner=frame.fn.owner)

    def ev_JoinedStr(self, node, frame):
        parts = []
        for p in node.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.ev(p.value, frame)
                parts.append(self.models.to_repr(v) if p.conversion == 114
                             else self.models.to_str(v))
        return self.models.concat(parts)

    def ev_Attribute(self, node, frame):
        return self.getattr(self.ev(node.value, frame), node.attr)

    def ev_Compare(self, node, frame):
        left = self.ev(node.left, frame)
        res = None
        for op, r in zip(node.ops, node.comparators):
            right = self.ev(r, frame)
            c = self.compare(op, left, right)
            if len(node.ops) == 1:
                return c
            if res is None:
                res = c
            else:
                res = self.and_(res, c)
            if res is False:
                return False
            left = right
        return res

    def and_(self, a, b):
        if isinstance(a, bool):
            return b if a else False
        if isinstance(b, bool):
            return a if b else False
        return from_term(z3.And(a.z, b.z), BOOL)

    def or_(self, a, b):
        if isinstance(a, bool):
            return True if a else b
        if isinstance(b, bool):
            return True if b else a
        return from_term(z3.Or(a.z, b.z), BOOL)

    def not_(self, a):
        if isinstance(a, bool):
            return not a
        return from_term(z3.Not(a.z), BOOL)

    def compare(self, op, a, b):
        M = self.models
        if isinstance(op, ast.Eq):
            return M.eq(a, b)
        if isinstance(op, ast.NotEq):
            return M.ne(a, b)
        if isinstance(op, ast.Is):
            return M.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.not_(M.is_(a, b))
        if isinstance(op, ast.In):
            return M.contains(b, a)
        if isinstance(op, ast.NotIn):
            return self.not_(M.contains(b, a))
        return M.order(op, a, b)

    def ev_BinOp(self, node, frame):
        a = self.ev(node.left, frame)
        b = self.ev(node.right, frame)
        return self.models.binop(node.op, a, b)

    def ev_Subscript(self, node, frame):
        obj = self.ev(node.value, frame)
        if isinstance(node.slice, ast.Slice):
            s = node.slice
            lo = self.ev(s.lower, frame) if s.lower else None
            hi = self.ev(s.upper, frame) if s.upper else None
            st = self.ev(s.step, frame) if s.step else None
            return self.models.getslice(obj, lo, hi, st)
        return self.models.getitem(obj, self.ev(node.slice, frame))

    def ev_Slice(self, node, frame):
        raise Unsupported('slice')

    def ev_NamedExpr(self, node, frame):
        v = self.ev(node.value, frame)
        self.write_local(frame, node.target.id, v)
        return v

    def ev_ListComp(self, node, frame):
        return self.models.listcomp(node, frame)

    def ev_SetComp(self, node, frame):
        return self.models.setcomp(node, frame)

    def ev_DictComp(self, node, frame):
        raise Unsupported('dict comprehension')

    def ev_GeneratorExp(self, node, frame):
        return GenExp(node, frame)

    def ev_Yield(self, node, frame):
        v = self.ev(node.value, frame) if node.value else None
        f = frame
        if f.on_yield is None:
            raise Unsupported('yield outside a generator')
        f.on_yield(v)
        return None

    def ev_YieldFrom(self, node, frame):
        it = self.ev(node.value, frame)
        self.iterate(it, frame.on_yield, frame, node)
        return None

    def ev_Call(self, node, frame):
        # zero-argument super()
        if isinstance(node.func, ast.Name) and node.func.id == 'super' \
                and not node.args:
            fn = frame.fn
            f = frame
            while fn.owner is None and fn.closure is not None:
                f = fn.closure
                fn = f.fn
            first = fn.node.args.args[0].arg
            return SuperVal(fn.owner, f.locals[first])
        fn = self.ev(node.func, frame)
        args = []
        for a in node.args:
            if isinstance(a, ast.Starred):
                args.extend(self.concrete_items(self.ev(a.value, frame)))
            else:
                args.append(self.ev(a, frame))
        kwargs = {}
        for k in node.keywords:
            if k.arg is None:
                d = self.ev(k.value, frame)
                if isinstance(d, SDict) and d.concrete:
                    kwargs.update(d.items)
                elif isinstance(d, dict):
                    kwargs.update(d)
                else:
                    raise Unsupported('symbolic ** arguments')
            else:
                kwargs[k.arg] = self.ev(k.value, frame)
        return self.call(fn, args, kwargs, node)

    def concrete_items(self, v):
        v = self.force(v)
        if isinstance(v, SList) and v.concrete:
            return list(v.items)
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, str):
            return list(v)
        raise Unsupported('star argument of symbolic length')

    # ---------------------------------------------------------------- calls

    def call(self, fn, args, kwargs=None, node=None):
        kwargs = kwargs or {}
        if len(self.frames) > MAX_DEPTH:
            raise Unsupported('call depth')
        if isinstance(fn, Bound):
            return self.call(fn.func, [fn.self_] + list(args), kwargs, node)
        if isinstance(fn, types.MethodType):
            return self.call(fn.__func__, [fn.__self__] + list(args), kwargs, node)
        if isinstance(fn, staticmethod):
            return self.call(fn.__func__, args, kwargs, node)
        if isinstance(fn, Method):
            return self.models.call_method(fn.obj, fn.name, list(args), kwargs)
        h = self.env.get(('call', fn)) if is_hashable(fn) else None
        if h is not None:
            return h(self, *args, **kwargs)
        if isinstance(fn, smt.SpecFn):
            return self.models.apply_spec(fn, args)
        if hasattr(fn, '__specfn__'):
            return self.models.apply_spec(fn.__specfn__, args)
        if hasattr(fn, '__sym__'):
            return fn.__sym__(self, *args, **kwargs)
        if isinstance(fn, FuncVal):
            return self.call_func(fn, args, kwargs)
        if isinstance(fn, types.FunctionType):
            c = self.contract_for(fn)
            if c is not None:
                return c.apply(self, args, kwargs)
            if self.interpretable(fn):
                return self.call_func(self.wrap(fn), args, kwargs)
        if isinstance(fn, type):
            return self.models.construct(fn, args, kwargs)
        if isinstance(fn, SObj):
            m = class_lookup(fn.cls, '__call__')
            if m is MISSING:
                raise PyExc(TypeError('not callable'))
            return self.call(m, [fn] + list(args), kwargs, node)
        return self.models.call_builtin(fn, list(args), kwargs)

    def contract_for(self, fn):
        key = (fn.__module__, fn.__qualname__)
        c = self.contracts.get(key)
        if c is None or c is self.env.get('root') and not self.frames:
            return None
        if c.applicable is not None and not c.applicable(self):
            return None
        return c

    def interpretable(self, fn):
        m = fn.__module__ or ''
        return m.split('.')[0] in self.env.get(
            'modules', ('asterisklint', 'contracts', 'pyvc'))

    def wrap(self, fn, owner=None):
        node = func_node(fn)
        self.inlined.add((fn.__module__, fn.__qualname__))
        return FuncVal(node, fn.__globals__, None, fn.__qualname__,
                       fn.__defaults__ or (), fn.__kwdefaults__ or {},
                       owner=owner or self.owner_of(fn), real=fn)

    def wrap_quiet(self, fn):
        node = func_node(fn)
        return FuncVal(node, fn.__globals__, None, fn.__qualname__,
                       fn.__defaults__ or (), fn.__kwdefaults__ or {},
                       owner=self.owner_of(fn), real=fn)

    def owner_of(self, fn):
        if fn.__closure__:
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                if n == '__class__':
                    return c.cell_contents
        return None

    def bind(self, fn, args, kwargs):
        a = fn.node.args
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + \
            [x.arg for x in a.args]
        loc = {}
        args = list(args)
        if len(args) > len(names):
            if a.vararg is None:
                raise PyExc(TypeError('%s() takes %d positional arguments' %
                                      (fn.name, len(names))), 'call')
            loc[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            loc[a.vararg.arg] = ()
        for n, v in zip(names, args):
            loc[n] = v
        kw = dict(kwargs)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                if n in loc:
                    raise PyExc(TypeError('multiple values for %s' % n))
                loc[n] = kw.pop(n)
        nd = len(fn.defaults)
        for i, n in enumerate(names):
            if n not in loc:
                j = i - (len(names) - nd)
                if j >= 0:
                    loc[n] = fn.defaults[j]
                else:
                    raise PyExc(TypeError('%s() missing argument %r' %
                                          (fn.name, n)), 'call')
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in loc:
                if x.arg in fn.kwdefaults:
                    loc[x.arg] = fn.kwdefaults[x.arg]
                elif d is not None:
                    loc[x.arg] = self.ev(d, Frame(fn, 0))
                else:
                    raise PyExc(TypeError('missing keyword argument'))
        if kw:
            if a.kwarg is None:
                raise PyExc(TypeError('%s() got an unexpected keyword argument %r'
                                      % (fn.name, next(iter(kw)))), 'call')
        if a.kwarg is not None:
            d = SDict(items=kw)
            d.birth = self.birth()
            loc[a.kwarg.arg] = d
        return loc

    def call_func(self, fn, args, kwargs):
        loc = self.bind(fn, args, kwargs)
        if isinstance(fn.node, ast.Lambda):
            frame = self.push(fn, loc)
            try:
                return self.ev(fn.node.body, frame)
            finally:
                self.frames.pop()
        if is_gen_cached(fn.node):
            def run(on_yield):
                frame = self.push(fn, dict(loc))
                # the consumer's frames stay below; yields call back
                frame.on_yield = on_yield
                try:
                    self.block(fn.node.body, frame)
                except ReturnEx:
                    pass
                finally:
                    self.frames.remove(frame)
            return GenVal(run)
        frame = self.push(fn, loc)
        try:
            self.block(fn.node.body, frame)
        except ReturnEx as r:
            return r.value
        finally:
            self.frames.pop()
        return None

    def push(self, fn, loc):
        frame = Frame(fn, len(self.frames))
        frame.locals = loc
        frame.birth = self.birth()
        self.frames.append(frame)
        return frame

    # ------------------------------------------------------------ attributes

    def getattr(self, obj, name):
        obj = self.force(obj)
        if isinstance(obj, SObj):
            h = self.env.get(('attr', obj.cls, name))
            if h is not None:
                return h(self, obj)
            if name in obj.fields:
                v = obj.fields[name]
                if v is MISSING:
                    raise PyExc(AttributeError(name), name)
                if isinstance(v, Sym) and isinstance(v.t, UnionT) and \
                        UNBOUND in v.t.alts:
                    if self.branch(v.t.tester(v.z, UNBOUND)):
                        raise PyExc(AttributeError(name), name)
                    rest = [a for a in v.t.alts if a != UNBOUND]
                    if len(rest) == 1:
                        return None if rest[0] == NONE else from_term(
                            v.t.proj(v.z, rest[0]), rest[0], self)
                return v
            if name in obj.lazy:
                spec = obj.lazy[name]
                v = spec(self, obj) if callable(spec) and not isinstance(
                    spec, smt.T) else self.fresh(spec, name)
                if hasattr(v, 'birth') and v.birth is None or \
                        isinstance(v, (SList, SDict, SSet, SObj)):
                    v.birth = obj.birth   # as old as its owner
                obj.fields[name] = v
                if getattr(obj, 'has_copy', False):
                    obj.__dict__.setdefault('initial', {})[name] = \
                        self.snapshot([v])[0]
                return v
            if name == '__class__':
                return obj.cls
            if name == '__dict__':
                raise Unsupported('__dict__')
            v = class_lookup(obj.cls, name)
            if v is MISSING:
                g = class_lookup(obj.cls, '__getattr__')
                if g is not MISSING:
                    return self.call(g, [obj, name])
                raise PyExc(AttributeError(name), name)
            return self.bind_attr(v, obj, obj.cls, name)
        if isinstance(obj, SuperVal):
            cls = obj.obj.cls if isinstance(obj.obj, SObj) else (
                obj.obj.t.cls if isinstance(obj.obj, Sym) else obj.obj)
            h = self.env.get(('super', name))
            if h is not None and name in getattr(h, 'names', (name,)):
                r = h(self, obj)
                if r is not None:
                    return r
            mro = cls.__mro__
            i = mro.index(obj.cls)
            for c in mro[i + 1:]:
                if name in c.__dict__:
                    return self.bind_attr(c.__dict__[name], obj.obj, cls, name)
            raise PyExc(AttributeError(name), name)
        if isinstance(obj, Sym) and isinstance(obj.t, ObjT):
            return self.ref_attr(obj, name)
        if isinstance(obj, type):
            h = self.env.get(('cattr', obj, name))
            if h is not None:
                return h(self)
            for c in obj.__mro__:
                if name in c.__dict__:
                    v = c.__dict__[name]
                    if isinstance(v, staticmethod):
                        return v.__func__
                    if isinstance(v, classmethod):
                        return Bound(v.__func__, obj)
                    return v
            try:
                return getattr(obj, name)
            except AttributeError:
                raise PyExc(AttributeError(name), name)
        if isinstance(obj, types.ModuleType):
            h = self.env.get(('mattr', obj, name))
            if h is not None:
                return h(self)
            try:
                return getattr(obj, name)
            except AttributeError:
                raise PyExc(AttributeError(name), name)
        return self.models.getattr_value(obj, name)

    def bind_attr(self, v, obj, cls, name):
        if isinstance(v, property):
            return self.call(v.fget, [obj])
        if isinstance(v, staticmethod):
            return v.__func__
        if isinstance(v, classmethod):
            return Bound(v.__func__, cls)
        if isinstance(v, (types.FunctionType, FuncVal)):
            return Bound(v, obj)
        if isinstance(v, (types.BuiltinFunctionType, types.WrapperDescriptorType,
                          types.MethodDescriptorType)):
            return Bound(v, obj)
        return v

    def field_fn(self, cls, name, t):
        owner = cls
        return z3.Function('fld_%s_%s' % (owner.__name__, name),
                           z3.IntSort(), t.sort())

    def ref_attr(self, obj, name):
        cls = obj.t.cls
        h = self.env.get(('attr', cls, name))
        if h is not None:
            return h(self, obj)
        sch = self.schema(cls)
        if name in sch:
            t = sch[name]
            if t == NONE:
                return None
            z = self.field_fn(cls, name, t)(obj.z)
            for c in self.type_facts(z, t):
                self.assume(c)
            return from_term(z, t, self)
        v = class_lookup(cls, name)
        if v is not MISSING:
            return self.bind_attr(v, obj, cls, name)
        raise PyExc(AttributeError(name), name)

    def schema(self, cls):
        out = {}
        for c in reversed(cls.__mro__):
            out.update(self.schemas.get(c, {}))
        return out

    def obj_ref(self, obj):
        """Identity term of a concrete object (which becomes immutable)."""
        if obj.ref is None or obj.ref[0] is not self.solver:
            root = obj
            while getattr(root, 'copy_of', None) is not None:
                root = root.copy_of
            ident = getattr(root, 'ident', None)
            first = ident is None or ident[0] is not self.solver
            if first:
                z = z3.Const(self.fresh_name('obj_' + obj.cls.__name__),
                             z3.IntSort())
                root.ident = (self.solver, z)
            else:
                z = ident[1]
            obj.ref = (self.solver, z)
            obj.frozen = True
            if not first:
                # a copy of an object that was stored: it must still agree
                for f, t in self.schema(obj.cls).items():
                    if (f in obj.fields or f in obj.lazy) and t != NONE:
                        self.prove(self.field_fn(obj.cls, f, t)(z) == to_term(
                            self.getattr(obj, f), t, self),
                            'stored object: %s' % f)
                return z
            sch = self.schema(obj.cls)
            for f, t in sch.items():
                if f in obj.fields or f in obj.lazy:
                    v = self.getattr(obj, f)
                    if t == NONE:
                        continue
                    self.define(self.field_fn(obj.cls, f, t)(z) ==
                                to_term(v, t, self))
        return obj.ref[1]

    def copy_set(self, s):
        t = typeof(s)
        return from_term(to_term(s, t, self), t, self)

    def write_set(self, s, new):
        self.note_write(s)
        s.items, s.z, s.elem, s.chars, s.filt = (
            new.items, new.z, new.elem, new.chars, new.filt)

    def setattr(self, obj, name, value):
        obj = self.force(obj)
        if isinstance(obj, SObj):
            v = class_lookup(obj.cls, name)
            if isinstance(v, property):
                raise Unsupported('property setter')
            self.note_write(obj, name)
            obj.fields[name] = value
            return
        if isinstance(obj, Sym):
            raise Unsupported('write to a symbolic object')
        h = self.env.get(('setcattr', obj, name)) \
            if isinstance(obj, type) else None
        if h is not None:
            return h(self, value)
        raise Unsupported('setattr on %r' % (obj,))

    # ------------------------------------------------------------- coercion

    def force(self, v):
        """Resolve a union to one of its alternatives (forks)."""
        while isinstance(v, Sym) and isinstance(v.t, UnionT):
            t = v.t
            alts = t.alts
            for i, a in enumerate(alts):
                if i == len(alts) - 1 or self.branch(t.tester(v.z, a)):
                    if i == len(alts) - 1:
                        # implied by the failed tests
                        pass
                    if a == NONE:
                        v = None
                    elif a == UNBOUND:
                        v = MISSING
                    else:
                        z = t.proj(v.z, a)
                        for c in self.type_facts(z, a):
                            self.assume(c)
                        v = from_term(z, a, self)
                    break
        return v

    def truth(self, v):
        v = self.force(v)
        if isinstance(v, bool):
            return v
        r = self.models.truth_term(v)
        if isinstance(r, bool):
            return r
        return self.branch(r)

    def coerce_seq(self, z, a, b):
        from .vals import coerce_term
        k = z.decl().kind()
        if k == z3.Z3_OP_SEQ_EMPTY:
            return z3.Empty(b.sort())
        if k == z3.Z3_OP_SEQ_UNIT:
            return z3.Unit(coerce_term(z.arg(0), a.elem, b.elem, self))
        if k == z3.Z3_OP_SEQ_CONCAT:
            return z3.Concat(*[self.coerce_seq(x, a, b)
                               for x in z.children()])
        if k == z3.Z3_OP_ITE:
            return z3.If(z.arg(0), self.coerce_seq(z.arg(1), a, b),
                         self.coerce_seq(z.arg(2), a, b))
        if not self.active:
            # the same elements, in the wider type
            f = z3.Function('widen_%s_%s' % (smt._mangle(a.name),
                                             smt._mangle(b.name)),
                            a.sort(), b.sort())
            self.define(z3.Length(f(z)) == z3.Length(z))
            return f(z)
        raise Unsupported('coerce sequence %s -> %s' % (a, b))

    # ------------------------------------------------------------ statements

    def block(self, stmts, frame):
        for s in stmts:
            m = getattr(self, 'st_' + s.__class__.__name__, None)
            if m is None:
                raise Unsupported('statement %s' % s.__class__.__name__)
            m(s, frame)

    def st_Expr(self, node, frame):
        if isinstance(node.value, ast.Constant):
            return
        if isinstance(node.value, ast.ListComp) and \
                len(node.value.generators) == 1:
            # for its side effects only: a loop
            gen = node.value.generators[0]
            loop = getattr(node, '_loop', None)
            if loop is None:
                todo = [ast.Expr(value=node.value.elt)]
                for test in reversed(gen.ifs):
                    todo = [ast.If(test=test, body=todo, orelse=[])]
                loop = node._loop = ast.fix_missing_locations(
                    ast.copy_location(ast.For(
                        target=gen.target, iter=gen.iter, body=todo,
                        orelse=[]), node))
            names = [n.id for n in ast.walk(gen.target)
                     if isinstance(n, ast.Name)]
            saved = {n: frame.locals[n] for n in names if n in frame.locals}
            self.st_For(loop, frame)
            for n in names:
                frame.locals.pop(n, None)
            frame.locals.update(saved)
            return
        self.ev(node.value, frame)

    def st_Pass(self, node, frame):
        pass

    def st_Return(self, node, frame):
        raise ReturnEx(self.ev(node.value, frame) if node.value else None)

    def st_Assign(self, node, frame):
        v = self.ev(node.value, frame)
        for t in node.targets:
            self.assign(t, v, frame)

    def st_AnnAssign(self, node, frame):
        if node.value is not None:
            self.assign(node.target, self.ev(node.value, frame), frame)

    def assign(self, target, v, frame):
        if isinstance(target, ast.Name):
            self.write_local(frame, target.id, v)
        elif isinstance(target, (ast.Tuple, ast.List)):
            items = self.models.unpack(v, len(target.elts))
            for t, i in zip(target.elts, items):
                self.assign(t, i, frame)
        elif isinstance(target, ast.Attribute):
            self.setattr(self.ev(target.value, frame), target.attr, v)
        elif isinstance(target, ast.Subscript):
            obj = self.ev(target.value, frame)
            if isinstance(target.slice, ast.Slice):
                s = target.slice
                lo = self.ev(s.lower, frame) if s.lower else None
                hi = self.ev(s.upper, frame) if s.upper else None
                self.models.setslice(obj, lo, hi, v)
            else:
                self.models.setitem(obj, self.ev(target.slice, frame), v)
        else:
            raise Unsupported('assignment target')

    def st_AugAssign(self, node, frame):
        t = node.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, frame)
            v = self.ev(node.value, frame)
            if isinstance(node.op, ast.Add) and isinstance(cur, SList):
                self.models.list_extend(cur, v)
                return
            self.write_local(frame, t.id, self.models.binop(node.op, cur, v))
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value, frame)
            cur = self.getattr(obj, t.attr)
            self.setattr(obj, t.attr, self.models.binop(
                node.op, cur, self.ev(node.value, frame)))
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, frame)
            idx = self.ev(t.slice, frame)
            cur = self.models.getitem(obj, idx)
            self.models.setitem(obj, idx, self.models.binop(
                node.op, cur, self.ev(node.value, frame)))

    def st_If(self, node, frame):
        if self.truth(self.ev(node.test, frame)):
            self.block(node.body, frame)
        else:
            self.block(node.orelse, frame)

    def st_Assert(self, node, frame):
        v = self.ev(node.test, frame)
        if not self.truth(v):
            raise PyExc(AssertionError('assert'), 'assert line %d' % node.lineno)

    def st_Raise(self, node, frame):
        if node.exc is None:
            raise self.current_exc[-1]
        v = self.ev(node.exc, frame)
        if isinstance(v, type):
            v = self.models.construct(v, [], {})
        raise PyExc(v, 'raise line %d' % node.lineno)

    def st_Delete(self, node, frame):
        for t in node.targets:
            if isinstance(t, ast.Name):
                self.write_local(frame, t.id, MISSING)
            elif isinstance(t, ast.Subscript):
                obj = self.ev(t.value, frame)
                if isinstance(t.slice, ast.Slice):
                    s = t.slice
                    self.models.setslice(
                        obj, self.ev(s.lower, frame) if s.lower else None,
                        self.ev(s.upper, frame) if s.upper else None,
                        self.mklist([]))
                else:
                    self.models.delitem(obj, self.ev(t.slice, frame))
            else:
                raise Unsupported('del')

    def st_Global(self, node, frame):
        raise Unsupported('global')

    def st_Nonlocal(self, node, frame):
        raise Unsupported('nonlocal')

    def st_Import(self, node, frame):
        for a in node.names:
            import importlib
            m = importlib.import_module(a.name)
            self.write_local(frame, a.asname or a.name.split('.')[0],
                             m if a.asname else importlib.import_module(
                                 a.name.split('.')[0]))

    def st_ImportFrom(self, node, frame):
        import importlib
        base = node.module or ''
        if node.level:
            pkg = frame.fn.globs.get('__package__') or \
                frame.fn.globs['__name__'].rpartition('.')[0]
            base = importlib.util.resolve_name('.' * node.level + base, pkg)
        m = importlib.import_module(base)
        for a in node.names:
            self.write_local(frame, a.asname or a.name, getattr(m, a.name))

    def st_FunctionDef(self, node, frame):
        if node.decorator_list:
            raise Unsupported('decorated local function')
        defaults = [self.ev(d, frame) for d in node.args.defaults]
        kwd = {a.arg: self.ev(d, frame) for a, d in
               zip(node.args.kwonlyargs, node.args.kw_defaults) if d is not None}
        self.write_local(frame, node.name, FuncVal(
            node, frame.fn.globs, frame, node.name, defaults, kwd))

    def st_Break(self, node, frame):
        raise BreakEx()

    def st_Continue(self, node, frame):
        raise ContinueEx()

    def st_With(self, node, frame):
        if len(node.items) != 1:
            raise Unsupported('with')
        cm = self.ev(node.items[0].context_expr, frame)
        h = self.env.get(('with', type(cm) if not isinstance(cm, SObj) else cm.cls))
        if h is None:
            raise Unsupported('with')
        v = h(self, cm, 'enter')
        if node.items[0].optional_vars is not None:
            self.assign(node.items[0].optional_vars, v, frame)
        try:
            self.block(node.body, frame)
        finally:
            h(self, cm, 'exit')

    current_exc = []

    def st_Try(self, node, frame):
        try:
            self._try(node, frame)
        except (Infeasible, PathEnd, Restart, Unsupported):
            raise
        except BaseException:
            if node.finalbody:
                self.block(node.finalbody, frame)
            raise
        else:
            if node.finalbody:
                self.block(node.finalbody, frame)

    def _try(self, node, frame):
        try:
            self.block(node.body, frame)
        except PyExc as e:
            for h in node.handlers:
                if h.type is None:
                    ok = True
                else:
                    ok = self.exc_match(e, self.ev(h.type, frame))
                if ok:
                    if h.name:
                        self.write_local(frame, h.name, e.exc)
                    self.current_exc.append(e)
                    try:
                        self.block(h.body, frame)
                    finally:
                        self.current_exc.pop()
                    return
            raise
        else:
            self.block(node.orelse, frame)

    def exc_match(self, e, t):
        if isinstance(t, tuple):
            return any(self.exc_match(e, x) for x in t)
        return issubclass(e.cls, t)

    # ----------------------------------------------------------------- loops

    def st_While(self, node, frame):
        n = 0
        first = True
        const_true = isinstance(node.test, ast.Constant) and node.test.value
        judged = getattr(self.fold, 'while_loops', False) and \
            not self.fold.loops and not getattr(self, 'in_spec', False)
        if not const_true and not judged:
            while True:
                c = self.quiet_cond(node.test, frame)
                if c is None:
                    break               # symbolic: cut here
                if not c:
                    self.block(node.orelse, frame)
                    return
                n += 1
                if n > MAX_UNROLL:
                    break
                try:
                    self.block(node.body, frame)
                except BreakEx:
                    return
                except ContinueEx:
                    pass
        self.cut_loop(node, frame, None, None)

    def quiet_cond(self, test, frame):
        """The loop condition if it is concrete, else None (no fork)."""
        class Peek(Exception):
            pass
        eng = self

        class PeekCtx:
            outer = self.sub
            pc = []
            birth0 = self.births

            def branch(self, cond):
                if eng.env.get('peel') and self.outer is None:
                    # the path may tell
                    sub, eng.sub = eng.sub, None
                    try:
                        if eng.entails(cond):
                            return True
                        if eng.entails(z3.Not(cond)):
                            return False
                    finally:
                        eng.sub = sub
                raise Peek()
        old = self.sub
        self.sub = PeekCtx()
        try:
            v = self.ev(test, frame)
            v = self.force(v)
            return self.truth(v)
        except Peek:
            return None
        except PyExc:
            return None
        except Unsupported:
            return None
        finally:
            self.sub = old

    def st_For(self, node, frame):
        it = self.ev(node.iter, frame)

        def body(v):
            self.assign(node.target, v, frame)
            self.block(node.body, frame)
        bulk = getattr(frame.on_yield, 'bulk', None)
        if bulk is not None and passes_on(node):
            def all_of(l):
                # every element is handed on as it is
                bulk(l)
                if self.branch(z3.Length(l.z) > 0):
                    self.assign(node.target, self.models.list_item(
                        l, z3.simplify(z3.Length(l.z) - 1)), frame)
            body.bulk = all_of
        try:
            self.iterate(it, body, frame, node)
        except BreakEx:
            return
        self.block(node.orelse, frame)

    def iterate(self, it, body, frame, node):
        """Run body(item) for every item; ContinueEx is absorbed."""
        def step(v):
            try:
                body(v)
            except ContinueEx:
                pass
        step.bulk = getattr(body, 'bulk', None)
        it = self.force(it)
        if isinstance(it, Bound) or isinstance(it, FuncVal):
            raise PyExc(TypeError('not iterable'))
        items = self.models.iter_concrete(it)
        if items is not None:
            if isinstance(it, SList):
                i = 0
                while True:
                    if not it.concrete:
                        raise Unsupported('list became symbolic while iterated')
                    if i >= len(it.items):
                        break
                    step(it.items[i])
                    i += 1
                return
            for v in items:
                step(v)
            return
        if isinstance(it, GenVal):
            it.run(step)
            return
        if step.bulk is not None and isinstance(it, SList) and \
                self.sub is None:
            step.bulk(it)
            return
        seq = self.models.iter_symbolic(it)
        if seq is None:
            raise Unsupported('iteration over %r' % (it,))
        if isinstance(seq, GenVal):
            seq.run(step)
            return
        self.cut_loop(node, frame, seq, step)

    def loop_key(self, node, frame):
        return (tuple(f.fn.name for f in self.frames if f.fn), node.lineno,
                node.col_offset, type(node).__name__)

    def cut_loop(self, node, frame, seq, step):
        """seq is None for while loops."""
        if self.sub is not None:
            raise Unsupported('symbolic loop in a pure context')
        key = self.loop_key(node, frame)
        info = self.loops.setdefault(key, LoopInfo())
        lp = ActiveLoop(self, key, info, frame, seq, node)
        fold = self.fold if (self.fold is not None and
                             self.fold.matches(self, lp)) else None
        lp.fold = fold
        lp.trace0 = {n: SList(z=l.z, elem=l.elem)
                     for n, l in (self.trace or {}).items()}
        if fold is not None:
            gs = fold.start(self, lp)
            lp.set_ghost(gs)
        lp.set_index(0)
        # (1) entry types and invariants
        for path in list(info.havoc):
            try:
                v = lp.read(path)
                if info.havoc[path] == POISON:
                    continue
                t = typeof(v)
            except KeyError:
                continue
            except Unsupported:
                if path[0] == 'local' and len(path) == 3:
                    info.havoc[path] = POISON
                    continue
                raise
            j = info.havoc[path]
            nj = t if j is None else join(j, t)
            if nj != j:
                info.havoc[path] = nj
                if j is not None:
                    raise Restart()
        if fold is not None:
            # the ghost state is always forgotten
            gpath = ('local', lp.fidx(frame), lp.gname)
            if gpath not in info.havoc:
                info.havoc[gpath] = typeof(lp.ghost())
        lp.index_paths()
        cands = lp.candidates()
        for i, c in cands:
            if i in info.dropped:
                continue
            term = lp.eval_candidate(c)
            if term is None:
                info.dropped.add(i)
                raise Restart()
            if not self.check_candidate(lp, i, term, 'entry'):
                raise Restart()
        events_before = list(self.events)
        # (2) choose: an arbitrary iteration, or the exit
        exit_ = self.choose(2)
        lp.birth = self.births
        lp.havoc()
        n = None
        if seq is not None:
            n = seq.length(self)
            k = lp.index
            self.assume(k >= 0)
            if exit_:
                if n is not None:
                    self.assume(k == n)
            elif n is not None:
                self.assume(k < n)
        for i, c in cands:
            if i in info.dropped:
                continue
            term = lp.eval_candidate(c)
            if term is None:
                info.dropped.add(i)
                raise Restart()
            self.assume(term)
        if exit_:
            self.events.append(('LOOP', key, fold.name if fold else None,
                                info_emits(info)))
            if fold is not None:
                self.fold_done = lp
                lp.final_ghost = lp.ghost()
                if 'args' in self.env:
                    lp.final_args = self.snapshot(self.env['args'])
            if seq is None:
                if self.truth(self.ev(node.test, frame)):
                    raise Infeasible()
                self.block(node.orelse, frame)
            return
        # (3) one arbitrary iteration
        self.events = []
        self.active.append(lp)
        vterm = lp.variant_terms() if seq is None else None
        try:
            if seq is not None:
                item = seq.item(self, lp.index)
                if fold is not None:
                    fold.before_item(self, lp, item)
                try:
                    step(item)
                except BreakEx:
                    self.active.remove(lp)
                    lp.left = True
                    self.events = events_before + [
                        ('LOOP', key, fold.name if fold else None,
                         info_emits(info))] + self.events
                    if fold is not None:
                        self.fold_done = lp
                    raise
            else:
                if not self.truth(self.ev(node.test, frame)):
                    raise Infeasible()
                if fold is not None:
                    fold.before_item(self, lp, None)
                try:
                    self.block(node.body, frame)
                except BreakEx:
                    self.active.remove(lp)
                    lp.left = True
                    self.events = events_before + [
                        ('LOOP', key, fold.name if fold else None,
                         info_emits(info))] + self.events
                    if fold is not None:
                        self.fold_done = lp
                    return
                except ContinueEx:
                    pass
        except (ReturnEx, PyExc):
            if lp in self.active:
                self.active.remove(lp)
            self.events = events_before + [
                ('LOOP', key, fold.name if fold else None,
                 info_emits(info))] + self.events
            raise
        # (4) back edge
        self.active.remove(lp)
        lp.at_back_edge()
        if fold is not None:
            fold.after_item(self, lp)
        elif any(e[0] != 'LOOP' or e[3] for e in self.events):
            if not getattr(info, 'emits', False):
                info.emits = True
                raise Restart()
        if seq is not None:
            lp.set_index_term(lp.index + 1)
        for i, c in cands:
            if i in info.dropped:
                continue
            term = lp.eval_candidate(c)
            if term is None:
                info.dropped.add(i)
                raise Restart()
            if not self.check_candidate(lp, i, term, 'preserved'):
                raise Restart()
        if seq is None:
            lp.check_variant(vterm)
        raise PathEnd()

    def check_candidate(self, lp, i, term, phase):
        """Houdini: prove a candidate or drop it."""
        if isinstance(term, bool):
            term = z3.BoolVal(term)
        if self.pos < len(self.prefix):
            self.assume(term)
            return True
        verdict, backend, model = self.valid(term)
        if verdict == 'discharged':
            self.obligations.append(Obligation(
                'loop invariant %d %s (%s line %d)' % (
                    i, phase, lp.frame.fn.name, lp.node.lineno),
                verdict, backend))
            self.assume(term)
            return True
        lp.info.dropped.add(i)
        lp.info.why[i] = (phase, verdict)
        if self.debug:
            print('   dropping candidate', i, phase, verdict, 'at',
                  lp.frame.fn.name, lp.node.lineno, '|',
                  str(z3.simplify(term))[:300])
        return False

    # ---------------------------------------------------------- pure merging

    def merge(self, thunk, rtype=None):
        """Evaluate a pure thunk over all its paths; merge into one value."""
        outer = self.sub
        results = []
        work = [[]]
        n = 0
        saved_events = self.events
        while work:
            n += 1
            if n > 600:
                raise Unsupported('too many paths in a pure expression')
            ctx = SubCtx(self, outer, work.pop(), work)
            self.sub = ctx
            depth = len(self.frames)
            self.events = []
            try:
                v = thunk()
                if self.events:
                    raise Unsupported('event in a pure context')
                results.append((z3.And(*ctx.pc) if ctx.pc else z3.BoolVal(True), v))
            except Infeasible:
                pass
            except PyExc as e:
                results.append((z3.And(*ctx.pc) if ctx.pc else z3.BoolVal(True), e))
            finally:
                del self.frames[depth:]
                self.sub = outer
                self.events = saved_events
        return results

    def merge_term(self, thunk, t, on_exc=None):
        """merge() into a single term of type t."""
        res = self.merge(thunk)
        out = None
        for cond, v in reversed(res):
            if isinstance(v, PyExc):
                if on_exc is None:
                    if self.debug:
                        print('   (spec raised %r)' % (v.exc,))
                    z = z3.Const('undef_' + smt._mangle(t.name), t.sort())
                else:
                    z = on_exc
            else:
                z = to_term(v, t, self)
            out = z if out is None else z3.If(cond, z, out)
        if out is None:
            return z3.Const('undef_' + smt._mangle(t.name), t.sort())
        return out

    def merge_bool(self, thunk):
        res = self.merge(thunk)
        terms = []
        for cond, v in res:
            if isinstance(v, PyExc):
                continue
            b = self.models.truth_term(v) if not isinstance(v, bool) else v
            terms.append(z3.And(cond, b if not isinstance(b, bool)
                                else z3.BoolVal(b)))
        return z3.simplify(z3.Or(*terms)) if terms else z3.BoolVal(False)


def passes_on(node):
    """for x in …: yield x"""
    b = node.body
    return (len(b) == 1 and not node.orelse and isinstance(b[0], ast.Expr)
            and isinstance(b[0].value, ast.Yield)
            and isinstance(node.target, ast.Name)
            and isinstance(b[0].value.value, ast.Name)
            and b[0].value.value.id == node.target.id)


def info_emits(info):
    return getattr(info, 'emits', False)


class SubCtx:
    def __init__(self, eng, outer, prefix, work):
        self.eng = eng
        self.outer = outer
        self.prefix = prefix
        self.work = work
        self.decisions = []
        self.pos = 0
        self.pc = []
        self.birth0 = eng.births

    def branch(self, cond):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            # syntactic pruning only, plus a cheap check when deep
            d = True
            t_ok = self.eng.feasible(cond, 60)
            f_ok = self.eng.feasible(z3.Not(cond), 60)
            if t_ok and f_ok:
                self.work.append(self.decisions + [False])
            elif f_ok:
                d = False
            elif not t_ok:
                raise Infeasible()
        self.pos += 1
        self.decisions.append(d)
        self.pc.append(cond if d else z3.Not(cond))
        return d


class ActiveLoop:
    def __init__(self, eng, key, info, frame, seq, node):
        self.eng = eng
        self.key = key
        self.info = info
        self.frame = frame
        self.seq = seq
        self.node = node
        self.birth = eng.births
        self.paths = {}
        self.index = None
        self.fold = None
        self.left = False
        ordinal = '%d_%d' % (node.lineno, node.col_offset)
        self.gname = '_g' + ordinal
        self.kname = '_k' + ordinal

    # ----- naming of locations

    def fidx(self, frame):
        return self.eng.frames.index(frame)

    def index_paths(self):
        """Name every mutable object reachable from the live frames."""
        self.paths = {}
        todo = []
        for fi, f in enumerate(self.eng.frames):
            for n, v in f.locals.items():
                todo.append((('local', fi, n), v))
        seen = set()
        while todo:
            path, v = todo.pop(0)
            if isinstance(v, (SObj, SList, SDict, SSet)):
                if id(v) in seen:
                    continue
                seen.add(id(v))
                self.paths[id(v)] = (path, v)
                if isinstance(v, SObj):
                    for n, x in v.fields.items():
                        todo.append((path + ('.' + n,), x))
                elif isinstance(v, SList) and v.concrete:
                    for i, x in enumerate(v.items):
                        todo.append((path + (i,), x))
                elif isinstance(v, SDict) and v.concrete:
                    for i, x in v.items.items():
                        todo.append((path + (('k', i),), x))
            elif isinstance(v, tuple):
                for i, x in enumerate(v):
                    todo.append((path + (i,), x))
            elif isinstance(v, Bound):
                todo.append((path + ('@',), v.self_))

    def resolve(self, path):
        f = self.eng.frames[path[1]]
        v = f.locals[path[2]]
        for p in path[3:]:
            if isinstance(p, str) and p.startswith('.'):
                v = v.fields[p[1:]] if p[1:] in v.fields else \
                    self.eng.getattr(v, p[1:])
            elif p == '@':
                v = v.self_
            elif isinstance(p, tuple) and p[0] == 'k':
                v = v.items[p[1]]
            elif isinstance(p, int):
                if isinstance(v, SList) and not v.concrete:
                    raise Inside()
                v = v.items[p] if isinstance(v, SList) else v[p]
        return v

    def covered(self, path):
        """Whether a container on the way is forgotten as a whole."""
        for i in range(3, len(path)):
            try:
                v = self.resolve(path[:i])
            except Inside:
                return True
            if isinstance(v, SList) and not v.concrete and \
                    isinstance(path[i], int):
                whole = path[:i] + ('*',)
                if whole not in self.info.havoc:
                    self.info.havoc[whole] = None
                    raise Restart()
                return True
        return False

    def read(self, path):
        if path[-1] == '*':                   # contents of a container
            return self.resolve(path[:-1])
        if path[0] == 'local' and len(path) == 3:
            f = self.eng.frames[path[1]]
            return f.locals.get(path[2], MISSING)
        return self.resolve(path)

    def note_local(self, frame, name):
        if frame not in self.eng.frames:
            return
        path = ('local', self.fidx(frame), name)
        if path not in self.info.havoc:
            self.info.havoc[path] = None
            raise Restart()

    def note_object(self, obj, field):
        ent = self.paths.get(id(obj))
        if ent is None:
            # not reachable when the loop started: allocated inside, or part
            # of an object that only became visible by lazy field access
            raise Unsupported('write to an object the loop cannot name (%r)' % obj)
        path = ent[0]
        if field is not None and isinstance(obj, SObj):
            path = path + ('.' + field,)
        else:
            path = path + ('*',)
        if path not in self.info.havoc:
            self.info.havoc[path] = None
            raise Restart()

    # ----- havoc

    def havoc(self):
        for path in sorted(self.info.havoc, key=lambda p: (len(p), str(p))):
            t = self.info.havoc[path]
            if self.covered(path):
                continue
            if t is None:
                # type known only after a first trip around the loop
                try:
                    t = typeof(self.read(path))
                except KeyError:
                    continue
                self.info.havoc[path] = t
            if path[-1] == '*':
                obj = self.resolve(path[:-1])
                if isinstance(obj, SList):
                    if t.elem == BOT:
                        continue
                    obj.items = None
                    obj.z = z3.Const(self.eng.fresh_name('h'), t.sort())
                    obj.elem = t.elem
                    obj.version += 1
                elif isinstance(obj, SDict):
                    if t.key == BOT:
                        continue
                    obj.items = None
                    obj.z = z3.Const(self.eng.fresh_name('h'), t.sort())
                    obj.t = t
                elif isinstance(obj, SSet):
                    if t.elem == BOT:
                        continue
                    obj.items = None
                    obj.z = z3.Const(self.eng.fresh_name('h'), t.sort())
                    obj.elem = t.elem
                else:
                    raise Unsupported('havoc of %r' % obj)
                continue
            if isinstance(t, SeqT) and t.elem == BOT:
                v = self.eng.mklist([])
            elif isinstance(t, DictT) and t.key == BOT:
                v = SDict(items={})
                v.birth = self.eng.birth()
            else:
                v = self.eng.fresh(t, str(path[-1]).strip('.'))
            if path[0] == 'local' and len(path) == 3:
                self.eng.frames[path[1]].locals[path[2]] = v
            else:
                owner = self.resolve(path[:-1])
                p = path[-1]
                if isinstance(p, str) and p.startswith('.'):
                    owner.fields[p[1:]] = v
                elif isinstance(p, int):
                    owner.items[p] = v
        if self.seq is not None:
            self.index = z3.Int(self.eng.fresh_name('k'))
            self.frame.locals[self.kname] = Sym(self.index, INT)

    def set_index(self, v):
        self.frame.locals[self.kname] = v
        self.index = z3.IntVal(v)

    def set_index_term(self, z):
        self.frame.locals[self.kname] = from_term(z, INT)

    def set_ghost(self, gs):
        self.frame.locals[self.gname] = gs

    def ghost(self):
        return self.frame.locals[self.gname]

    def at_back_edge(self):
        """Every forgotten location must still be within its type."""
        for path, t in list(self.info.havoc.items()):
            try:
                v = self.read(path)
            except (KeyError, IndexError, Inside):
                continue
            if path == ('local', self.fidx(self.frame), self.gname):
                continue
            if t == POISON or isinstance(v, Poison):
                if t != POISON:
                    self.info.havoc[path] = POISON
                    raise Restart()
                continue
            try:
                nt = typeof(v)
                j = join(t, nt) if t is not None else nt
                j.sort()
            except Unsupported:
                if path[0] == 'local' and len(path) == 3:
                    self.info.havoc[path] = POISON
                    raise Restart()
                raise
            if j != t:
                self.info.havoc[path] = j
                raise Restart()

    def widen_ghost(self):
        path = ('local', self.fidx(self.frame), self.gname)
        t = self.info.havoc[path]
        nt = typeof(self.ghost())
        j = join(t, nt)
        if j != t:
            self.info.havoc[path] = j
            raise Restart()

    # ----- invariants

    def namespace(self):
        ns = {}
        for f in self.eng.frames[:-1]:
            for n, v in f.locals.items():
                if not n.startswith('_g') and not n.startswith('_k'):
                    ns.setdefault(n, v)
        ns.update(self.frame.locals)
        ns = {k: v for k, v in ns.items() if not isinstance(v, Poison)}
        ns['_k'] = self.frame.locals.get(self.kname)
        if self.gname in self.frame.locals:
            ns['_g'] = self.frame.locals[self.gname]
        else:
            for f in reversed(self.eng.frames):
                for n, v in f.locals.items():
                    if n.startswith('_g') and n[2:3].isdigit():
                        ns.setdefault('_g', v)
        if self.seq is not None and self.seq.value is not None:
            ns['_it'] = self.seq.value
        outer = [lp for lp in self.eng.active if lp is not self]
        if outer:
            ns['_k_outer'] = from_term(outer[-1].index, INT)
        for n, l in (self.eng.trace or {}).items():
            ns[TRACES[n]] = l
            if n in self.trace0:
                ns['_' + TRACES[n]] = self.trace0[n]
        ns.update(self.eng.env.get('ghosts', {}))
        ns['old'] = self.eng.env.get('old')
        ns['args'] = self.eng.env.get('args')
        return ns

    def candidates(self):
        out = []
        ns = self.namespace()
        for i, c in enumerate(self.eng.cands):
            if all(n not in ns if w else n in ns for n, w in c.wanted):
                out.append((i, c))
                self.info.kept.add(i)
        # automatic candidates
        return out

    def eval_candidate(self, c):
        ns = self.namespace()
        args = [ns.get(n, None if n.startswith('no_') else MISSING)
                for n in c.names]
        try:
            return self.eng.merge_bool(
                lambda: self.eng.call(c.fn, args))
        except Unsupported as e:
            if self.eng.debug:
                print('   candidate not expressible:', e)
            return None

    # ----- termination

    def variant_terms(self):
        ns = self.namespace()
        out = []
        for v in self.eng.env.get('variants', ()):
            if all(n in ns for n in v.names):
                try:
                    out.append((v, self.eng.merge_term(
                        lambda: self.eng.call(v.fn, [ns[n] for n in v.names]), INT)))
                except Unsupported:
                    pass
        # automatic: length of each local sequence / value of each local int
        for n, val in list(self.frame.locals.items()):
            t = None
            try:
                if isinstance(val, SList) and not val.concrete:
                    t = z3.Length(val.z)
                elif isinstance(val, Sym) and val.t in (STR, BYTES):
                    t = z3.Length(val.z)
            except Exception:
                t = None
            if t is not None:
                out.append((n, t))
        for path in self.info.havoc:
            if path[-1] == '*' and len(path) > 3:
                obj = self.resolve(path[:-1])
                if isinstance(obj, SList) and not obj.concrete:
                    out.append((path, z3.Length(obj.z)))
        return out

    def check_variant(self, before):
        e = self.eng
        if e.env.get('no_termination'):
            return
        if e.pos < len(e.prefix):
            return
        for v, z0 in before:
            try:
                if isinstance(v, str):
                    val = self.frame.locals.get(v)
                    z1 = z3.Length(val.z) if isinstance(val, (SList, Sym)) and \
                        getattr(val, 'z', None) is not None else None
                    if z1 is None and isinstance(val, SList):
                        z1 = z3.IntVal(len(val.items))
                    if z1 is None and isinstance(val, str):
                        z1 = z3.IntVal(len(val))
                elif isinstance(v, tuple):
                    obj = self.resolve(v[:-1])
                    z1 = z3.Length(obj.z) if not obj.concrete else \
                        z3.IntVal(len(obj.items))
                else:
                    ns = self.namespace()
                    z1 = e.merge_term(
                        lambda: e.call(v.fn, [ns[n] for n in v.names]), INT)
                if z1 is None:
                    continue
            except Exception:
                continue
            good, backend, _ = e.valid(z3.And(z0 >= 0, z1 < z0))
            if good == 'discharged':
                e.obligations.append(Obligation(
                    'loop terminates (%s line %d)' % (
                        self.frame.fn.name, self.node.lineno),
                    'discharged', backend))
                return
        e.obligations.append(Obligation(
            'loop terminates (%s line %d)' % (
                self.frame.fn.name, self.node.lineno), 'unknown', '',
            None, 'no variant decreases'))


class SeqView:
    """How a cut for-loop gets its items."""
    def __init__(self, length, item, value=None):
        self._length = length
        self._item = item
        self.value = value

    def length(self, eng):
        return self._length(eng) if self._length else None

    def item(self, eng, k):
        return self._item(eng, k)


_assigned = {}


def assigned_names(node):
    if node in _assigned:
        return _assigned[node]
    out = set()
    if isinstance(node, ast.FunctionDef):
        todo = list(node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            elif isinstance(n, ast.FunctionDef):
                out.add(n.name)
                continue
            elif isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp,
                                ast.SetComp, ast.DictComp)):
                continue
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    out.add((a.asname or a.name).split('.')[0])
            todo.extend(ast.iter_child_nodes(n))
    _assigned[node] = out
    return out


def class_lookup(cls, name):
    for c in cls.__mro__:
        if name in c.__dict__:
            return c.__dict__[name]
    return MISSING


def is_hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def from_term_raw(z, t, eng):
    if t == CHAR or t == STR or t == INT or t == BYTE or t == BOOL or \
            t == BYTES or isinstance(t, (UnionT, ObjT)):
        return Sym(z, t)
    return from_term(z, t, eng)
