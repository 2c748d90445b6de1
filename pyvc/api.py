"""Contracts and how they are verified."""
import ast
import importlib
import inspect
import time
import traceback
import types

import z3

from . import ghost, smt
from .interp import (TRACES, Engine, Frame, PathEnd, Restart, class_lookup, func_node,
                     Obligation)
from .models import HashOf, Models, SMatch, _Key
from .smt import *      # noqa
from .vals import *     # noqa


def resolve(target):
    """'module:Qual.name' -> (owner class or None, raw attribute, function)."""
    mod, _, qual = target.partition(':')
    obj = importlib.import_module(mod)
    owner = None
    parts = qual.split('.')
    for p in parts[:-1]:
        owner = getattr(obj, p)
        obj = owner
    raw = obj.__dict__[parts[-1]] if isinstance(obj, type) and \
        parts[-1] in obj.__dict__ else getattr(obj, parts[-1])
    fn = raw
    if isinstance(fn, (staticmethod, classmethod)):
        fn = fn.__func__
    if isinstance(fn, property):
        fn = fn.fget
    return owner, raw, fn


class Cand:
    def __init__(self, fn):
        self.fn = fn
        self.names = list(inspect.signature(fn).parameters)
        # no_x: only for loops in which there is no x yet
        # x=None: x may be unbound
        self.wanted = [
            (n[3:], True) if n.startswith('no_') else (n, False)
            for n, p in inspect.signature(fn).parameters.items()
            if p.default is p.empty]


def inv(fn):
    fn.__inv__ = True
    return staticmethod(fn)


def variant(fn):
    fn.__variant__ = True
    return staticmethod(fn)


class Ctx:
    """Builds symbolic arguments."""
    def __init__(self, eng):
        self.eng = eng

    def val(self, t, name):
        return self.eng.fresh(t, name)

    def str(self, name='s'):
        return self.val(STR, name)

    def re(self, pattern, name='s'):
        """Any string in the language of the pattern."""
        v = self.str(name)
        self.assume(self.eng.models.as_bool_term(
            ghost._matches_sym(self.eng, pattern, v)))
        return v

    def prefix(self, word, s):
        return z3.PrefixOf(to_term(word, STR), to_term(s, STR))

    def ghost(self, **named):
        self.eng.env.setdefault('ghosts', {}).update(named)

    def assume_not(self, t):
        self.assume(z3.Not(t))

    def cat(self, *parts):
        parts = [to_term(p, STR) for p in parts]
        return from_term(z3.Concat(*parts) if len(parts) > 1 else parts[0], STR)

    def int(self, name='n'):
        return self.val(INT, name)

    def bool(self, name='b'):
        return self.val(BOOL, name)

    def bytes(self, name='b'):
        return self.val(BYTES, name)

    def list(self, elem, name='l'):
        v = self.val(SeqT(elem), name)
        v.birth = 0
        return v

    def obj(self, cls, /, **fields):
        for k, v in fields.items():
            if type(v) is list:
                fields[k] = self.eng.mklist(v)
            elif type(v) is dict and not v:
                fields[k] = SDict(items={})
            if fields[k] is not v:
                fields[k].birth = 0
        o = SObj(cls, fields)
        o.birth = 0
        return o

    def lazy(self, cls, /, **lazy):
        o = SObj(cls, {}, lazy=lazy)
        o.birth = 0
        return o

    def stream(self, contract):
        return Stream('items', lambda e, k: contract.item(Ctx(e)))

    def where(self):
        from asterisklint.where import Where
        return self.lazy(Where, filename=STR, lineno=INT, line=BYTES)

    def mklist(self, items):
        l = self.eng.mklist(items)
        l.birth = 0
        return l

    def dict(self, items=(), default=None):
        """A dict of exactly these; objects are keys by identity."""
        d = SDict(items={_Key(k) if isinstance(k, SObj) else k: v
                         for k, v in dict(items).items()}, default=default)
        d.birth = 0
        return d

    def slice(self, low, high):
        from .models import SliceVal
        return SliceVal(low, high, None)

    def choice(self, *options):
        return options[self.eng.choose(len(options))]

    def assume(self, c):
        self.eng.assume(c)


class Contract:
    """One function under contract: behaves exactly like `spec`."""
    target = None
    failed = None         # what else is seen when it raises one of may_raise
    name = None
    props = ()
    uses = ()              # contract classes used at call sites
    env = None             # extra environment
    fuel = 3
    frame = True           # compare the post-state of the arguments
    termination = True
    setup = None
    requires = None
    ensures = None
    spec = None
    budget = 130
    schemas = {}
    events = True
    notes = ()
    generator = False      # it yields what the specification emits
    apply_spec = None
    applicable = None
    may_raise = ()
    part = None            # the specification is about this part of the
    parts = 2              # result (a tuple of so many)
    structs = {}           # what lists of a length are: {4: StructT(…)}
    traced = None          # {'yielded': type, 'reported': type}

    @classmethod
    def key(cls):
        owner, raw, fn = resolve(cls.target)
        return fn.__module__, fn.__qualname__

    @classmethod
    def title(cls):
        return cls.name or cls.target.split(':')[1]

    # ------------------------------------------------------ at a call site

    @classmethod
    def apply(cls, eng, args, kwargs):
        owner, raw, fn = resolve(cls.target)
        bound = eng.bind(eng.wrap_quiet(fn), args, kwargs)
        names = [a.arg for a in func_node(fn).args.args]
        vals = [bound[n] for n in names]
        a = func_node(fn).args
        if a.vararg:
            vals.append(bound[a.vararg.arg])
        eng.used_contracts.add(cls.title())
        if cls.requires is not None:
            c = eng.merge_bool(lambda: eng.call(cls.requires, vals)) \
                if eng.sub is None else None
            if c is not None:
                eng.prove(c, 'precondition of %s' % cls.title())
        return eng.call(cls.apply_spec or cls.spec, vals)

    # --------------------------------------------------------- verification

    @classmethod
    def make_engine(cls, debug=False, deadline=None):
        contracts = {}
        for u in cls.uses:
            contracts[u.key()] = u
        env = dict(cls.env or {})
        env.setdefault('construct', construct_hook)
        eng = Engine(contracts=contracts, env=env, fuel=cls.fuel,
                     deadline=deadline, debug=debug)
        eng.models = Models(eng)
        eng.schemas = dict(cls.schemas)
        for n, f in inspect.getmembers(cls):
            if getattr(f, '__inv__', False):
                eng.cands.append(Cand(f))
            if getattr(f, '__variant__', False):
                env.setdefault('variants', []).append(Cand(f))
        if not cls.termination:
            env['no_termination'] = True
        ghost.CURRENT[0] = eng
        STRUCTS.clear()
        STRUCTS.update(cls.structs)
        return eng

    @classmethod
    def run(cls, eng):
        owner, raw, fn = resolve(cls.target)
        c = Ctx(eng)
        args = cls.setup(c)
        names = [a.arg for a in func_node(fn).args.args]
        # arguments in a base frame, so loops can name what they reach
        base = Frame(eng.wrap_quiet(base_marker), 0)
        base.locals = {'arg_%d' % i: a for i, a in enumerate(args)}
        base.birth = 0
        eng.frames.append(base)
        if cls.requires is not None:
            if not eng.truth(eng.call(cls.requires, args)):
                raise Infeasible()
        snap = snapshot(args)
        eng.env['args'] = args
        eng.env['old'] = snap
        e0 = eng.events
        eng.events = []
        cls.start_trace(eng, base)
        out1 = run_outcome(eng, lambda: cls.call_real(eng, fn, args))
        ev1 = eng.events
        trace = eng.trace
        if cls.failed is not None and out1[0] == 'exc' and any(
                issubclass(out1[1].cls, x) for x in cls.may_raise):
            eng.events = []
            eng.in_spec = True
            eng.call(cls.failed, snap)
            eng.in_spec = False
            compare_events(eng, cls, ev1, eng.events, {})
            return
        if getattr(cls, 'reach', True):
            cls.covered = True
        if cls.spec is not None:
            eng.events = []
            eng.in_spec = True
            cls.start_trace(eng, base)
            out2 = run_outcome(eng, lambda: eng.call(cls.spec, snap))
            ev2 = eng.events
            eng.in_spec = False
            if cls.generator and out2 == ('ret', None):
                out2 = 'ret', ('generator',)
            for kind, l in sorted((trace or {}).items()):
                want = eng.trace[kind]
                if kind == 'yield' and out1 == ('ret', ('generator',)) and \
                        out2[0] == 'ret':
                    # the specification gives everything that is yielded
                    want, out2 = out2[1], out1
                t = SeqT(cls.traced[TRACES[kind]])
                eng.prove(to_term(l, t, eng) == to_term(want, t, eng),
                          'everything ' + TRACES[kind])
            compare_outcome(eng, cls, out1, out2)
            if cls.events:
                compare_events(eng, cls, ev1, ev2, dict(zip(map(id, snap), args)))
            if cls.frame:
                compare_state(eng, cls, args, snap)
        if cls.ensures is not None:
            if out1[0] == 'exc':
                if not any(issubclass(out1[1].cls, x) for x in cls.may_raise):
                    eng.prove(False, 'no exception', detail=exc_text(out1[1]))
            else:
                eng.events = []
                result = out1[1]
                if trace and 'yield' in trace and result == ('generator',):
                    result = trace['yield']
                r = eng.call(cls.ensures, [result, list_events(eng, ev1), snap]
                             + list(args))
                for label, b in iter_ensures(eng, r):
                    eng.prove(eng.models.as_bool_term(b), label)

    @classmethod
    def start_trace(cls, eng, base):
        if cls.traced is None:
            return
        eng.trace = {}
        eng.env['report'] = cls.report
        for kind, name in TRACES.items():
            if name in cls.traced:
                t = SeqT(cls.traced[name])
                l = SList(z=z3.Empty(t.sort()), elem=t.elem)
                l.birth = 0
                eng.trace[kind] = base.locals['#' + name] = l

    @staticmethod
    def report(eng, cls, where, fields):
        """What the trace keeps of a message."""
        return cls.__name__, where

    @classmethod
    def call_real(cls, eng, fn, args):
        return eng.call_func(eng.wrap(fn, resolve(cls.target)[0]), args, {}) \
            if not isinstance(fn, type) else eng.call(fn, args)

    @classmethod
    def loop_shape(cls, eng):
        """What a comparison of steps, side by side, relies on."""
        return None

    @classmethod
    def verify(cls, debug=False):
        t0 = time.time()
        eng = cls.make_engine(debug, t0 + cls.budget)
        res = {'contract': cls.__name__, 'title': cls.title(),
               'target': cls.target, 'status': 'proved', 'reason': ''}
        st0 = dict(smt.STATS)
        try:
            eng.explore(lambda: cls.run(eng))
        except Unsupported as e:
            res['status'] = 'unsupported'
            res['reason'] = str(e)
        except RecursionError as e:
            res['status'] = 'unsupported'
            res['reason'] = 'engine recursion'
        except (KeyError, AttributeError, ImportError, SyntaxError, TypeError,
                z3.Z3Exception, IndexError, ValueError, AssertionError,
                NotImplementedError) as e:
            res['status'] = 'unsupported'
            res['reason'] = 'engine: %s: %s' % (type(e).__name__, e)
            if debug:
                traceback.print_exc()
        obl = eng.obligations
        res['obligations'] = len(obl)
        res['discharged'] = sum(o.verdict == 'discharged' for o in obl)
        res['refuted'] = [(o.name, o.detail) for o in obl if o.verdict == 'refuted']
        res['unknown'] = [(o.name, o.detail) for o in obl if o.verdict == 'unknown']
        back = {}
        for o in obl:
            if o.verdict == 'discharged':
                back[o.backend] = back.get(o.backend, 0) + 1
        res['backends'] = back
        res['paths'] = eng.paths
        res['loops'] = {
            '%s:%s' % (k[0][-1] if k[0] else '?', k[1]): {
                'kept': len(eng.cands) - len(i.dropped), 'dropped': sorted(i.dropped)}
            for k, i in eng.loops.items()}
        res['dropped'] = sum(len(i.dropped) for i in eng.loops.values())
        res['kept'] = sorted({eng.cands[n].fn.__name__
                              for i in eng.loops.values()
                              for n in i.kept - i.dropped})
        # loops of which nothing is known afterwards
        res['bare'] = sum(not i.kept - i.dropped
                          for i in eng.loops.values())
        res['shape'] = cls.loop_shape(eng)
        res['inlined'] = sorted('%s.%s' % i for i in eng.inlined)
        res['used'] = sorted(eng.used_contracts)
        res['models'] = [o.model for o in obl if o.verdict == 'refuted'][:3]
        if res['status'] == 'proved':
            if res['refuted']:
                res['status'] = 'refuted'
            elif res['unknown']:
                res['status'] = 'unknown'
            elif not obl:
                res['status'] = 'vacuous'
        res['time'] = round(time.time() - t0, 2)
        res['solver'] = {k: round(smt.STATS[k] - st0.get(k, 0), 2) for k in smt.STATS}
        return res


class Fold:
    """Relates every iteration of the stream loop to a specification step."""
    def __init__(self, cls, eng):
        self.cls = cls
        self.eng = eng
        self.name = 'stream'
        self.loops = 0

    def matches(self, eng, lp):
        return lp.seq is not None and getattr(lp.seq, 'stream', False) \
            and not getattr(eng, 'in_spec', False)

    def start(self, eng, lp):
        cls = self.cls
        pre = eng.events
        self.pre_events(pre)
        return eng.call(cls.init, list(eng.env['old'])) if cls.init else None

    def pre_events(self, evs):
        if self.cls.begin is not None:
            eng = self.eng
            eng.events = []
            eng.in_spec = True
            eng.call(self.cls.begin, list(eng.env['old']))
            eng.in_spec = False
            compare_events(eng, self.cls, evs, eng.events, {})
            eng.events = evs
            return
        if [e for e in evs if e[0] != 'LOOP']:
            self.eng.prove(False, 'nothing is reported before the first item')

    def before_item(self, eng, lp, item):
        lp.item = item
        lp.item_old = snapshot([item])[0]

    def after_item(self, eng, lp):
        cls = self.cls
        real = eng.events
        if cls.post is not None:
            item = lp.item
            args = list(item) if cls.spread and isinstance(item, tuple) \
                else [item]
            eng.events = []
            eng.in_spec = True
            r = eng.call(cls.post, [list_events(eng, real)] + args)
            eng.in_spec = False
            eng.events = real
            for label, b in iter_ensures(eng, r):
                eng.prove(eng.models.as_bool_term(b), label)
            return
        eng.events = []
        eng.in_spec = True
        item = lp.item_old
        args = list(item) if cls.spread and isinstance(item, tuple) else [item]
        try:
            g = eng.call(cls.step, [lp.ghost()] + args)
        except PyExc as e:
            eng.in_spec = False
            eng.prove(False, 'the specification of a step raises',
                      detail=exc_text(e))
            raise PathEnd()
        spec = eng.events
        eng.in_spec = False
        compare_events(eng, cls, real, spec, {})
        eng.events = real
        lp.set_ghost(g)
        lp.widen_ghost()


class StreamContract(Contract):
    """A generator that maps a stream of items to yields and messages.

    `step(state, *item)` is the specification of one item; `finish(state)` of
    the end.  The proof covers streams of every length.
    """
    init = None
    begin = None           # what is reported before the first item
    step = None
    post = None            # instead of step: conditions on its events
    finish = None
    item = None
    spread = True
    source = 'super'

    @classmethod
    def run(cls, eng):
        owner, raw, fn = resolve(cls.target)
        c = Ctx(eng)
        args = cls.setup(c)
        base = Frame(eng.wrap_quiet(base_marker), 0)
        base.locals = {'arg_%d' % i: a for i, a in enumerate(args)}
        base.birth = 0
        eng.frames.append(base)
        snap = snapshot(args)
        eng.env['args'] = args
        eng.env['old'] = snap
        eng.events = []
        eng.in_spec = False
        eng.fold = Fold(cls, eng)
        eng.fold_done = None

        def make_item(e, k):
            return cls.item(Ctx(e))

        def source(*a):
            raise NotImplementedError
        source.__sym__ = lambda e, *a: Stream('items', make_item)
        first = [True]

        def sup(e, sv):
            if sv.cls is owner:
                return source
            return None
        eng.env[('super', cls.target.rsplit('.', 1)[1])] = sup
        out = run_outcome(eng, lambda: cls.call_real(eng, fn, args))
        if out[0] == 'exc':
            eng.prove(False, 'no exception', detail=exc_text(out[1]))
            return
        lp = eng.fold_done
        if lp is None:
            eng.prove(False, 'the stream is consumed')
            return
        evs = eng.events
        at = max(i for i, e in enumerate(evs) if e[0] == 'LOOP' and e[2] == 'stream')
        post = evs[at + 1:]
        eng.events = []
        if cls.finish is not None:
            eng.in_spec = True
            eng.call(cls.finish, [lp.final_ghost])
            eng.in_spec = False
        compare_events(eng, cls, post, eng.events, {})
        eng.obligations.append(Obligation('stream exhausted', 'discharged', 'path'))


class StepFold(Fold):
    """Relates every iteration of a while loop to a specification step."""
    def matches(self, eng, lp):
        return lp.seq is None and not self.loops and \
            not getattr(eng, 'in_spec', False)

    def start(self, eng, lp):
        self.pre_events(eng.events)
        return None

    def holds(self, eng, what, expect):
        cls = self.cls
        if cls.more is None:
            return
        eng.in_spec = True
        more = eng.models.as_bool_term(eng.call(cls.more, self.snap))
        eng.in_spec = False
        eng.prove(more if expect else z3.Not(more), what)

    def before_item(self, eng, lp, item):
        self.loops += 1         # (a loop within is not the loop)
        self.snap = snapshot(eng.env['args'])
        self.holds(eng, 'the loop goes on only while there is more', True)

    def after_item(self, eng, lp):
        self.loops -= 1
        cls = self.cls
        real = eng.events
        eng.events = []
        eng.in_spec = True
        try:
            eng.call(cls.step, self.snap)
        except PyExc as e:
            eng.in_spec = False
            eng.prove(False, 'the specification of a step raises',
                      detail=exc_text(e))
            raise PathEnd()
        spec = eng.events
        eng.in_spec = False
        compare_events(eng, cls, real, spec, {})
        compare_state(eng, cls, eng.env['args'], self.snap)
        eng.events = real
        lp.set_ghost(None)


class StepContract(StreamContract):
    """A loop that changes a state until there is no more to do.

    `more(*args)` is the specification of the condition, `step(*args)` of one
    iteration from any state (that the invariants allow).
    """
    more = None
    after = None           # what is true of the state at the end

    @classmethod
    def run(cls, eng):
        owner, raw, fn = resolve(cls.target)
        c = Ctx(eng)
        args = cls.setup(c)
        base = Frame(eng.wrap_quiet(base_marker), 0)
        base.locals = {'arg_%d' % i: a for i, a in enumerate(args)}
        base.birth = 0
        eng.frames.append(base)
        if cls.requires is not None:
            if not eng.truth(eng.call(cls.requires, args)):
                raise Infeasible()
        eng.env['args'] = args
        eng.env['old'] = snapshot(args)
        eng.events = []
        eng.in_spec = False
        fold = eng.fold = StepFold(cls, eng)
        eng.fold_done = None
        out = run_outcome(eng, lambda: cls.call_real(eng, fn, args))
        if out[0] == 'exc':
            eng.prove(False, 'no exception', detail=exc_text(out[1]))
            return
        post = eng.events
        eng.events = []
        if eng.fold_done is None:
            # without the loop: there must be nothing to do
            fold.snap = eng.env['old']
            if cls.more is None:
                eng.prove(False, 'there is a loop')
                return
        else:
            post = post[1 + max(i for i, e in enumerate(post) if
                                e[0] == 'LOOP' and e[2] == 'stream'):]
            fold.snap = snapshot(eng.fold_done.final_args)
        fold.holds(eng, 'the loop ends only when there is no more', False)
        if cls.finish is not None:
            eng.in_spec = True
            eng.call(cls.finish, fold.snap)
            eng.in_spec = False
            compare_state(eng, cls, args, fold.snap)
        compare_events(eng, cls, post, eng.events, {})
        if cls.after is not None:
            for label, b in iter_ensures(eng, eng.call(cls.after, args)):
                eng.prove(eng.models.as_bool_term(b), label)
        eng.obligations.append(Obligation('loop left', 'discharged', 'path'))


class ListFold(Fold):
    """Relates every iteration over a list to a specification step."""
    def matches(self, eng, lp):
        return lp.seq is not None and not self.loops and \
            isinstance(lp.seq.value, SList) and \
            not getattr(lp.seq, 'reversed', False) and \
            lp.seq.value.elem == self.cls.element and \
            not getattr(eng, 'in_spec', False)

    def in_spec(self, fn, *args):
        eng = self.eng
        if fn is None:
            return None
        eng.in_spec = True
        try:
            return eng.call(fn, list(args))
        except PyExc as e:
            eng.prove(False, 'the specification raises', detail=exc_text(e))
            raise PathEnd()
        finally:
            eng.in_spec = False

    def begun(self):
        """What was seen before the first element; the list."""
        over = self.in_spec(self.cls.over, *self.snap)
        self.in_spec(self.cls.begin, *self.snap)
        return over

    def start(self, eng, lp):
        real, eng.events = eng.events, []
        over = self.begun()
        compare_events(eng, self.cls, real, eng.events, {})
        eng.events = real
        t = SeqT(self.cls.element)
        eng.prove(lp.seq.value.z == to_term(over, t, eng),
                  'what is worked through', weak=True)
        return None

    def before_item(self, eng, lp, item):
        self.loops += 1
        lp.item = eng.models.list_item(lp.seq.value, lp.index)

    def after_item(self, eng, lp):
        self.loops -= 1
        real, eng.events = eng.events, []
        self.in_spec(self.cls.step, *self.snap, lp.item)
        compare_events(eng, self.cls, real, eng.events, {})
        eng.events = real
        lp.set_ghost(None)


class ListContract(StreamContract):
    """A list is worked through.

    `begin(*args)` is the specification of what comes first, `over(*args)` of
    the list, `step(*args, element)` of one iteration, `finish(*args)` of what
    follows.
    """
    over = None
    element = None

    @classmethod
    def run(cls, eng):
        owner, raw, fn = resolve(cls.target)
        c = Ctx(eng)
        args = cls.setup(c)
        base = Frame(eng.wrap_quiet(base_marker), 0)
        base.locals = {'arg_%d' % i: a for i, a in enumerate(args)}
        base.birth = 0
        eng.frames.append(base)
        if cls.requires is not None:
            if not eng.truth(eng.call(cls.requires, args)):
                raise Infeasible()
        eng.env['args'] = args
        snap = snapshot(args)
        eng.env['old'] = snapshot(args)
        eng.events = []
        eng.in_spec = False
        fold = eng.fold = ListFold(cls, eng)
        fold.snap = snap
        eng.fold_done = None
        out = run_outcome(eng, lambda: cls.call_real(eng, fn, args))
        if out[0] == 'exc':
            eng.prove(False, 'no exception', detail=exc_text(out[1]))
            return
        evs = eng.events
        eng.events = []
        if eng.fold_done is None:
            # nothing to work through, or a list of a known length
            over = fold.begun()
            if over.concrete:
                for i in list(over.items):
                    fold.in_spec(cls.step, *snap, i)
            else:
                eng.prove(z3.Length(over.z) == 0, 'all is worked through')
        else:
            if eng.fold_done.left:
                eng.prove(False, 'all is worked through')
                return
            at = max(i for i, e in enumerate(evs)
                     if e[0] == 'LOOP' and e[2] == 'stream')
            evs = evs[at + 1:]
        fold.in_spec(cls.finish, *snap)
        compare_events(eng, cls, evs, eng.events, {})
        if cls.frame:
            compare_state(eng, cls, args, snap)
        eng.obligations.append(Obligation('worked through', 'discharged',
                                          'path'))


class WhileFold(StepFold):
    """Relates a while loop to a state and steps of it."""
    while_loops = True

    def call(self, fn, *args):
        eng = self.eng
        eng.in_spec = True
        try:
            return eng.call(fn, list(args))
        finally:
            eng.in_spec = False

    def start(self, eng, lp):
        if not hasattr(eng, 'while_nodes'):
            eng.while_nodes = {}
        eng.while_nodes[lp.key] = lp.node
        self.pre_events(eng.events)
        return self.call(self.cls.init, *eng.env['old'])

    def goes_on(self, g, what, expect):
        eng = self.eng
        more = eng.models.as_bool_term(
            self.call(self.cls.more, g, *eng.env['old']))
        eng.prove(more if expect else z3.Not(more), what)

    def before_item(self, eng, lp, item):
        self.loops += 1
        self.g = lp.ghost()

    def after_item(self, eng, lp):
        self.loops -= 1
        self.goes_on(self.g, 'the loop goes on only while there is more', True)
        real, eng.events = eng.events, []
        try:
            g = self.call(self.cls.step, self.g, *eng.env['old'])
        except PyExc as e:
            eng.prove(False, 'the specification of a step raises',
                      detail=exc_text(e))
            raise PathEnd()
        compare_events(eng, self.cls, real, eng.events, {})
        eng.events = real
        lp.set_ghost(g)
        lp.widen_ghost()


class WhileContract(StreamContract):
    """A while loop over a state of its own.

    `init(*args)` is the specification of the state, `more(state, *args)` of
    the condition, `step(state, *args)` of the next state, `finish(state,
    *args)` of the result.  Invariants tell where the state is (`_g`).
    """
    more = None
    after = None           # what is true of the result, too

    @classmethod
    def loop_shape(cls, eng):
        # Loops that are left elsewhere, or that keep other variables, may
        # do the same in other steps: their failing would tell nothing.
        out = []
        for node in getattr(eng, 'while_nodes', {}).values():
            names = sorted({n.id for n in ast.walk(node) if isinstance(
                n, ast.Name) and isinstance(n.ctx, ast.Store)})
            exits = sorted(type(n).__name__ for n in ast.walk(node)
                           if isinstance(n, (ast.Return, ast.Break,
                                             ast.Raise)))
            tests = ast.dump(node.test) if isinstance(node, ast.While) else ''
            out.append([tests, names, exits])
        return sorted(out)

    @classmethod
    def run(cls, eng):
        owner, raw, fn = resolve(cls.target)
        c = Ctx(eng)
        args = cls.setup(c)
        base = Frame(eng.wrap_quiet(base_marker), 0)
        base.locals = {'arg_%d' % i: a for i, a in enumerate(args)}
        base.birth = 0
        eng.frames.append(base)
        if cls.requires is not None:
            if not eng.truth(eng.call(cls.requires, args)):
                raise Infeasible()
        eng.env['args'] = args
        eng.env['old'] = snapshot(args)
        eng.events = []
        eng.in_spec = False
        fold = eng.fold = WhileFold(cls, eng)
        eng.fold_done = None
        out = run_outcome(eng, lambda: cls.call_real(eng, fn, args))
        if fold.loops and eng.fold_done is not None and \
                eng.fold_done.left and out[0] == 'ret':
            fold.loops = 0
            eng.fold_done.final_ghost = fold.g
        if fold.loops:
            # left from within an iteration: so must the specification
            real = eng.events
            real = real[1 + max(i for i, e in enumerate(real) if
                                e[0] == 'LOOP' and e[2] == 'stream'):]
            eng.events = []
            spec = run_outcome(eng, lambda: fold.call(
                cls.step, fold.g, *eng.env['old']))
            if out[0] != 'exc' or spec[0] != 'exc':
                eng.prove(False, 'outcome', detail='the loop is left')
                return
            compare_outcome(eng, cls, out, spec)
            compare_events(eng, cls, real, eng.events, {})
            return
        if out[0] == 'exc':
            eng.prove(False, 'no exception', detail=exc_text(out[1]))
            return
        if eng.fold_done is None:
            eng.prove(False, 'there is a loop')
            return
        g = eng.fold_done.final_ghost
        evs = eng.events
        evs = evs[1 + max(i for i, e in enumerate(evs) if
                          e[0] == 'LOOP' and e[2] == 'stream'):]
        eng.events = []
        fold.goes_on(g, 'the loop ends only when there is no more', False)
        want = run_outcome(eng, lambda: fold.call(
            cls.finish, g, *eng.env['old']))
        compare_outcome(eng, cls, out, want)
        compare_events(eng, cls, evs, eng.events, {})
        if cls.frame:
            compare_state(eng, cls, args, eng.env['old'])
        if cls.after is not None:
            for label, b in iter_ensures(eng, eng.call(
                    cls.after, [out[1]] + args)):
                eng.prove(eng.models.as_bool_term(b), label)


class Lemma(Contract):
    """A proof script over contracts: every assert is an obligation."""
    @classmethod
    def run(cls, eng):
        c = Ctx(eng)
        args = cls.setup(c)
        base = Frame(eng.wrap_quiet(base_marker), 0)
        base.locals = {'arg_%d' % i: a for i, a in enumerate(args)}
        base.birth = 0
        eng.frames.append(base)
        if cls.requires is not None:
            if not eng.truth(eng.call(cls.requires, args)):
                raise Infeasible()
        eng.env['args'] = args
        eng.env['old'] = None
        fn = cls.prove
        frame_fn = eng.wrap_quiet(fn)
        try:
            eng.call_func(frame_fn, args, {})
        except PyExc as e:
            eng.prove(False, 'assertion holds / nothing is raised',
                      detail=exc_text(e))
            return
        eng.obligations.append(Obligation('all assertions on this path',
                                          'discharged', 'path'))


def base_marker():
    pass


def exc_text(e):
    return '%s%s at %s' % (e.cls.__name__, '', e.origin)


def run_outcome(eng, thunk):
    try:
        return ('ret', realise(eng, thunk()))
    except PyExc as e:
        return ('exc', e)


def realise(eng, v):
    """Run a generator to its end, recording what it yields as events."""
    if isinstance(v, GenVal):
        def give(x):
            eng.emit(('yield', x))
        if eng.trace is None:
            give.bulk = lambda l: eng.emit(('yields', snapshot([l])[0]))
        v.run(give)
        return ('generator',)
    return v


def iter_ensures(eng, r):
    if isinstance(r, SDict):
        for k, v in r.items.items():
            yield k, v
    else:
        yield 'postcondition', r


def list_events(eng, evs):
    l = SList(items=[])
    l.birth = eng.birth()
    for e in evs:
        if e[0] == 'msg':
            d = SDict(items=dict(e[3]))
            d.birth = eng.birth()
            l.items.append(('msg', e[1], e[2], d))
        else:
            l.items.append(tuple(e))
    return l


def compare_outcome(eng, cls, a, b):
    if a[0] != b[0]:
        d = 'real code: %s; specification: %s' % (
            exc_text(a[1]) if a[0] == 'exc' else 'returns',
            exc_text(b[1]) if b[0] == 'exc' else 'returns')
        # (an attribute that only the objects of the contract lack, perhaps)
        eng.prove(False, 'outcome', detail=d, weak=a[0] == 'exc' and
                  issubclass(a[1].cls, (AttributeError, TypeError)))
        return
    if a[0] == 'exc':
        if not any(issubclass(b[1].cls, x) for x in cls.may_raise):
            eng.prove(False, 'the specification raises', detail=exc_text(b[1]))
        eng.prove(a[1].cls is b[1].cls, 'exception class',
                  detail='%s vs %s' % (a[1].cls, b[1].cls))
        return
    x, y = a[1], b[1]
    if cls.part is not None:
        eng.prove(isinstance(x, tuple) and len(x) == cls.parts,
                  'number of results')
        if not isinstance(x, tuple) or len(x) != cls.parts:
            return
        x = x[cls.part]
    for label, t in same(eng, x, y, 'result'):
        eng.prove(t, label)


def same(eng, a, b, label, seen=None):
    """Structural equality as a list of (label, term)."""
    M = eng.models
    if isinstance(a, HashOf) and isinstance(b, HashOf):
        return same(eng, a.v, b.v, label, seen)
    if isinstance(a, SObj) and isinstance(b, SObj):
        seen = seen if seen is not None else set()
        if (id(a), id(b)) in seen or a is b:
            return []
        seen.add((id(a), id(b)))
        if getattr(b, 'copy_of', None) is a and not a.fields and not b.fields:
            return []
        if a.cls is not b.cls:
            return [(label + ': class', False)]
        out = []
        for f in sorted(set(a.fields) | set(b.fields)):
            if f in eng.env.get('ignore', ()):
                continue        # what the contract does not promise
            if f not in a.fields and f in a.lazy or f not in b.fields and f in b.lazy:
                # never touched on one side: compare the lazily made value
                if getattr(b, 'copy_of', None) is a:
                    x, y = eng.getattr(a, f), eng.getattr(b, f)
                else:
                    out.append((label + '.' + f, False))
                    continue
            else:
                if f not in a.fields or f not in b.fields:
                    out.append((label + '.' + f + ': missing', False))
                    continue
                x, y = a.fields[f], b.fields[f]
            out.extend(same(eng, x, y, label + '.' + f, seen))
        return out
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        out = []
        for i, (x, y) in enumerate(zip(a, b)):
            out.extend(same(eng, x, y, '%s[%d]' % (label, i), seen))
        return out
    if isinstance(a, SList) and isinstance(b, SList) and a.concrete and b.concrete:
        if len(a.items) != len(b.items):
            return [(label + ': length', False)]
        out = []
        for i, (x, y) in enumerate(zip(a.items, b.items)):
            out.extend(same(eng, x, y, '%s[%d]' % (label, i), seen))
        return out
    if isinstance(a, SList) and isinstance(b, SList):
        if a.concrete and not a.items:
            return [(label, z3.Length(b.z) == 0)]
        if b.concrete and not b.items:
            return [(label, z3.Length(a.z) == 0)]
    if isinstance(a, SDict) and isinstance(b, SDict):
        if a.concrete and b.concrete:
            if len(a.items) != len(b.items):
                return [(label + ': keys', False)]
            out = []
            for k, j in zip(a.items, b.items):
                if isinstance(k, _Key) and isinstance(j, _Key):
                    if isinstance(k.v, SObj) and isinstance(j.v, SObj):
                        if k.v is not j.v and getattr(
                                j.v, 'copy_of', None) is not k.v:
                            out.append((label + ': keys', False))
                    else:
                        out.append((label + ': keys', M.eq_term(k.v, j.v)))
                elif k != j:
                    return [(label + ': keys', False)]
                out.extend(same(eng, a.items[k], b.items[j],
                                '%s[%s]' % (label, '.' if isinstance(
                                    k, _Key) else repr(k)), seen))
            return out
        if not a.concrete and not b.concrete:
            return [(label, to_term(a, a.t, eng) == to_term(b, a.t, eng))]
        return [(label + ': dict', False)]
    if isinstance(a, Sym) and isinstance(a.t, UnionT) or \
            isinstance(b, Sym) and isinstance(b.t, UnionT):
        if isinstance(a, Sym) and isinstance(b, Sym) and a.t == b.t:
            return [(label, a.z == b.z)]
        return same(eng, eng.force(a), eng.force(b), label, seen)
    if isinstance(a, Sym) and isinstance(a.t, ObjT) and isinstance(b, Sym) and \
            isinstance(b.t, ObjT):
        return [(label, a.z == b.z if a.t == b.t else False)]
    if isinstance(a, bool) != isinstance(b, bool) and is_native(a) and is_native(b):
        return [(label + ': type', False)]
    if type(a) is not type(b) and is_native(a) and is_native(b):
        return [(label + ': type', False)]
    # the types must agree as well as the values
    if not isinstance(a, (SObj, SMatch)) and not isinstance(b, (SObj, SMatch)):
        try:
            ta, tb = typeof(a), typeof(b)
            if {ta.name, tb.name} & {'bool'} and ta != tb:
                return [(label + ': type', False)]
        except Unsupported:
            pass
    return [(label, M.eq_term(a, b))]


def compare_events(eng, cls, a, b, ident):
    ta = [e for e in a if not (e[0] == 'LOOP' and not e[3])]
    tb = [e for e in b if not (e[0] == 'LOOP' and not e[3])]
    # messages of different kinds may come in any order
    ta, tb = ([e for e in t if e[0] != 'msg'] + sorted(
        (e for e in t if e[0] == 'msg'), key=ev_name) for t in (ta, tb))
    if any(e[0] == 'yields' for e in ta + tb):
        ta, tb = join_yields(eng, ta, tb), join_yields(eng, tb, ta)
    if len(ta) != len(tb):
        # (the same text may be printed in other portions)
        eng.prove(False, 'messages and yields',
                  weak=any(e[0] == 'print' for e in ta + tb),
                  detail='real: %s; specification: %s' % (
                      [ev_name(e) for e in ta], [ev_name(e) for e in tb]))
        return
    for x, y in zip(ta, tb):
        if x[0] != y[0]:
            eng.prove(False, 'event kind', detail='%s vs %s' % (ev_name(x), ev_name(y)))
            return
        if x[0] == 'LOOP':
            if x[2] is None or x[2] != y[2]:
                raise Unsupported('messages inside a loop without a fold')
            continue
        if x[0] == 'msg':
            if x[1] is not y[1]:
                eng.prove(False, 'message', detail='%s vs %s' % (
                    ev_name(x), ev_name(y)))
                return
            n = x[1].__name__
            for label, t in same(eng, x[2], y[2], n + ' where'):
                eng.prove(t, label)
            if set(x[3]) != set(y[3]):
                eng.prove(False, n + ' fields', detail='%s vs %s' % (
                    sorted(x[3]), sorted(y[3])))
                return
            for k in sorted(x[3]):
                for label, t in same(eng, x[3][k], y[3][k], n + ' ' + k):
                    eng.prove(t, label)
            continue
        if len(x) != len(y):
            eng.prove(False, 'event')
            return
        for i, (p, q) in enumerate(zip(x[1:], y[1:])):
            for label, t in same(eng, p, q, '%s %d' % (x[0], i)):
                eng.prove(t, label)


def join_yields(eng, evs, others):
    """What is yielded in a row, as one list."""
    t = next(SeqT(e[1].elem) for e in evs + others
             if e[0] == 'yields' and e[1].elem is not None)
    out = []
    for e in evs:
        if e[0] not in ('yield', 'yields'):
            out.append(e)
            continue
        z = to_term(e[1] if e[0] == 'yields' else SList(items=[e[1]]), t, eng)
        if out and out[-1][0] == 'yields':
            z = z3.Concat(out.pop()[1].z, z)
        l = SList(z=z3.simplify(z), elem=t.elem)
        l.birth = eng.birth()
        out.append(('yields', l))
    return [e for e in out if e[0] != 'yields' or
            not eng.entails(z3.Length(e[1].z) == 0)]


def ev_name(e):
    return e[1].__name__ if e[0] == 'msg' else str(e[0])


def compare_state(eng, cls, args, snap):
    for i, (a, b) in enumerate(zip(args, snap)):
        if isinstance(a, (SObj, SList, SDict, SSet)):
            for label, t in same(eng, a, b, 'state of argument %d' % i):
                eng.prove(t, label)


def snapshot(args):
    """A copy of the mutable object graph below the arguments."""
    memo = {}

    def cp(v):
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, SObj):
            if getattr(v, 'shared', False):
                return v
            n = SObj(v.cls, {}, v.lazy, v.frozen)
            memo[id(v)] = n
            n.birth = v.birth
            n.copy_of = v
            v.has_copy = True
            n.fields = {k: cp(x) for k, x in v.fields.items()}
            # a field that materialises later must be the same on both sides
            n.lazy = {k: LazyShare(v, k, memo) for k in v.lazy if k not in v.fields}
            v.lazy = dict(v.lazy)
            return n
        if isinstance(v, SList):
            n = SList(items=None if v.items is None else [cp(i) for i in v.items],
                      z=v.z, elem=v.elem, cls=v.cls)
            memo[id(v)] = n
            n.birth = v.birth
            return n
        if isinstance(v, SDict):
            n = SDict(items=None if v.items is None else
                      {_Key(cp(k.v)) if isinstance(k, _Key) else k: cp(x)
                       for k, x in v.items.items()}, z=v.z, t=v.t,
                      default=v.default)
            memo[id(v)] = n
            n.birth = v.birth
            return n
        if isinstance(v, SSet):
            n = SSet(items=None if v.items is None else set(v.items), z=v.z,
                     elem=v.elem, chars=v.chars, filt=v.filt)
            memo[id(v)] = n
            n.birth = v.birth
            return n
        if isinstance(v, tuple):
            return tuple(cp(i) for i in v)
        return v
    return [cp(a) for a in args]


class LazyShare:
    """The initial value of a lazily created field of the original."""
    def __init__(self, orig, field, memo):
        self.orig, self.field, self.memo = orig, field, memo

    def __call__(self, eng, obj):
        o, f = self.orig, self.field
        init = o.__dict__.setdefault('initial', {})
        if f not in init:
            if f in o.fields:
                # written before it was ever read: its old value is unconstrained,
                # but shared from now on
                spec = o.lazy[f]
                init[f] = spec(eng, o) if callable(spec) and not isinstance(
                    spec, smt.T) else eng.fresh(spec, f)
            else:
                eng.getattr(o, f)
        v = init[f]
        if isinstance(v, (SObj, SList, SDict, SSet)):
            return snapshot([v])[0]
        return v


Engine.snapshot = staticmethod(snapshot)


def construct_hook(eng, cls, args, kwargs):
    from asterisklint.defines import MessageDef
    if isinstance(cls, type) and issubclass(cls, MessageDef):
        return message_event(eng, cls, args, kwargs)
    return NotImplemented


def message_event(eng, cls, args, kwargs):
    """Instantiating a message class is an observable event."""
    import string
    from asterisklint.defines import DupeDefMixin
    kw = dict(kwargs)
    if args:
        if len(args) > 2:
            raise PyExc(TypeError('message arguments'))
        where = args[0]
        if len(args) == 2:
            kw['previous'] = args[1]
    elif 'where' in kw:
        where = kw.pop('where')
    else:
        raise PyExc(TypeError('missing where'))
    if issubclass(cls, DupeDefMixin):
        if len(args) > 1:
            raise PyExc(TypeError('message arguments'))
        prev = kw.get('previous')
        if prev is None or not eng.truth(prev):
            raise PyExc(TypeError('requires a previous argument'), cls.__name__)
    for lit, field, spec, conv in string.Formatter().parse(cls.message):
        if field is None:
            continue
        base = field.split('.')[0].split('[')[0]
        if base not in kw or base == 'previous':
            raise PyExc(KeyError(base), 'format of ' + cls.__name__)
    eng.emit(('msg', cls, where, kw))
    o = SObj(cls, {})
    o.birth = eng.birth()
    return o
