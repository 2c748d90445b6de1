"""Every place that raises a message, against the precondition of messages.

The constructor of a message requires a position and every field that its
text uses, and of a duplicate also the earlier occurrence (OnMessage, C24,
is the contract of what follows).  Whether a caller meets that does not depend
on values: it is decided on the syntax of each call in the package, one
obligation per call and requirement.  That the position is one, and that the
earlier occurrence is never empty, is an obligation of the contract of each
function that reports (C06, C11, C12, C26: message_event in pyvc/api.py)."""
import ast
import builtins
import os
import pkgutil
import string
import time

import asterisklint
from asterisklint.defines import DupeDefMixin, MessageDef

from pyvc.api import Contract

ROOT = os.path.dirname(asterisklint.__file__)


def fields_of(cls):
    return {f.split('.')[0].split('[')[0] for _, f, _, _ in
            string.Formatter().parse(cls.message) if f is not None}


def message_class(node, scope):
    """The message class that an expression names, if any."""
    try:
        if isinstance(node, ast.Name):
            v = scope.get(node.id, getattr(builtins, node.id, None))
        elif isinstance(node, ast.Attribute):
            v = getattr(message_module(node.value, scope), node.attr, None)
        else:
            return None
    except AttributeError:
        return None
    return v if isinstance(v, type) and issubclass(v, MessageDef) else None


def message_module(node, scope):
    if isinstance(node, ast.Name):
        return scope.get(node.id)
    if isinstance(node, ast.Attribute):
        return getattr(message_module(node.value, scope), node.attr, None)
    return None


def modules():
    """(name, file) of every module of the package."""
    out = []
    for base, dirs, names in os.walk(ROOT):
        dirs[:] = sorted(d for d in dirs if d not in ('__pycache__',))
        for n in sorted(names):
            if n.endswith('.py'):
                out.append(os.path.join(base, n))
    return out


def scope_of(tree, path):
    """The messages that the names of a module stand for."""
    out = {}
    by_name = {}
    todo = [MessageDef]
    while todo:
        c = todo.pop()
        by_name[c.__name__] = c
        todo.extend(c.__subclasses__())
    for node in ast.walk(tree):
        if isinstance(node, ast.ImportFrom):
            for a in node.names:
                if a.name in by_name:
                    out[a.asname or a.name] = by_name[a.name]
        elif isinstance(node, ast.ClassDef) and node.name in by_name:
            out[node.name] = by_name[node.name]
    return out


def load_all():
    """Import what can be imported, so that all messages are known."""
    import importlib
    for m in pkgutil.walk_packages([ROOT], 'asterisklint.'):
        if '.commands.' in m.name:
            continue            # these have dashes in their names
        try:
            importlib.import_module(m.name)
        except ImportError:
            pass


class CallSites(Contract):
    name = 'every call of a message class'
    target = 'asterisklint.defines:MessageDef.__init__'
    props = ('C25',)

    @classmethod
    def verify(cls, debug=False):
        t0 = time.time()
        load_all()
        done, refuted, unknown = 0, [], []

        def prove(ok, what, where):
            nonlocal done
            if ok is None:
                unknown.append((what, where))
            elif ok:
                done += 1
            else:
                refuted.append((what, where))
        for path in modules():
            with open(path) as fp:
                tree = ast.parse(fp.read())
            scope = scope_of(tree, path)
            rel = os.path.relpath(path, ROOT)
            called = set()
            for node in ast.walk(tree):
                if not isinstance(node, ast.Call):
                    continue
                c = message_class(node.func, scope)
                if c is None:
                    continue
                called.add(id(node.func))
                place = '%s:%d' % (rel, node.lineno)
                star = any(isinstance(a, ast.Starred) for a in node.args)
                kw = {k.arg for k in node.keywords}
                some = star or None in kw
                args = len(node.args)
                n = c.__name__ + ': '
                dupe = issubclass(c, DupeDefMixin)
                prove(None if some and not args and 'where' not in kw else
                      args >= 1 or 'where' in kw, n + 'a position', place)
                prove(None if star else args <= (1 if dupe else 2),
                      n + 'no more positional arguments', place)
                for f in sorted(fields_of(c)):
                    have = f in kw or f == 'where' and False
                    prove(True if have else None if some else False,
                          n + 'the field ' + f, place)
                if dupe:
                    prove(True if 'previous' in kw else None if some else
                          False, n + 'the earlier occurrence', place)
            for node in ast.walk(tree):
                if not isinstance(node, (ast.Name, ast.Attribute)) or \
                        id(node) in called or \
                        not isinstance(node.ctx, ast.Load):
                    continue
                c = message_class(node, scope)
                if c is None or c.__name__.endswith('Def'):
                    continue
                # used in another way, for instance called under another
                # name: then it may not need any field
                up = parent_use(tree, node)
                if up == 'attribute':
                    continue
                prove(True if not fields_of(c) and not issubclass(
                    c, DupeDefMixin) else None, c.__name__ +
                    ': needs no fields, as it is passed on',
                    '%s:%d' % (rel, node.lineno))
        n = done + len(refuted) + len(unknown)
        status = 'refuted' if refuted else 'unknown' if unknown else \
            'proved' if n else 'vacuous'
        return {
            'contract': cls.__name__, 'title': cls.title(),
            'target': cls.target, 'status': status, 'reason': '; '.join(
                '%s at %s' % u for u in unknown[:3]),
            'obligations': n, 'discharged': done,
            'refuted': [(w, p) for w, p in refuted],
            'unknown': [(w, p) for w, p in unknown],
            'backends': {'call-site syntax': done}, 'paths': 0, 'loops': {},
            'dropped': 0, 'inlined': [], 'used': [], 'models': [],
            'time': round(time.time() - t0, 2), 'solver': {}}


def parent_use(tree, node):
    for n in ast.walk(tree):
        for child in ast.iter_child_nodes(n):
            if child is node:
                if isinstance(n, ast.Attribute):
                    return 'attribute'
                return type(n).__name__
    return None
