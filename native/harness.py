"""Running the real code in /repo on concrete inputs, and comparing.

Everything in native/ is the bounded side of the framework: it executes the
real functions and compares them with executable specifications that do not
import asterisklint.  It is used to find and replay concrete counterexamples.
"""
import ast
import contextlib
import io
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)


class Undecided(Exception):
    """The interface used by a harness is not there (any more)."""


def b2s(b):
    return b.decode('latin-1')


def s2b(s):
    return s.encode('latin-1')


class Msg:
    __slots__ = ('name', 'filename', 'lineno', 'args', 'previous')

    def __init__(self, name, where, args=(), previous=None):
        self.name = name
        self.filename, self.lineno = where
        self.args = tuple(sorted(map(str, args)))
        self.previous = previous

    def key(self):
        return (self.name, str(self.filename), self.lineno, self.args,
                self.previous)

    def __repr__(self):
        return '%s:%s %s%r%s' % (
            self.filename, self.lineno, self.name, self.args,
            ' previous=%s:%s' % self.previous if self.previous else '')


def where_of(w):
    if w is None:
        return (None, None)
    if hasattr(w, 'where'):
        w = w.where
    return (w.filename, w.lineno)


@contextlib.contextmanager
def messages():
    """Collects what the real code reports."""
    from asterisklint.defines import MessageDefManager
    MessageDefManager.reset()
    MessageDefManager.muted = True
    out = []
    try:
        yield out
    finally:
        # `raised` is the public record of what was reported
        for name, msgs in MessageDefManager.raised.items():
            for m in msgs:
                m.message.format(**m.fmtkwargs)
                out.append(Msg(
                    name, where_of(m.where), m.fmtkwargs.values(),
                    where_of(m.previous) if m.previous is not None else None))
        MessageDefManager.reset()


class MemFS:
    """An opener over a dict of name -> bytes."""
    def __init__(self, files):
        self.files = {os.path.normpath(k): v for k, v in files.items()}
        self.opened = []

    def __call__(self, filename):
        if '\0' in filename:
            raise ValueError('embedded null byte')
        data = self.files.get(os.path.normpath(filename))
        if data is None:
            raise FileNotFoundError(2, 'No such file or directory', filename)
        fp = io.BytesIO(data)
        fp.name = filename
        self.opened.append(fp)
        return fp


def diff_msgs(real, spec, names=None):
    """Compares two multisets of messages."""
    def select(ms):
        return sorted((m.key() for m in ms
                       if names is None or m.name in names or
                       any(n.endswith('*') and m.name.startswith(n[:-1])
                           for n in names)), key=repr)
    a, b = select(real), select(spec)
    if a == b:
        return None
    extra = list(a)
    missing = []
    for k in b:
        if k in extra:
            extra.remove(k)
        else:
            missing.append(k)
    return 'messages differ: reported but not expected %r; expected but ' \
        'not reported %r' % (extra[:3], missing[:3])


_CONSTS = {}


def source_constants(*relpaths):
    """String and int constants of the current source: a dictionary for the
    generators, so that rare special cases are tried as well."""
    key = relpaths
    if key in _CONSTS:
        return _CONSTS[key]
    strs, ints = set(), set()
    for rel in relpaths:
        try:
            with open(os.path.join(REPO, rel), encoding='utf-8') as fp:
                tree = ast.parse(fp.read())
        except (OSError, SyntaxError):
            continue
        docs = set()
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)):
                if node.body and isinstance(node.body[0], ast.Expr) and \
                        isinstance(node.body[0].value, ast.Constant):
                    docs.add(id(node.body[0].value))
            if isinstance(node, ast.ClassDef):
                for n in node.body:
                    if isinstance(n, ast.Assign) and any(
                            isinstance(t, ast.Name) and t.id == 'message'
                            for t in n.targets):
                        docs.update(id(x) for x in ast.walk(n))
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant) and id(node) not in docs:
                v = node.value
                if isinstance(v, str) and 0 < len(v) <= 24:
                    strs.add(v)
                elif isinstance(v, bytes) and 0 < len(v) <= 24:
                    strs.add(v.decode('latin-1'))
                elif isinstance(v, int) and not isinstance(v, bool) and \
                        2 < v <= 4096:
                    ints.add(v)
    _CONSTS[key] = (sorted(strs), sorted(ints))
    return _CONSTS[key]


def describe(exc):
    import traceback
    tb = traceback.extract_tb(exc.__traceback__)
    at = [f for f in tb if f.filename.startswith(REPO)]
    pos = '%s:%s' % (os.path.relpath(at[-1].filename, REPO), at[-1].lineno) \
        if at else '?'
    return '%s: %s (at %s)' % (type(exc).__name__, exc, pos)


class Prop:
    """One property: how to make cases, and how to judge one."""
    id = None
    what = ''
    rule = ''
    modules = ()       # source files mined for constants
    batch = 1
    amplify = .1       # how often a piece of a case is repeated
    as_is = ()          # but never this part

    def fixed(self):
        """Cases that are always tried."""
        return []

    def gen(self, rng):
        raise NotImplementedError

    def check(self, case):
        """None, or what is wrong."""
        raise NotImplementedError

    def nontrivial(self, case):
        return True
