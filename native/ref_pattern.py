"""The pattern language (C13..C15), independent of /repo."""

NAMED = {'X': '0123456789', 'Z': '123456789', 'N': '23456789'}


class BadPattern(ValueError):
    pass


class Pat:
    """kind: 0 plain, 1 pattern; tokens: sets of bytes, '.' or '!'"""

    def __init__(self, raw):
        self.raw = raw
        self.kind = int(raw.startswith('_'))
        self.tokens = []
        data = raw.encode('utf-8')
        if not self.kind:
            self.tokens = [frozenset((b,)) for b in data if b != 0x2d]
            return
        i = 1
        while i < len(data):
            c = chr(data[i])
            if c == '-':
                pass
            elif c.upper() in NAMED and c.isascii():
                self.tokens.append(frozenset(NAMED[c.upper()].encode()))
            elif c in '.!':
                self.tokens.append(c)
            elif c == '[':
                end = data.find(b']', i)
                if end < 0 or end == i + 1:
                    raise BadPattern(raw)
                self.tokens.append(self.set_of(data[i + 1:end]))
                i = end
            else:
                self.tokens.append(frozenset((data[i],)))
            i += 1

    @staticmethod
    def set_of(body):
        out, i = set(), 0
        while i < len(body):
            if i + 2 < len(body) and body[i + 1] == 0x2d:
                lo, hi = sorted((body[i], body[i + 2]))
                out.update(range(lo, hi + 1))
                i += 3
            else:
                out.add(body[i])
                i += 1
        return frozenset(out)

    # -- order

    def key(self):
        def one(t):
            if t == '.':
                return (0x18000,)
            if t == '!':
                return (0x28000,)
            num = len(t) * 256 + min(t)
            if max(t) - min(t) + 1 != len(t):
                return (num, bytes(sorted(t)))
            return (num,)
        return (self.kind,) + tuple(one(t) for t in self.tokens) + \
            (((0x30000,),) if self.kind else ())

    def __eq__(self, other):
        return (self.kind, self.tokens) == (other.kind, other.tokens)

    def __hash__(self):
        return hash((self.kind, tuple(self.tokens)))

    # -- meaning

    def matches(self, extension):
        data = extension.replace('-', '').encode('utf-8', 'surrogateescape')
        for i, b in enumerate(data):
            if i >= len(self.tokens):
                return False
            t = self.tokens[i]
            if t in ('.', '!'):
                return True
            if b not in t:
                return False
        rest = self.tokens[len(data):]
        return not rest or rest[0] == '!'

    # -- canonical form

    def canonical(self):
        simple = all(t not in ('.', '!') and len(t) == 1 for t in self.tokens)
        if simple:
            data = bytes(min(t) for t in self.tokens)
            if not self.kind or (data and data[0] != 0x5f and
                                 0x2d not in data):
                return data.decode('utf-8', 'surrogateescape')
        out = b'_'
        for t in self.tokens:
            if t in ('.', '!'):
                out += t.encode()
            elif len(t) == 1:
                b = bytes(t)
                out += b'[' + b + b']' if b in (b'!', b'-', b'.', b'[') or \
                    b.upper() in b'XZN' else b
            else:
                for n, digits in NAMED.items():
                    if t == frozenset(digits.encode()):
                        out += n.encode()
                        break
                else:
                    out += b'[' + self.canonical_set(t) + b']'
        return out.decode('utf-8', 'surrogateescape')

    @staticmethod
    def canonical_set(t):
        items = sorted(t)
        contiguous = items[-1] - items[0] + 1 == len(items)

        def span(lo, hi):
            if hi - lo < 3 and not lo < 0x5d < hi:
                return bytes(range(lo, hi + 1))
            return bytes((lo, 0x2d, hi))
        if contiguous:
            return span(items[0], items[-1])
        dash = b''
        if 0x2d in t:
            items.remove(0x2d)
            dash = b'-'
        parts = []
        while items:
            n = 1
            while n < len(items) and items[n] == items[0] + n:
                n += 1
            if n >= 3:
                parts.append((items[0], items[n - 1]))
                del items[:n]
            else:
                parts.append((items[0], items[0]))
                del items[:1]
        parts.sort(key=lambda p: (
            not (chr(p[0]).isalnum() and p[0] < 128), p[0]))
        return b''.join(span(*p) for p in parts) + dash

    def is_canonical(self):
        raw, i, out = self.raw, 0, ''
        while i < len(raw):
            if self.kind and raw[i] == '[':
                end = raw.index(']', i)
                out += raw[i:end + 1]
                i = end + 1
            else:
                out += raw[i] if raw[i] != '-' else ''
                i += 1
        return out == self.canonical()

    def example(self):
        """Any extension that matches, or None."""
        out = b''
        for t in self.tokens:
            if t == '.':
                return True
        return out
