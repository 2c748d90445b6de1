"""Contracts of asterisklint/pattern.py."""
import re

from asterisklint.pattern import Pattern

from pyvc.api import Contract, inv, variant
from pyvc.ghost import (
    ghost, specfn, BOOL, BYTE, BYTES, INT, STR, SeqT, TupT, UnionT)

P = 'asterisklint.pattern:'

NUMS = SeqT(INT)
VALUE = UnionT(TupT(INT), TupT(INT, BYTES))     # one character, or set
VALUES = SeqT(VALUE)
ELEMENT = UnionT(INT, TupT(INT), TupT(INT, BYTES))

ONE_OR_MORE, ZERO_OR_MORE, END, INVALID = 0x18000, 0x28000, 0x30000, 0x40000

# -- character sets (C13)

@specfn(SeqT(BYTE), ret=SeqT(BYTE))
def listed(raw):
    """Every byte a set mentions, in order."""
    if len(raw) < 3:
        return raw
    if raw[1] == 0x2d:
        a, b = raw[0], raw[2]
        if a > b:
            a, b = b, a
        return [a] + list(range(a + 1, b + 1)) + listed(raw[3:])
    return [raw[0]] + listed(raw[1:])


@specfn(SeqT(BYTE), ret=VALUE)
def value_of_set(raw):
    if len(raw) == 0:
        return (INVALID,)
    used = list(set(listed(raw)))
    used.sort()
    num = len(used) * 0x100 | used[0]
    if len(used) > 1 and used[-1] - used[0] != len(used) - 1:
        return (num, bytes(used))
    return (num,)


class ParseSet(Contract):
    target = P + 'Pattern.parse_range_list'
    props = ('C13',)

    def setup(c):
        return [Pattern, c.list(BYTE, 'rawlist')]

    def requires(cls, rawlist):
        return len(rawlist) > 0

    def spec(cls, rawlist):
        return value_of_set(rawlist)

    @inv
    def so_far(args, rawlist, usedlist):
        return usedlist + listed(rawlist) == listed(args[1])

    @variant
    def shrinks(rawlist):
        return len(rawlist)


# -- from text to values (C13)

@specfn(NUMS, ret=VALUES)
def values_of(raw):
    """The values of the bytes after the underscore."""
    if len(raw) == 0:
        return [(END,)]
    byte, rest = raw[0], raw[1:]
    if byte == 0x2d:
        return values_of(rest)
    if byte in (0x58, 0x78):
        return [(10 * 0x100 + 0x30,)] + values_of(rest)
    if byte in (0x5a, 0x7a):
        return [(9 * 0x100 + 0x31,)] + values_of(rest)
    if byte in (0x4e, 0x6e):
        return [(8 * 0x100 + 0x32,)] + values_of(rest)
    if byte == 0x2e:
        return [(ONE_OR_MORE,)] + values_of(rest)
    if byte == 0x21:
        return [(ZERO_OR_MORE,)] + values_of(rest)
    if byte == 0x5b:
        if 0x5d not in rest or rest[0] == 0x5d:
            return [(INVALID,)]
        end = rest.index(0x5d)
        return [value_of_set(rest[:end])] + values_of(rest[end + 1:])
    return [(0x100 + byte,)] + values_of(rest)


def encodable(text):
    try:
        bytes(text, 'utf-8')
    except UnicodeEncodeError:
        return False
    return True


class ParsePattern(Contract):
    target = P + 'Pattern.parse_pattern'
    props = ('C13', 'C14', 'C15')
    uses = (ParseSet,)

    def setup(c):
        return [Pattern, c.str('raw')]

    def requires(cls, raw):
        return encodable(raw)

    def spec(cls, raw):
        return values_of(list(bytes(raw, 'utf-8')))

    @inv
    def so_far(args, raw, ret):
        return ret + values_of(raw) == values_of(
            list(bytes(args[1], 'utf-8')))

    @variant
    def shrinks(raw):
        return len(raw)


# -- matching (C14)

@specfn(VALUE, BYTE, ret=BOOL)
def in_set(value, byte):
    if len(value) == 2:
        return byte in value[1]
    size = (value[0] >> 8) & 0xff
    first = value[0] & 0xff
    return first <= byte and byte < first + size


@specfn(VALUES, BYTES, INT, ret=BOOL)
def fits(values, text, i):
    """Do the values from i on match the text from i on?"""
    if i < 0:
        return False
    if i >= len(text):
        return i >= len(values) or values[i][0] in (ZERO_OR_MORE, END)
    if i >= len(values) or values[i][0] == END:
        return False
    if values[i][0] in (ONE_OR_MORE, ZERO_OR_MORE):
        return True
    return in_set(values[i], text[i]) and fits(values, text, i + 1)


class Matches(Contract):
    target = P + 'Pattern.matches_extension'
    props = ('C14',)

    def setup(c):
        self = c.obj(Pattern, values=c.val(VALUES, 'values'))
        return [self, c.str('extension')]

    def requires(self, extension):
        try:
            extension.replace('-', '').encode('utf-8', 'surrogateescape')
        except UnicodeEncodeError:
            return False
        return len(self.values) > 0

    def spec(self, extension):
        text = extension.replace('-', '').encode('utf-8', 'surrogateescape')
        return fits(self.values[1:], text, 0)

    @inv
    def rest(args, _k, _it):
        self = args[0]
        return fits(self.values[1:], _it, 0) == fits(
            self.values[1:], _it, _k)

    @inv
    def index(_k, i):
        return i == _k - 1


# -- the whole value of a pattern, and comparing them (C13, C15)

ELEMENTS = SeqT(ELEMENT)


class Parse(Contract):
    target = P + 'Pattern.parse'
    props = ('C13', 'C14', 'C15')
    uses = (ParsePattern,)

    def setup(c):
        return [Pattern, c.str('raw')]

    def requires(cls, raw):
        return encodable(raw) and encodable(raw[1:])

    def spec(cls, raw):
        if raw == '':
            return (-1, (INVALID,))
        if raw[0] == '_':
            return tuple([1] + values_of(list(bytes(raw[1:], 'utf-8'))))
        return tuple([0] + [(0x100 + byte,) for byte in bytes(raw, 'utf-8')
                            if byte != 0x2d])


def two_patterns(c):
    return [c.obj(Pattern, values=c.val(ELEMENTS, 'values')),
            c.choice(None, c.obj(Pattern, values=c.val(ELEMENTS, 'others')))]


class IsValid(Contract):
    target = P + 'Pattern.is_valid'
    props = ('C13',)

    def setup(c):
        return [c.obj(Pattern, values=c.val(ELEMENTS, 'values'))]

    def requires(self):
        return len(self.values) > 0

    def spec(self):
        return self.values[-1] != (INVALID,)


class Equal(Contract):
    target = P + 'Pattern.__eq__'
    props = ('C15',)

    setup = two_patterns

    def spec(self, other):
        return other is not None and self.values == other.values


class Same(Contract):
    target = P + 'Pattern.matches_same'
    props = ('C15',)

    setup = two_patterns

    def requires(self, other):
        # a pattern ends in its end marker, plain text does not
        return len(self.values) > 0 and self.values[0] in (0, 1) and (
            other is None or (len(other.values) > 0
                              and other.values[0] in (0, 1)))

    def spec(self, other):
        if other is None:
            return False
        mine, theirs = self.values, other.values
        if mine[0] == theirs[0]:
            return mine == theirs
        if mine[0] == 1:
            return mine[1:-1] == theirs[1:]
        return mine[1:] == theirs[1:-1]


class Less(Contract):
    target = P + 'Pattern.__lt__'
    props = ('C15',)
    setup = two_patterns

    def spec(self, other):
        # the order of Python sequences
        return other is not None and self.values < other.values


class Hash(Contract):
    """Patterns with the same values have the same hash."""
    target = P + 'Pattern.__hash__'
    props = ('C15',)

    def setup(c):
        values = c.val(ELEMENTS, 'values')
        c.ghost(twin=c.obj(Pattern, values=values, raw=c.str('other raw')))
        return [c.obj(Pattern, values=values, raw=c.str('raw'))]

    def spec(self):
        return hash(ghost('twin'))


# -- the canonical form (C13)

RANGE = UnionT(TupT(INT), TupT(INT, INT))
RANGES = SeqT(RANGE)


@specfn(NUMS, INT, ret=INT)
def run_end(numbers, i):
    """Where the numbers that count up from the first one end."""
    if i + 1 >= len(numbers) or numbers[i + 1] - numbers[0] != i + 1:
        return i
    return run_end(numbers, i + 1)


@specfn(NUMS, ret=RANGES)
def runs(numbers):
    """Three or more consecutive numbers make a range."""
    if len(numbers) == 0:
        return []
    end = run_end(numbers, 0)
    if end >= 2:
        return [(numbers[0], numbers[end])] + runs(numbers[end + 1:])
    return [(numbers[0],)] + runs(numbers[1:])


class GetRanges(Contract):
    target = P + 'Pattern._canonical_pattern_get_ranges'
    props = ('C13',)

    def setup(c):
        return [c.obj(Pattern), c.list(INT, 'binstr')]

    def spec(self, binstr):
        found = runs(binstr)
        binstr[:] = []
        return found

    @inv
    def so_far(binstr, ranges, old):
        return ranges + runs(binstr) == runs(old[1])

    @inv
    def counting(binstr, maxi, i):
        return 1 <= i and (i == 1 or i <= maxi + 1) and \
            maxi + 1 == len(binstr) and \
            binstr[i - 1] - binstr[0] == i - 1 and \
            run_end(binstr, 0) == run_end(binstr, i - 1)

    @variant
    def shrinks(binstr, ranges):
        return len(binstr)

    @variant
    def goes_on(maxi, i):
        return maxi + 1 - i


@specfn(RANGE, ret=INT)
def by_kind(range_):
    """Digits and letters come first."""
    first = range_[0]
    if (0x30 <= first and first <= 0x39) or \
            (0x41 <= first and first <= 0x5a) or \
            (0x61 <= first and first <= 0x7a):
        return first
    return first + 0x100


class RangeSort(Contract):
    target = P + 'Pattern._canonical_pattern_range_sort'
    props = ('C13',)

    def setup(c):
        return [c.val(RANGE, 'range_')]

    def spec(range_):
        return by_kind(range_)


def in_full(first, last):
    """Up to three characters; a "]" cannot stand in a set, but it can be
    inside a range."""
    size = last - first + 1
    if size > 3 or first + 1 == 0x5d:
        return [first, 0x2d, last]
    if size == 3:
        return [first, first + 1, first + 2]
    if size == 2:
        return [first, first + 1]
    return [first] if size == 1 else []


@specfn(RANGES, INT, ret=NUMS)
def written(ranges, i):
    """The ranges from i on as they stand between brackets."""
    if i < 0 or i >= len(ranges):
        return []
    if len(ranges[i]) == 1:
        return [ranges[i][0]] + written(ranges, i + 1)
    return in_full(ranges[i][0], ranges[i][1]) + written(ranges, i + 1)


@specfn(NUMS, ret=RANGES, unfold=False)
def ranges_of(numbers):
    """The runs, whatever they are (GetRanges)."""
    return runs(numbers)


def clear(numbers):
    numbers[:] = []


def get_ranges(e, self, numbers):
    found = e.models.apply_spec(ranges_of.__specfn__, [numbers])
    e.call(clear, [numbers])
    return found


class AddRange(Contract):
    target = P + 'Pattern._canonical_pattern_add_range'
    props = ('C13',)
    uses = (RangeSort,)
    env = {('key', Pattern._canonical_pattern_range_sort): by_kind,
           ('call', Pattern._canonical_pattern_get_ranges): get_ranges}

    def setup(c):
        return [c.obj(Pattern), c.list(INT, 'ret'), c.list(INT, 'binstr')]

    def requires(self, ret, binstr):
        return len(binstr) > 0

    def spec(self, ret, binstr):
        dash = 0x2d in binstr
        if dash:
            binstr.remove(0x2d)
        ranges = ranges_of(binstr)
        ranges.sort(key=by_kind)
        ret.extend([0x5b] + written(ranges, 0) + ([0x2d] if dash else []) +
                   [0x5d])
        binstr[:] = []

    @inv
    def so_far(ret, old, _it, _k):
        return ret + written(_it, _k) == old[1] + [0x5b] + written(_it, 0)


@specfn(NUMS, ret=NUMS, unfold=False)
def set_text(numbers):
    """What is written for a set with gaps (AddRange)."""
    return numbers


def add_set(ret, numbers):
    ret.extend(set_text(numbers))


def piece(value):
    """How one value is written."""
    if len(value) == 2:
        return set_text(list(value[1]))
    number = value[0]
    first = number & 0xff
    if number < 0x200:
        # what would mean something else stands in a set
        if first in (0x21, 0x2d, 0x2e, 0x5b, 0x4e, 0x58, 0x5a, 0x6e, 0x78,
                     0x7a):
            return [0x5b, first, 0x5d]
        return [first]
    if number == 0xa30:
        return [0x58]
    if number == 0x931:
        return [0x5a]
    if number == 0x832:
        return [0x4e]
    if number == ONE_OR_MORE:
        return [0x2e]
    if number == ZERO_OR_MORE:
        return [0x21]
    size = (number & 0xff00) >> 8
    if size == 2:
        return [0x5b, first, first + 1, 0x5d]
    if size == 3 and first + 1 != 0x5d:
        return [0x5b, first, first + 1, first + 2, 0x5d]
    return [0x5b, first, 0x2d, first + size - 1, 0x5d]


@specfn(VALUES, INT, ret=NUMS)
def text_of(values, i):
    """How the values from i on are written."""
    if i < 0 or i >= len(values):
        return []
    return piece(values[i]) + text_of(values, i + 1)


@specfn(NUMS, ret=BYTES, unfold=False)
def as_bytes(numbers):
    return bytes(numbers)


def to_bytes(e, numbers):
    return e.models.apply_spec(as_bytes.__specfn__, [e.call(list, [numbers])])


class PatternText(Contract):
    target = P + 'Pattern._canonical_pattern_range'
    props = ('C13',)
    env = {('call', Pattern._canonical_pattern_add_range):
           lambda e, self, ret, numbers: e.call(add_set, [ret, numbers]),
           ('new', bytes): to_bytes}

    def setup(c):
        return [c.obj(Pattern), c.val(VALUES, 'values')]

    def spec(self, values):
        return as_bytes(text_of(values, 0))

    @inv
    def so_far(ret, _it, _k):
        return ret + text_of(_it, _k) == text_of(_it, 0)


class Values:
    """Stands for the values of a pattern: the kind and the rest."""

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.start == 1 and i.stop is None:
                return self.rest
            if i.start == 1 and i.stop == -1:
                return self.rest[:-1]
            raise AttributeError('other slices')
        if i == 0:
            return self.kind
        return self.rest[-1] if i == -1 else self.rest[i - 1]


@specfn(VALUES, ret=BYTES, unfold=False)
def pattern_bytes(values):
    """What is written for the values (PatternText)."""
    return as_bytes(text_of(values, 0))


class CanonicalText(Contract):
    target = P + 'Pattern.canonical_pattern'
    props = ('C13',)
    env = {('new', bytes): to_bytes,
           ('call', Pattern._canonical_pattern_range):
           lambda e, self, values: e.models.apply_spec(
               pattern_bytes.__specfn__, [values])}

    def setup(c):
        values = c.obj(Values, kind=c.choice(0, 1),
                       rest=c.val(VALUES, 'rest'))
        return [c.obj(Pattern, values=values)]

    def requires(self):
        return self.values.kind == 0 or len(self.values.rest) > 0

    def spec(self):
        kind, rest = self.values.kind, self.values.rest
        if kind == 0:
            text = bytes((i[0] & 0xff) for i in rest).decode(
                'utf-8', 'surrogateescape')
        elif rest[-1] == (END,) and rest[0] not in ((0x15f,), (END,)) and all(
                i[0] < 0x200 and i[0] != 0x12d for i in rest[:-1]):
            text = bytes((i[0] & 0xff) for i in rest[:-1]).decode(
                'utf-8', 'surrogateescape')
        else:
            text = '_' + pattern_bytes(rest[:-1]).decode(
                'utf-8', 'surrogateescape')
        self._canonical_pattern = text
        return text


NO_DASH = r'(\[[^]]+\]|[^-])'


@specfn(STR, ret=SeqT(STR), unfold=False)
def undashed(text):
    """The sets of a text, and its other characters but the dashes."""
    return re.findall(NO_DASH, text)


class IsCanonical(Contract):
    target = P + 'Pattern.is_canonical'
    props = ('C13',)
    env = {('attr', Pattern, 'canonical_pattern'):
           lambda e, self: e.getattr(self, 'its_text'),
           ('findall', NO_DASH): undashed}

    def setup(c):
        values = c.obj(Values, kind=c.choice(0, 1),
                       rest=c.val(VALUES, 'rest'))
        return [c.obj(Pattern, values=values, raw=c.str('raw'),
                      its_text=c.str('canonical'))]

    def spec(self):
        raw = self.raw
        if self.values.kind == 0:
            raw = raw.replace('-', '')
        else:
            raw = ''.join(undashed(raw))
        self._is_canonical = raw == self.its_text
        return self._is_canonical
