"""C06, bounded: which datatype descriptions are accepted, against an independent oracle."""
import itertools

from csvw.metadata import Datatype
from csvw.datatypes import DATATYPES
from bounded.lib import Registry, require

check = Registry()
LOWER_IN, LOWER_EX, UPPER_IN, UPPER_EX = ('minimum', 'minInclusive'), ('minExclusive',), \
    ('maximum', 'maxInclusive'), ('maxExclusive',)
BOUNDS = LOWER_IN + LOWER_EX + UPPER_IN + UPPER_EX
LENGTHS = ('length', 'minLength', 'maxLength')
INTS = ('integer', 'int', 'unsignedInt', 'unsignedShort', 'unsignedLong', 'unsignedByte', 'short', 'long', 'byte',
        'nonNegativeInteger', 'positiveInteger', 'nonPositiveInteger', 'negativeInteger')
NUM = INTS + ('decimal', 'float', 'number', 'double')
DATES = ('date', 'datetime', 'dateTime', 'dateTimeStamp', 'time')
DURATIONS = ('duration', 'dayTimeDuration', 'yearMonthDuration')
NO_LENGTH = NUM + DATES + DURATIONS + ('boolean', 'any')


def text(base, n):
    """the text of the n-th smallest value"""
    if base in ('positiveInteger',):
        return str(n + 1)
    if base in ('nonPositiveInteger',):
        return str(n - 5)
    if base == 'negativeInteger':
        return str(n - 6)
    if base in NUM:
        return str(n)
    return {'date': '2020-01-0{}', 'datetime': '2020-01-01T00:00:0{}', 'dateTime': '2020-01-01T00:00:0{}',
            'dateTimeStamp': '2020-01-01T00:00:0{}.000000+00:00', 'time': '00:00:0{}', 'duration': 'P{}D',
            'dayTimeDuration': 'P{}D', 'yearMonthDuration': 'P{}D'}[base].format(n + 1)


def contradictory(spec):
    g = lambda names: [spec[n] for n in names if n in spec]
    li, le, ui, ue = g(LOWER_IN), g(LOWER_EX), g(UPPER_IN), g(UPPER_EX)
    if (li and le) or (ui and ue):
        return True
    if any(lo > hi for lo in li for hi in ui) or any(lo >= hi for lo in li for hi in ue) or \
            any(lo >= hi for lo in le for hi in ui + ue):
        return True
    a, b, c = (spec.get(n) for n in LENGTHS)
    if a is not None and b is not None and a < b:
        return True
    if a is not None and c is not None and a > c:
        return True
    return b is not None and c is not None and b > c


def accepted(base, spec):
    d = {'base': base}
    for k, v in spec.items():
        d[k] = v if k in LENGTHS else (text(base, v) if base in NUM + DATES + DURATIONS else str(v))
    try:
        Datatype.fromvalue(d)
        return True
    except ValueError:
        return False


def verdict(x):
    base, spec = x
    ok = not contradictory(spec)
    if base in NO_LENGTH and any(k in LENGTHS for k in spec):
        ok = False
    if base not in NUM + DATES + DURATIONS and any(k in BOUNDS for k in spec):
        ok = False
    got = accepted(base, spec)
    require(got == ok, 'accepted' if got else 'rejected')


def fixed_bounds():
    for base in ('integer', 'decimal', 'float', 'date'):
        for a in BOUNDS:
            for i in range(3):
                yield base, {a: i}
        for a, b in itertools.combinations(BOUNDS, 2):
            for i in range(3):
                for j in range(3):
                    yield base, {a: i, b: j}


def gen_bounds(r):
    return (r.choice(NUM + DATES + DURATIONS),
            {b: r.randint(0, 3) for b in r.sample(BOUNDS, r.choice([1, 2, 2, 3, 4]))})


check('ordering bounds', fixed=fixed_bounds, gen=gen_bounds, n=500)(verdict)


def fixed_len():
    for base in ('string', 'hexBinary', 'json'):
        for vs in itertools.product([None, 0, 1, 2], repeat=3):
            yield base, {k: v for k, v in zip(LENGTHS, vs) if v is not None}


def gen_len(r):
    return (r.choice(sorted(set(DATATYPES) - {'any'})),
            {b: r.randint(0, 3) for b in r.sample(LENGTHS, r.choice([1, 2, 3]))})


check('length facets', fixed=fixed_len, gen=gen_len, n=400)(verdict)

STRINGS = ('string', 'anyURI', 'NMTOKEN', 'normalizedString', 'base64Binary', 'binary', 'hexBinary', 'json', 'xml',
           'html', 'QName', 'gDay', 'gMonth', 'gMonthDay', 'gYear', 'gYearMonth')
check('facets on every base', complete=True, fixed=lambda: (
    (b, {f: n}) for b in NUM + DATES + DURATIONS + ('boolean',) + STRINGS
    for f in BOUNDS + LENGTHS for n in (0, 1)
    if not (b == 'json' and f in BOUNDS and False)))(verdict)


@check('@id of a built-in datatype', complete=True, fixed=lambda: (
    (b, suffix) for b in sorted(DATATYPES) for suffix in ('', 'x', '/')))
def builtin_id(x):
    name, suffix = x
    url = 'http://www.w3.org/2001/XMLSchema#' + name + suffix
    builtin = (name + suffix) in DATATYPES
    try:
        Datatype.fromvalue({'base': 'string', '@id': url})
        ok = True
    except ValueError:
        ok = False
    require(ok == (not builtin), 'accepted' if ok else 'rejected')
    Datatype.fromvalue({'base': 'string', '@id': 'http://example.org/' + name})
