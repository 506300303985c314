"""C10, bounded: write and read of generated columns and values."""
import datetime
import decimal
import math

from csvw.metadata import Column, Datatype
from bounded.lib import Registry, Skip, require, same

check = Registry()
D = decimal.Decimal


def text(r):
    return ''.join(r.choice('ab1 ,"\'-_|äß\t\n\\{}%') for _ in range(r.randint(1, 6)))


def date(r):
    return datetime.date(r.randint(1, 9999), r.randint(1, 12), r.randint(1, 28))


def dtime(r, us=True):
    d = date(r)
    return datetime.datetime(d.year, d.month, d.day, r.randint(0, 23), r.randint(0, 59), r.randint(0, 59),
                             r.choice([0, 0, 500000, 1, 123456, 120000]) if us else 0)


def iv(lo, hi):
    return lambda r: r.choice([lo, hi, r.randint(lo, hi), max(lo, min(hi, r.randint(-9, 9)))])


BIG = 10 ** 30
VALUES = {
    'string': text, 'anyURI': lambda r: r.choice(['http://example.org/a', 'http://example.org/a?b=c#d', 'a/b', 'urn:x:y']),
    'NMTOKEN': lambda r: ''.join(r.choice('abZ019._:-') for _ in range(r.randint(1, 6))),
    'boolean': lambda r: r.random() < 0.5,
    'integer': iv(-BIG, BIG), 'int': iv(-2**31, 2**31 - 1), 'long': iv(-2**63, 2**63 - 1), 'short': iv(-2**15, 2**15 - 1),
    'byte': iv(-128, 127), 'unsignedInt': iv(0, 2**32 - 1), 'unsignedShort': iv(0, 2**16 - 1),
    'unsignedLong': iv(0, 2**64 - 1), 'unsignedByte': iv(0, 255), 'nonNegativeInteger': iv(0, BIG),
    'positiveInteger': iv(1, BIG), 'nonPositiveInteger': iv(-BIG, 0), 'negativeInteger': iv(-BIG, -1),
    'decimal': lambda r: D(r.randint(-10**r.randint(1, 12), 10**r.randint(1, 12))).scaleb(-r.randint(0, 9)),
    'float': lambda r: r.choice([0.0, 1.5, -2.25, 1e300, 1e-300, 0.1, float(r.randint(-9, 9)), r.uniform(-1e6, 1e6)]),
    'double': lambda r: r.uniform(-1, 1) * 10 ** r.randint(-30, 30),
    'number': lambda r: r.uniform(-1, 1) * 10 ** r.randint(-3, 3),
    'date': lambda r: datetime.datetime.combine(date(r), datetime.time()), 'datetime': dtime, 'dateTime': dtime,
    'time': lambda r: datetime.datetime(1900, 1, 1, r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)),
    'base64Binary': lambda r: bytes(r.randrange(256) for _ in range(r.randint(1, 6))),
    'binary': lambda r: bytes(r.randrange(256) for _ in range(r.randint(1, 6))),
    'hexBinary': lambda r: bytes(r.randrange(256) for _ in range(r.randint(1, 6))),
    'json': lambda r: r.choice([1, -2, 1.5, True, False, [], [1, 'a'], {'a': [1, None]}, {}, 'ab', {'ä': 'ö'}, {'b': 1, 'a': 2}, [None]]),
}

FORMATS = {
    'boolean': ['Y|N', '1|0', 'yes|no', 'ja|nein', 'true|false'],
    'date': ['yyyy-MM-dd', 'dd.MM.yyyy', 'yyyyMMdd', 'MM/dd/yyyy'],
    'integer': [{'groupChar': ',', 'pattern': '#,##0'}, {'pattern': '0'}],
    'decimal': [{'decimalChar': ',', 'groupChar': '.'}],
}


def make(spec):
    try:
        return Column.fromvalue(dict(spec, name='c'))
    except ValueError:
        raise Skip


def gen_atomic(r):
    base = r.choice(sorted(VALUES) + [None, None])
    spec = {}
    if base:
        spec['datatype'] = base
        if base in ('boolean', 'date') and r.random() < 0.5:
            spec['datatype'] = {'base': base, 'format': r.choice(FORMATS[base])}
    if r.random() < 0.5:
        spec['null'] = r.choice(['NA', ['', 'NA'], ['NA', ''], ['-', 'x'], ['']])
    if r.random() < 0.2:
        spec['default'] = r.choice(['x', '1', 'NA'])
    seed = r.randrange(10**9)
    return spec, base, seed, r.random() < 0.15


def val(base, seed, none):
    import random
    r = random.Random(seed)
    return None if none else (VALUES[base](r) if base else text(r))


def nulls(spec):
    n = spec.get('null', [''])
    return n if isinstance(n, list) else [n]


def equal(a, b, what):
    if isinstance(b, datetime.datetime) and b.year == 1900 and isinstance(a, datetime.datetime):  # times are read as today's datetimes
        a, b = a.time(), b.time()
    same(a, b, what)
    if isinstance(b, bool) or a is None or b is None:
        require(a is b, '{}: {!r} is not {!r}', what, a, b)


@check('atomic values', gen=gen_atomic, n=2500,
       fixed=lambda: [({}, None, 0, True), ({'null': 'NA'}, None, 0, True), ({'null': ['NA', ''], 'datatype': 'integer'}, 'integer', 0, True)])
def atomic(x):
    spec, base, seed, none = x
    v = val(base, seed, none)
    c = make(spec)
    cell = c.write(v)
    require(isinstance(cell, str), 'the cell is {!r}', cell)
    if v is None:
        same(cell, nulls(spec)[0], 'text of None')
        if cell == '' and spec.get('default', '') not in nulls(spec):
            raise Skip
    elif cell in nulls(spec) or cell == '':
        raise Skip
    if base is None and v is not None:
        same(cell, v, 'text of a column without datatype')
    equal(c.read(cell), v, 'value read from {!r}'.format(cell))


def gen_list(r):
    spec, base, seed, _ = gen_atomic(r)
    spec['separator'] = r.choice([';', '|', '; ', '\x1f', '~~', ' '])
    return spec, base, [(r.randrange(10**9), r.random() < 0.2) for _ in range(r.choice([0, 1, 1, 2, 3, 3, 8, 8, 40, 150]))]


@check('lists', gen=gen_list, n=1500, fixed=lambda: [
    ({'separator': ';', 'null': 'NA'}, None, [(0, True)] * 3), ({'separator': ';', 'datatype': 'integer'}, 'integer', [(1, True), (2, False), (3, True)]),
    ({'separator': ';'}, None, []), ({'separator': ';', 'null': 'NA', 'datatype': 'integer'}, 'integer', [(1, False)] * 4)])
def lists(x):
    spec, base, items = x
    vs = [val(base, s, n) for s, n in items]
    c = make(spec)
    sep, nl, default = spec['separator'], nulls(spec), spec.get('default', '')
    one = make({k: v for k, v in spec.items() if k != 'separator'})
    texts = [one.write(v) for v in vs]
    for v, t in zip(vs, texts):
        if sep in t or any(t.endswith(sep[:k]) or t.startswith(sep[-k:]) for k in range(1, len(sep))):
            raise Skip
        if v is not None and (t in nl or t == ''):
            raise Skip
        if v is None and t == '' and default not in nl:
            raise Skip
    cell = c.write(vs)
    same(cell, sep.join(texts), 'text of the list')
    if vs and (cell in nl or cell == ''):
        raise Skip
    if not vs and default:
        raise Skip
    got = c.read(cell)
    same(len(got), len(vs), 'length')
    for a, b in zip(got, vs):
        equal(a, b, 'item of {!r}'.format(cell))
