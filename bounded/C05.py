"""C05, bounded: Datatype.read on generated texts and facets, against an independent oracle."""
import decimal
import datetime
import math

from csvw.metadata import Datatype
from bounded.lib import Registry, Bad, Skip, require, same

check = Registry()

RANGES = {
    'integer': (None, None), 'int': (None, None), 'unsignedInt': (0, 2**32 - 1),
    'unsignedShort': (0, 2**16 - 1), 'unsignedLong': (0, 2**64 - 1), 'unsignedByte': (0, 255),
    'short': (-2**15, 2**15 - 1), 'long': (-2**63, 2**63 - 1), 'byte': (-128, 127),
    'nonNegativeInteger': (0, None), 'positiveInteger': (1, None), 'nonPositiveInteger': (None, 0),
    'negativeInteger': (None, -1)}
BOUNDS = ['minimum', 'maximum', 'minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive']


def read(dt, text):
    try:
        return ('ok', dt.read(text))
    except ValueError:
        return ('error', None)


def make(spec):
    try:
        return Datatype.fromvalue(dict(spec))
    except ValueError:
        raise Skip


def range_texts():
    res = []
    for b, (lo, hi) in RANGES.items():
        for x in (lo, hi):
            if x is not None:
                res += [(b, str(x + d)) for d in (-1, 0, 1)]
        res += [(b, t) for t in ('0', '-1', '1', '+5', '007', '1.5', '1.0', 'x', '', 'INF', '-INF', 'NaN',
                                 '1e3', '99999999999999999999999', '-99999999999999999999999')]
    return res


@check('integer ranges', fixed=range_texts, complete=True,
       gen=lambda r: (r.choice(sorted(RANGES)), str(r.randint(-2**r.randint(1, 70), 2**r.randint(1, 70)))), n=300)
def integer_ranges(x):
    base, text = x
    k, v = read(Datatype.fromvalue(base), text)
    try:
        n = decimal.Decimal(text)
        ok = 'e' not in text.lower() and n.is_finite() and n == int(n)
    except (decimal.InvalidOperation, ValueError):
        ok = False
    lo, hi = RANGES[base]
    if ok:
        ok = (lo is None or n >= lo) and (hi is None or n <= hi)
    if ok:
        require(k == 'ok', '{} rejected', text)
        same(v, int(n))
        require(type(v) is int, 'not an int')
    else:
        require(k == 'error', '{} accepted as {}', text, base)


TYPED = {
    'integer': lambda r: str(r.randint(-4, 4)),
    'nonNegativeInteger': lambda r: str(r.randint(0, 4)),
    'decimal': lambda r: r.choice(['-1.5', '0', '0.0', '1', '2.25', '-0', '1.50', '3']),
    'float': lambda r: r.choice(['-1.5', '0', '0.0', '1', '2.25', '1e2', '3', '-2']),
    'double': lambda r: r.choice(['-1.5', '0', '1', '2.25']),
    'number': lambda r: r.choice(['-1.5', '0', '1', '2.25']),
    'date': lambda r: '2020-0{}-1{}'.format(r.randint(1, 3), r.randint(0, 2)),
    'datetime': lambda r: '2020-01-01T0{}:00:0{}'.format(r.randint(0, 2), r.randint(0, 3)),
    'time': lambda r: '0{}:00:0{}'.format(r.randint(0, 2), r.randint(0, 3)),
}


def gen_bounds(r):
    base = r.choice(sorted(TYPED))
    spec = {'base': base}
    for b in r.sample(BOUNDS, r.choice([1, 1, 1, 2, 2])):
        spec[b] = TYPED[base](r)
    return spec, TYPED[base](r)


def fixed_bounds():
    for base, vs in [('integer', ['-1', '0', '1']), ('decimal', ['-0.5', '0', '0.5']),
                     ('float', ['-0.5', '0', '0.5']), ('date', ['2019-12-31', '2020-01-01', '2020-01-02']),
                     ('datetime', ['2020-01-01T00:00:00', '2020-01-01T00:00:01'])]:
        for b in BOUNDS:
            for lim in vs:
                for v in vs:
                    yield {'base': base, b: lim}, v


@check('ordering bounds', fixed=fixed_bounds, gen=gen_bounds, n=400)
def bounds(x):
    spec, text = x
    dt = make(spec)
    free = Datatype.fromvalue(spec['base'])
    k0, v0 = read(free, text)
    require(k0 == 'ok', 'plain value rejected')
    ok = True
    for b in BOUNDS:
        if b in spec:
            lim = free.read(spec[b])
            ok = ok and {'minimum': v0 >= lim, 'minInclusive': v0 >= lim, 'minExclusive': v0 > lim,
                         'maximum': v0 <= lim, 'maxInclusive': v0 <= lim, 'maxExclusive': v0 < lim}[b]
    k, v = read(dt, text)
    if ok:
        require(k == 'ok', 'rejected although all constraints hold')
        same(v, v0)
        require(type(v) is type(v0), 'type changed')
    else:
        require(k == 'error', 'accepted although a constraint is violated')


LEN_BASES = ['string', 'anyURI', 'normalizedString', 'NMTOKEN', 'xml', 'gDay', 'base64Binary', 'binary', 'hexBinary', 'json']


def gen_len(r):
    spec = {'base': r.choice(LEN_BASES)}
    for f in r.sample(['length', 'minLength', 'maxLength'], r.choice([1, 1, 2, 3])):
        spec[f] = r.randint(0, 4)
    b = spec['base']
    n = r.randint(0, 5)
    text = {'hexBinary': 'ab' * n, 'base64Binary': ['', 'YQ==', 'YWI=', 'YWJj', 'YWJjZA==', 'YWJjZGU='][n],
            'json': r.choice(['[]', '[1]', '[1, 2]', '"abc"', '{"a": 1}', '0', '5', 'false', 'null', '""'])}
    text['binary'] = text['base64Binary']
    text['anyURI'] = r.choice(['a', '', 'a:b', '//x', 'x/y', 'a?b', 'a#', '?', 'a:/b', '%20'])
    return spec, text.get(b, 'abcde'[:n])


@check('length facets', gen=gen_len, n=600,
       fixed=lambda: (({'base': b, f: lim}, t) for b in ('string', 'NMTOKEN', 'anyURI') for f in ('length', 'minLength', 'maxLength')
                      for lim in range(3) for t in ('', 'a', 'ab', 'abc')))
def lengths(x):
    spec, text = x
    dt = make(spec)
    v0 = Datatype.fromvalue(spec['base']).read(text)
    try:
        n = len(text if spec['base'] == 'anyURI' else v0)
        ok = (spec.get('length', n) == n and spec.get('minLength', 0) <= n and n <= spec.get('maxLength', n))
    except TypeError:
        ok = True
    k, v = read(dt, text)
    if ok:
        require(k == 'ok', 'rejected although all constraints hold')
        same(v, v0)
    else:
        require(k == 'error', 'accepted although a constraint is violated')


@check('None passes', fixed=[({'base': b},) for b in ('string', 'integer', 'date', 'boolean', 'json')], complete=True)
def none(x):
    dt = Datatype.fromvalue(dict(x[0]))
    require(dt.read(None) is None if x[0]['base'] != 'x' else True, 'None is not kept')
    require(dt.validate(None) is None, 'None is not kept')
