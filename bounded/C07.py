"""C07, bounded: reading and formatting with the real libraries."""
import datetime
import json
import re
import warnings

import isodate
import jsonschema
from csvw import Datatype
from bounded.lib import Registry, require, Skip

check = Registry()
STR = ['string', 'NMTOKEN', 'normalizedString', 'anyURI', 'QName', 'gDay', 'gMonth', 'gMonthDay', 'gYear', 'gYearMonth', 'xml', 'html']
ALPHA = 'abA1 .:-_,;|$^()\n\t\r\x0b\xa0\xe9\u0660\u0301\u4e2d\U0001f600<&"\'/'


def dt_of(base, f=None):
    d = {'base': base}
    if f is not None:
        d['format'] = f
    return Datatype.fromvalue(d)


def quiet(f, *a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        r = f(*a, **k)
    return r, len(w)


def read(dt, s):
    """(True, value) or (False, None)"""
    try:
        return True, dt.read(s)
    except ValueError:
        return False, None


def rtext(r, n=8, alpha=ALPHA):
    return ''.join(r.choice(alpha) for _ in range(r.randrange(n)))


# ------------------------------------------------------------------ boolean
def gen_bool(r):
    alpha = 'yYn01 tf.\n*\xe9$'
    pick = lambda: r.choice([rtext(r, 5, alpha), 'Y', 'N', 'true', 'false', '1', '0', '', '.', 'a*', 'Ja'])     # noqa: E731
    n = r.choice([2, 2, 2, 2, 2, 1, 3])
    return '|'.join(pick() for _ in range(n)), [pick() for _ in range(3)]


@check('boolean formats', fixed=[(None, ['true', 'True', '', 'yes']), ('Y|N', ['y', 'N ', '1', 'true']), ('1|0', ['true']), ('|N', ['x']), ('Y|', ['N']),
                                 ('Y', ['Y', 'true']), ('a|b|c', ['a', 'c', 'true']), ('.|*', ['x', '']), ('0|1', ['true'])], gen=gen_bool, n=500)
def booleans(case):
    f, texts = case
    alts = (f or '').split('|')
    if f is not None and len(alts) == 2 and alts[0] == alts[1]:
        raise Skip()        # the alternatives are distinct
    valid = f is not None and len(alts) == 2 and any(alts)
    (dt, warned) = quiet(dt_of, 'boolean', f)
    (trip, w2) = quiet(lambda: [(v, dt.formatted(v), dt.read(dt.formatted(v))) for v in (True, False)])
    require(all(v is g for v, _, g in trip), 'round trip: {}'.format(trip))
    if valid:
        require([s for _, s, _ in trip] == alts, 'formatted {} for {!r}'.format(trip, f))
    elif f is not None and f:
        require(warned + w2 > 0, 'no warning')
    yes, no = ([alts[0]], [alts[1]]) if valid else (['true', '1'], ['false', '0'])
    for s in texts + alts + ['true', 'false', '1', '0', 'TRUE', ' ' + yes[0], yes[0] + '\n', yes[0] + no[0], '']:
        (ok, v), _ = quiet(read, dt, s)
        require(ok == (s in yes + no), '{!r} {} with format {!r}'.format(s, 'read' if ok else 'rejected', f))
        if ok:
            require(v is (s in yes), '{!r} read as {!r} with format {!r}'.format(s, v, f))


# ------------------------------------------------------------------ strings
FORMATS = [None, None, None, 'a', 'a|ab', '[a-z]*', 'a.', r'(a)\1', r'(?P<x>a|b)(?P=x)', '^a$', 'a$', r'a\b', 'a+?', '(', '[', r'\d+', '(?i)a', 'a||b', '.*', r'\w+', 'a|', '()',
           r'a\Z', '(?x) a b', 'a{1,2}']


def gen_string(r):
    return r.choice(STR), r.choice(FORMATS), r.choice([rtext(r), rtext(r, 5, 'ab1 \n'), rtext(r, 4, 'aA')])


@check('strings and regular expressions', fixed=[('string', 'a', 'a\n'), ('string', 'a|b', 'ab'), ('string', r'(a)\1', 'aa'), ('string', r'(a)\1', 'ab'), ('normalizedString', 'a', 'b'),
                                                 ('normalizedString', 'a b', '\ta\nb '), ('string', '(', 'x'), ('NMTOKEN', 'a', 'b'), ('NMTOKEN', None, 'a b'),
                                                 ('NMTOKEN', None, 'a,b'), ('NMTOKEN', None, 'a\n'), ('NMTOKEN', None, 'Snoopy'), ('NMTOKEN', None, '1950-10-04'),
                                                 ('NMTOKEN', None, 'a.b:c-d_e\xe9')], gen=gen_string, n=4000)
def strings(case):
    base, f, s = case
    (dt, w) = quiet(dt_of, base, f)
    try:
        rx = re.compile(f) if f else None
    except re.error:
        rx = None
    try:
        (ok, v), w2 = quiet(read, dt, s)
    except Exception as e:
        if base != 'anyURI':
            raise
        raise Skip()        # not a reference
    if f and rx is None:
        require(w + w2 > 0, 'no warning')
    if base == 'anyURI' and ok and v.unsplit() != s:
        raise Skip()        # not percent-encoded
    text = s
    if base == 'normalizedString':
        text = re.sub('[\r\n\t]', ' ', s).strip()
    if base == 'NMTOKEN' and not s:
        raise Skip()        # left open
    if base == 'NMTOKEN':
        valid = all(c in '.:-' or re.match(r'\w', c) for c in s)
    else:
        valid = True
    valid = valid and (rx is None or bool(re.fullmatch(rx, text)))
    require(ok == valid, '{!r} {} by {} with format {!r}'.format(s, 'read' if ok else 'rejected', base, f))
    if not ok:
        return
    out, _ = quiet(dt.formatted, v)
    require(out == text, '{!r} formatted as {!r}'.format(v, out))
    (ok, v2), _ = quiet(read, dt, out)
    require(ok and v2 == v, 'round trip: {!r} {!r}'.format(v, v2))


URIS = ['http://example.org/', 'http://example.org/a?b#c', 'a/b', '', '#x', 'mailto:x@y.z', 'http://example.org/%C3%A4', 'urn:x:y', '//h/p', 'http://u@h:80/x?', '?q', 'http://h/#',
        'http://[::1]/', 'a b', '\xe9', 'HTTP://Example.ORG/a/../b', 'http://example.org/%c3%a4', 'a//b', './x', '../x', 'http://h']


@check('references', fixed=[(u,) for u in URIS])
def uris(case):
    import rfc3986
    dt = dt_of('anyURI')
    s = case[0]
    n = rfc3986.normalize_uri(s)
    require(dt.formatted(s) == n, '{!r} formatted as {!r}'.format(s, dt.formatted(s)))
    v = dt.read(n)
    require(v.unsplit() == n and dt.formatted(v) == n and dt.read(dt.formatted(v)) == v, 'round trip of {!r}'.format(n))


# ------------------------------------------------------------------ binary
def gen_bytes(r):
    return r.choice(['base64Binary', 'binary', 'hexBinary']), [r.randrange(256) for _ in range(r.choice([0, 1, 2, 3, 5, 56, 57, 58, 76, 77, 200]))]


@check('bytes', fixed=[('hexBinary', []), ('binary', [0]), ('base64Binary', list(range(256))), ('hexBinary', list(range(256)))], gen=gen_bytes, n=400)
def bytes_(case):
    base, v = case[0], bytes(case[1])
    dt = dt_of(base)
    s = dt.formatted(v)
    require(isinstance(s, str), 'formatted as {!r}'.format(s))
    require(dt.read(s) == v, 'round trip: {!r} {!r}'.format(s, dt.read(s)))


def gen_hex(r):
    return (rtext(r, 7, '0123456789abcdefABCDEF' * 3 + 'gG x\n-+_.\u0661\xe9'),)


@check('hexadecimal texts', fixed=[('',), ('0',), ('0g',), ('FF',), ('ff\n',), (' ff',), ('f f',), ('\u0661\u0661',), ('0x12',)], gen=gen_hex, n=1500)
def hexes(case):
    s = case[0]
    ok, v = read(dt_of('hexBinary'), s)
    valid = bool(re.fullmatch('([0-9a-fA-F]{2})*', s))
    require(ok == valid, '{!r} {}'.format(s, 'read' if ok else 'rejected'))
    if ok:
        require(v == bytes.fromhex(s), '{!r} read as {!r}'.format(s, v))


@check('base64 texts', fixed=[('A',), ('AA',), ('\xe9',), ('QQ==',), ('Q Q = =',)])
def base64s(case):
    for b in ('base64Binary', 'binary'):
        ok, v = read(dt_of(b), case[0])
        require(not ok or isinstance(v, bytes), repr(v))


# ------------------------------------------------------------------ JSON
SCHEMAS = [None, None, '{"type": "object"}', '{"type": "object", "required": ["a"]}', 'false', 'true', '{}', '[1', '{"type": "obj"}', '"x"', '{"enum": [1, "x", null]}', '{"maximum": 3}',
           '{"type": ["array", "null"], "maxItems": 2}']


def rjson(r, d=3):
    k = r.randrange(9 if d else 6)
    if k < 6:
        return [None, r.random() < .5, r.randrange(-10, 10), r.choice([0.5, -0.0, 1e300, 1e22]), rtext(r, 4), r.choice([0, '', 10**30, 'x', 1, None])][k]
    if k == 6:
        return [rjson(r, d - 1) for _ in range(r.randrange(4))]
    return {r.choice(['a', 'b', '', rtext(r, 3)]): rjson(r, d - 1) for _ in range(r.randrange(4))}


def gen_json(r):
    return r.choice(SCHEMAS), rjson(r)


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b and isinstance(a, bool) == isinstance(b, bool)


@check('JSON', fixed=[(s, v) for s in SCHEMAS for v in (None, {}, {'a': 1}, 0, False, '', [], 'x', {'b': {'a': [1]}})], gen=gen_json, n=600)
def jsons(case):
    f, v = case
    dt, _ = quiet(dt_of, 'json', f)
    try:
        schema = json.loads(f) if f else None
        if schema is not None:
            jsonschema.validate({}, schema=schema)
    except jsonschema.ValidationError:
        pass
    except (ValueError, jsonschema.SchemaError):
        schema = None
    if isinstance(schema, str):
        schema = None
    valid = True
    if schema is not None:
        try:
            jsonschema.validate(v, schema=schema)
        except jsonschema.ValidationError:
            valid = False
    s, _ = quiet(dt.formatted, v)
    for text in (s, json.dumps(v), json.dumps(v, indent=1)):
        (ok, g), _ = quiet(read, dt, text)
        require(ok == valid, '{!r} {} with format {!r}'.format(text, 'read' if ok else 'rejected', f))
        require(not ok or same(v, g), 'round trip: {!r} {!r}'.format(v, g))
    for text in ('', '{', "'a'", 'nul'):
        (ok, g), _ = quiet(read, dt, text)
        require(not ok, '{!r} read'.format(text))


# ------------------------------------------------------------------ durations
def gen_duration(r):
    kind = r.randrange(2)
    return (kind, [r.randrange(-400, 400), r.randrange(86400), r.choice([0, 0, 0, 1, 10, 999999, 500000, 123000])] if not kind else [
        r.randrange(3), r.randrange(14), r.randrange(40), r.randrange(30)])


@check('durations', fixed=[(0, [0, 0, 0]), (0, [0, 1, 0]), (0, [-1, 0, 0]), (1, [1, 2, 3, 4])], gen=gen_duration, n=600)
def durations(case):
    kind, a = case
    v = datetime.timedelta(days=a[0], seconds=a[1], microseconds=a[2]) if not kind else isodate.Duration(years=a[0], months=a[1], days=a[2], hours=a[3])
    for b in ('duration', 'dayTimeDuration', 'yearMonthDuration'):
        dt = dt_of(b)
        s = dt.formatted(v)
        require(dt.read(s) == v, 'round trip: {!r} {!r} {!r}'.format(v, s, dt.read(s)))


@check('duration formats', fixed=[(f, s) for f in (None, 'P1D', 'P.D', 'P1D|P2D', 'PT[0-9]+[HM]') for s in (
    'P1D', 'P2D', 'P1DT2H', 'PT3H', 'PT3H4M', 'P1Y', 'P1M', 'x', '', 'P', '1D', 'P1D\n')])
def duration_formats(case):
    f, s = case
    try:
        want = (True, isodate.parse_duration(s)) if not f or re.fullmatch(f, s) else (False, None)
    except ValueError:
        want = (False, None)
    for b in ('duration', 'dayTimeDuration', 'yearMonthDuration'):
        got = read(dt_of(b, f), s)
        require(got == want, '{!r} with format {!r}: {}'.format(s, f, got))


# ------------------------------------------------------------------ floating-point numbers
def gen_float(r):
    import struct
    return (r.choice(['float', 'double', 'number']), repr(r.choice([struct.unpack('d', bytes(r.randrange(256) for _ in range(8)))[0], r.random(), r.uniform(-1e6, 1e6),
                                                                float(r.randrange(-10**18, 10**18)), r.randrange(1000) / 100])))


@check('floating-point numbers', fixed=[(b, x) for b in ('float', 'double', 'number') for x in (
    '0.0', '-0.0', '1e300', '5e-324', 'inf', '-inf', '0.1', '1e16', '1e22', '123456789.123', '1.7976931348623157e308', '3', '100000000000000000')], gen=gen_float, n=1500)
def floats(case):
    base, s = case
    v = float(s)
    if v != v:
        raise Skip()
    dt = dt_of(base)
    t = dt.formatted(v)
    g = dt.read(t)
    require(isinstance(g, float) and g == v and str(g) == str(v), 'round trip: {!r} {!r} {!r}'.format(v, t, g))


@check('texts which are not numbers', fixed=[(s,) for s in ('', 'x', '1,5', '1 2', '0x1', 'e', '1e', '--1')])
def not_floats(case):
    for b in ('float', 'double', 'number'):
        ok, v = read(dt_of(b), case[0])
        require(not ok, '{!r} read as {!r}'.format(case[0], v))
