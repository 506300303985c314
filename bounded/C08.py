"""C08, bounded: decimals and integers in their number formats, with the real libraries."""
import decimal
import re
import warnings

from csvw import Datatype
from bounded.lib import Registry, require, Skip

check = Registry()
D = decimal.Decimal
GROUPS = [None, ',', '.', ' ', "'", '_', '*', '|', '\xa0', '\u202f', '\u2019', '(', '\\']
POINTS = [None, '.', ',', '\xb7', ';', '^', '?']
PATTERNS = ['0', '#0', '#,##0', '0.00', '#,##0.00', '#,##0.##', '#0.0#', '#,#00.0##', '#,##,##0.0', '000', '#,####0', '0.####', '##0,000.0']


def quiet(f, *a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        r = f(*a, **k)
    return r, len(w)


def ok_pair(g, d):
    return (g or ',') != (d or '.') and not (g == '.' and d is None)


def fmt(g, d, p=None):
    r = {}
    if g is not None:
        r['groupChar'] = g
    if d is not None:
        r['decimalChar'] = d
    if p is not None:
        r['pattern'] = p
    return r or None


def dt_of(base, f):
    return Datatype.fromvalue({'base': base, 'format': f} if f else base)


def num(r, digits=40):
    n = r.choice([1, 2, 3, 4, 6, 7, 12, 27, 28, 29, 40])
    n = min(n, digits)
    s = ''.join(r.choice('0123456789') for _ in range(n))
    if r.random() < 0.2:
        s = '0' * n
    return r.choice(['', '', '-']) + s


def gen_trip(r):
    while True:
        g, d = r.choice(GROUPS), r.choice(POINTS)
        if ok_pair(g, d):
            break
    kind = r.choice(['Decimal', 'Decimal', 'int', 'float'])
    if kind == 'Decimal':
        v = str(D(num(r)).scaleb(r.choice([0, 0, -1, -2, -5, -30, 3, 20]), decimal.Context(prec=200)))
    elif kind == 'int':
        v = str(int(num(r)))
    else:
        v = repr(r.choice([r.uniform(-1e6, 1e6), r.uniform(-1, 1) * 10.0 ** r.randrange(-20, 21), 0.0, 1e22, 1e-7, 123456.789]))
    return kind, v, g, d, r.choice(['decimal', 'integer']) if kind == 'int' else 'decimal'


def fixed_trip():
    for g in GROUPS:
        for d in POINTS:
            if ok_pair(g, d):
                for v in ('0', '-1', '999', '1000', '-1000', '12345678901234567890123456789012345', '1.5', '-1234567.891', '0.000001', '1E+30', '-1E-30', '0E-5',
                          '1234567890123456789012345678.9'):
                    yield 'Decimal', v, g, d, 'decimal'
                for v in ('0', '-7', '1000', '-123456', '123456789012345678901234567890123'):
                    yield 'int', v, g, d, 'integer'
                    yield 'int', v, g, d, 'decimal'
                for v in ('0.1', '1e+22', '1e-07', '-1234.5', '1e+300'):
                    yield 'float', v, g, d, 'decimal'


def spell(v, g, d):
    """the text of a number, built digit by digit"""
    s, digits, exp = D(v).as_tuple()
    digits = ''.join(map(str, digits))
    if exp >= 0:
        whole, frac = digits + '0' * exp, ''
    else:
        digits = digits.rjust(-exp + 1, '0')
        whole, frac = digits[:exp], digits[exp:]
    whole = whole.lstrip('0') or '0'
    if g:
        parts = []
        while len(whole) > 3:
            parts.insert(0, whole[-3:])
            whole = whole[:-3]
        whole = g.join([whole] + parts)
    return ('-' if s else '') + whole + ((d or '.') + frac if frac else '')


@check('format and read', fixed=fixed_trip, gen=gen_trip, n=6000)
def round_trip(case):
    kind, v, g, d, base = case
    v = {'Decimal': D, 'int': int, 'float': float}[kind](v)
    dt = dt_of(base, fmt(g, d))
    s = dt.formatted(v)
    want = spell(D(repr(v)) if kind == 'float' else D(v), g, d)
    require(s == want, 'formatted as {!r}, expected {!r}', s, want)
    got = dt.read(s)
    require(got == (D(repr(v)) if kind == 'float' else v), '{!r} read as {!r}', s, got)
    require(type(got) is (int if base == 'integer' else D), 'type {}', type(got))


def shape(p):
    whole, _, frac = p.partition('.')
    groups = whole.split(',')
    prim = len(groups[-1]) if len(groups) > 1 else None
    sec = len(groups[1]) if len(groups) > 2 else prim
    return whole.count('0'), prim, sec, frac.count('0'), len(frac)


def gen_percent(r):
    p, g, d, v = gen_pattern(r)
    n = shape(p)[4]
    mark = r.choice('%\u2030')
    return p + mark, g, d, str(D(num(r, 15)).scaleb(-(2 if mark == '%' else 3) - (r.randrange(n + 1) if n else 0)))


def gen_pattern(r):
    while True:
        g, d = r.choice(GROUPS), r.choice(POINTS)
        if ok_pair(g, d):
            break
    p = r.choice(PATTERNS)
    n = shape(p)[4]
    v = str(D(num(r, 18)).scaleb(-r.randrange(n + 1) if n else 0))
    return p, g, d, v


@check('format and read with percent', gen=gen_percent, n=1000)
@check('format and read with a pattern', gen=gen_pattern, n=3000)
def pattern_trip(case):
    p, g, d, v = case
    v = D(v)
    if ',' in p and p != '#,##,##0.0' and (g or ',') == (d or '.'):
        raise Skip
    for base in ('decimal', 'integer'):
        if base == 'integer' and (v != int(v) or p[-1] in '%\u2030'):
            continue
        x = v if base == 'decimal' else int(v)
        dt = dt_of(base, fmt(g, d, p))
        s = dt.formatted(x)
        require('e' not in s.lower(), 'formatted as {!r}', s)
        got = dt.read(s)
        require(got == x, '{!r} read as {!r}', s, got)


def strict(s, p, g, d):
    """value of a text in a pattern, or None; 'skip' where the pattern does not say"""
    m = re.fullmatch('(-?)([0-9{0}]*)(?:{1}([0-9]+))?'.format(re.escape(g or ','), re.escape(d or '.')), s)
    if re.search('(^|[^0-9]){0}|{0}([^0-9]|$)'.format(re.escape(g or ',')), s) and (g or ',') * 2 not in s:
        return 'skip'             # group characters are ignored, also where they make no sense
    if not m:
        if (g or ',') * 2 not in s and (g or ',') in s.partition(d or '.')[2]:
            return 'skip'         # group characters are ignored, also in fractions
        if s.endswith(d or '.') and s.count(d or '.') == 1:
            return 'skip'         # a fraction without digits
        return None
    zeros, prim, sec, fmin, fmax = shape(p)
    whole, frac = m.group(2), m.group(3) or ''
    groups = whole.split(g or ',')
    if len(groups) > 1 and prim is None:
        return 'skip'
    if prim is not None:
        if not all(groups[1:]) or not groups[0]:
            return None if len(groups) > 1 and (g or ',') * 2 in s else 'skip'
        if len(groups[-1]) > prim or (len(groups) > 1 and len(groups[-1]) != prim):
            return None
        if len(groups) > 1 and (len(groups[0]) > sec or any(len(x) != sec for x in groups[1:-1])):
            return None
    digits = ''.join(groups)
    if not digits:
        return 'skip'
    if len(digits) < zeros or len(frac) < fmin or len(frac) > fmax:
        return None
    return D(m.group(1) + digits + ('.' + frac if frac else ''))


def gen_text(r):
    p, g, d, v = gen_pattern(r)
    s = dt_of('decimal', fmt(g, d, p)).formatted(D(v))
    for _ in range(r.randrange(3)):
        k = r.randrange(len(s) + 1)
        s = r.choice([s[:k] + s[k + 1:], s[:k] + r.choice(['0', '7', g or ',', d or '.', '123', 'e', '-']) + s[k:]])
    return p, g, d, s


@check('texts and patterns', gen=gen_text, n=6000)
def texts(case):
    p, g, d, s = case
    want = strict(s, p, g, d)
    if want == 'skip':
        raise Skip
    try:
        got = dt_of('decimal', fmt(g, d, p)).read(s)
    except ValueError as e:
        require(want is None, '{!r} rejected: {}', s, e)
        return
    require(want is not None, '{!r} does not have the pattern but was read as {}', s, got)
    require(got == want, '{!r} read as {}, expected {}', s, got, want)



def gen_float(r):
    base, p = r.choice(['float', 'double', 'number']), r.choice([x for x in PATTERNS if ',' not in x])
    n = shape(p)[4]
    s = '{:f}'.format(D(num(r, 12)).scaleb(-r.randrange(n + 1) if n else 0))
    for _ in range(r.randrange(3)):
        k = r.randrange(len(s) + 1)
        s = r.choice([s[:k] + s[k + 1:], s[:k] + r.choice(['0', '7', '.', '123', '-', 'x']) + s[k:]])
    return base, p, s, r.random() < 0.5, 'skip'


@check('floating-point numbers and patterns', gen=gen_float, n=3000, fixed=[
    (b, p, s, o, v) for b in ('float', 'double', 'number') for o in (False, True) for p, s, v in (
        ('0.0#E0', '1.5E3', 1500.0), ('0.0#E0', '1.5e3', 1500.0), ('0.0#E0', '1.53E2', 153.0), ('0.0#E0', '1.534E2', None), ('0.0#E0', '1.5E10', None),
        ('0.0#E0', '-1.5E3', -1500.0), ('0.0E00', '1.5E10', 15e9), ('0.0E00', '1.5E100', None), ('0.0', '1.5', 1.5), ('0.0', '1.55', None), ('0.0', 'x', None), ('0.00', '1.5', None))])
def floats(case):
    base, p, s, as_dict, want = case
    if want == 'skip':
        want = strict(s, p, None, None)
        if want == 'skip' or ',' in s or s.startswith('+'):
            raise Skip
    dt = Datatype.fromvalue({'base': base, 'format': {'pattern': p} if as_dict else p})
    try:
        got = dt.read(s)
    except ValueError as e:
        require(want is None, '{!r} rejected: {}', s, e)
        return
    require(want is not None, '{!r} does not have the pattern {} but was read as {}', s, p, got)
    require(got == float(want), '{!r} read as {}, expected {}', s, got, want)


def plain():
    for g, d in ((None, None), (',', None), ('.', ','), (' ', ','), ("'", None), (None, ','), ('_', '\xb7'), ('*', '^')):
        for s, v in (('1G234', '1234'), ('1G234D5', '1234.5'), ('-1G234G567D25', '-1234567.25'), ('D5', '0.5'), ('+7D0', '7'), ('12%', '0.12'),
                     ('1G234D5%', '12.345'), ('5\u2030', '0.005'), ('-5\u2030', '-0.005'), ('00012', '12'), ('12D', '12'), ('1e5', None), ('1E5', None),
                     ('1D5E-3', None), ('1GG234', None), ('1GGG2', None), ('GG', None), ('abc', None), ('', None), ('-', None), ('1D2D3', None), ('1 2x', None),
                     ('e', None), ('%', None), ('12345678901234567890123456789012345678D5', '12345678901234567890123456789012345678.5'),
                     ('123456789012345678901234567890123%', '1234567890123456789012345678901.23'), ('0D1234567890123456789012345678901234567',) * 1 + (
                         '0.1234567890123456789012345678901234567',)):
            if 'G' in s and g is None and 'GG' not in s:
                continue
            yield s.replace('G', g or ',').replace('D', d or '.'), g, d, v


@check('reading', fixed=plain)
def reading(case):
    s, g, d, v = case
    for base in ('decimal', 'integer'):
        dt = dt_of(base, fmt(g, d))
        whole = v is not None and D(v) == D(v).to_integral_value(context=decimal.Context(prec=100))
        try:
            got = dt.read(s)
        except ValueError as e:
            require(v is None or (base == 'integer' and not whole), '{} {!r} rejected: {}', base, s, e)
            continue
        require(v is not None and (base == 'decimal' or whole), '{} {!r} read as {!r}', base, s, got)
        require(got == D(v), '{} {!r} read as {!r}, expected {}', base, s, got, v)


@check('special values', fixed=lambda: ((s, g, d) for s in ('INF', '-INF', 'NaN') for g, d in ((None, None), (',', None), ('.', ','), (' ', ','))))
def special(case):
    s, g, d = case
    v = D({'INF': 'Infinity', '-INF': '-Infinity', 'NaN': 'NaN'}[s])
    dt = dt_of('decimal', fmt(g, d))
    got, w = quiet(dt.parse, s)
    require(str(got) == str(v), '{!r} read as {!r}', s, got)
    require(dt.formatted(v) == s, 'formatted as {!r}', dt.formatted(v))
    try:
        got = quiet(dt_of('integer', fmt(g, d)).read, s)
    except ValueError:
        return
    require(False, '{!r} read as the integer {!r}', s, got)


def short():
    for p in PATTERNS:
        for n in (1, 3, 4, 5, 6):
            yield p, n


@check('all short texts', fixed=short)
def short_texts(case):
    """all texts of n characters made of a digit, group and decimal characters"""
    import itertools
    p, n = case
    dt = dt_of('decimal', {'pattern': p})
    for w in itertools.product('1,.', repeat=n):
        s = ''.join(w)
        want = strict(s, p, None, None)
        if want == 'skip' or '.' in s and p.count('.') == 0 and s.endswith('.'):
            continue
        try:
            got = dt.read(s)
        except ValueError as e:
            require(want is None, '{!r} rejected: {}', s, e)
            continue
        require(want is not None and got == want, '{!r} read as {}, expected {}', s, got, want)
