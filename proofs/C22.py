"""C22: dates and times in every supported format."""
import re
import datetime
import dateutil.parser
import babel.dates

from pv.h import *
from pv import text as tx
from pv.text import SText, Text, text, fresh_digit, chars_of, test
import csvw.datatypes as D
import csvw.metadata as M

HARNESSES, harness = registry()

ASSUMPTIONS = [
    'datetime.datetime raises ValueError exactly for components out of range (Gregorian calendar, years 1..9999)',
    'dateutil isoparse: model of the extended and basic calendar formats (compared with dateutil by bounded checks)',
    'dateutil parse: time zone designator at the end of the text; date T time with designator (compared by bounded checks)',
    'babel: fields of a pattern are formatted as in CLDR; zone offsets not below zero or in full hours (see known findings)',
    'zone offsets are whole minutes below 24 h',
]


# ------------------------------------------------------------------ values
def days_in(y, m):
    leap = And(y % 4 == 0, Or(y % 100 != 0, y % 400 == 0))
    return If(m == 2, If(leap, 29, 28), If(Or(m == 4, m == 6, m == 9, m == 11), 30, 31))


def valid_date(y, m, d):
    return And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= days_in(y, m))


def valid_time(H, Mi, S):
    return And(H >= 0, H <= 23, Mi >= 0, Mi <= 59, S >= 0, S <= 59)


class TZ:
    """a zone with an offset in minutes (z3 term)"""
    __pv_model__ = True
    __pv_symbolic__ = True

    def __init__(self, minutes):
        self.minutes = minutes


FIELDS = ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond']


class DT:
    __pv_model__ = True
    __pv_symbolic__ = True

    def __init__(self, *fields, tzinfo=None):
        for n, v in zip(FIELDS, list(fields) + [0] * 7):
            setattr(self, n, v if not isinstance(v, z3.ExprRef) else SInt.of(v))
        self.tzinfo = tzinfo

    def replace(self, **kw):
        r = DT(*[getattr(self, f) for f in FIELDS], tzinfo=self.tzinfo)
        for k, v in kw.items():
            setattr(r, k, v)
        return make(*[getattr(r, f) for f in FIELDS], tzinfo=r.tzinfo)

    def isoformat(self):
        out = chars('{}-{}-{}T{}:{}:{}', self.t(0, 4), self.t(1, 2), self.t(2, 2), self.t(3, 2), self.t(4, 2), self.t(5, 2))
        us = it(self.microsecond)
        if test(us != 0):
            out += [46] + tx.digits_of(us, 6)
        if self.tzinfo is not None:
            out += zone_text(self.tzinfo, 'xxx')
        return text(out)

    def t(self, k, width):
        return tx.digits_of(it(getattr(self, FIELDS[k])), width)


def chars(template, *parts):
    out = []
    for k, lit_ in enumerate(template.split('{}')):
        out += [ord(c) for c in lit_]
        if k < len(parts):
            out += parts[k]
    return out


def make(year=None, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
    """contract of datetime.datetime"""
    if year is None or month is None or day is None:
        raise TypeError('required argument')
    v = [it(x) for x in (year, month, day, hour, minute, second, microsecond)]
    ok = And(valid_date(*v[:3]), valid_time(*v[3:6]), v[6] >= 0, v[6] <= 999999)
    if not test(ok):
        raise ValueError('components out of range')
    return DT(*v, tzinfo=tzinfo)


def fresh_dt(tz=None):
    v = [it(fresh_int(n)) for n in FIELDS]
    Ctx.cur.assume(And(valid_date(*v[:3]), valid_time(*v[3:6]), v[6] >= 0, v[6] <= 999999))
    if tz is not None:
        Ctx.cur.assume(And(tz.minutes > -1440, tz.minutes < 1440))
    for n, x in zip(FIELDS, v):
        inp(n, SInt(x))
    return DT(*v, tzinfo=tz)


def zone_text(tz, marker):
    """characters of an offset; X: Z for zero; one letter: minutes only if there are any; three: with colon"""
    m = tz.minutes
    if marker[0] == 'X' and test(m == 0):
        return [90]
    neg = test(m < 0)
    a = -m if neg else m
    h, mi = tx.digits_of(a / 60, 2), tx.digits_of(a % 60, 2)
    sign = [45 if neg else 43]
    if len(marker) == 1 and test(a % 60 == 0):
        return sign + h
    return sign + h + ([58] if len(marker) == 3 else []) + mi


# ------------------------------------------------------------------ contracts of the libraries
def is_digit(c):
    return 48 <= c <= 57 if isinstance(c, int) else And(c >= 48, c <= 57)


def num(cs):
    v = 0
    for c in cs:
        v = v * 10 + (c - 48)
    return v if not isinstance(v, int) else IntVal(v)


def take(cs, i, n):
    """n digits from position i, or ValueError"""
    if i + n > len(cs):
        raise ValueError('expected digits')
    for c in cs[i:i + n]:
        if not test(is_digit(c)):
            raise ValueError('expected digits')
    return num(cs[i:i + n])


def at(cs, i, ch):
    return i < len(cs) and test(cs[i] == ord(ch) if not isinstance(cs[i], int) else cs[i] == ord(ch))


def zone_of(cs):
    """Z, +-HH, +-HHMM, +-HH:MM"""
    if len(cs) == 1 and (at(cs, 0, 'Z') or at(cs, 0, 'z')):
        return TZ(IntVal(0))
    if len(cs) not in (3, 5, 6) or not (at(cs, 0, '+') or at(cs, 0, '-')):
        raise ValueError('time zone')
    h = take(cs, 1, 2)
    m = IntVal(0)
    if len(cs) > 3:
        p = 4 if at(cs, 3, ':') else 3
        if len(cs) != p + 2:
            raise ValueError('time zone')
        m = take(cs, p, 2)
    if not test(And(m <= 59, h <= 23)):
        raise ValueError('time zone')
    t = h * 60 + m
    return TZ(-t if at(cs, 0, '-') else t)


def iso(self, v):
    """dateutil.parser.isoparse for texts that start with a full date"""
    cs = chars_of(v)
    y = take(cs, 0, 4)
    p = 4
    if at(cs, p, '-'):
        sep, p = True, p + 1
    else:
        sep = False
    mo = take(cs, p, 2)
    p += 2
    if sep:
        if not at(cs, p, '-'):
            raise Unsupported('iso date')
        p += 1
    if p >= len(cs):
        raise Unsupported('iso date without day')
    d = take(cs, p, 2)
    p += 2
    if p == len(cs):
        return make(SInt.of(y), SInt.of(mo), SInt.of(d))
    H, Mi, S, us, tz = iso_time(cs[p + 1:])
    if test(H == 24):
        raise Unsupported('hour 24')
    return make(*[SInt.of(z3.simplify(x)) for x in (y, mo, d, H, Mi, S, us)], tzinfo=tz)


def iso_time(cs):
    c = [IntVal(0)] * 4
    p, sep, tz = 0, False, None
    if len(cs) < 2:
        raise ValueError('ISO time too short')
    comp = -1
    while p < len(cs) and comp < 5:
        comp += 1
        if any(at(cs, p, z) for z in '-+Zz'):
            tz = zone_of(cs[p:])
            p = len(cs)
            break
        if comp == 1 and at(cs, p, ':'):
            sep = True
            p += 1
        elif comp == 2 and sep:
            if not at(cs, p, ':'):
                raise ValueError('Inconsistent use of colon separator')
            p += 1
        if comp < 3:
            c[comp] = take(cs, p, 2)
            p += 2
        if comp == 3 and (at(cs, p, '.') or at(cs, p, ',')):
            q = p + 1
            while q < len(cs) and test(is_digit(cs[q])):
                q += 1
            if q > p + 1:
                f = cs[p + 1:q][:6]
                c[3] = num(f) * 10 ** (6 - len(f))
                p = q
    if p < len(cs):
        raise ValueError('Unused components in ISO string')
    return c + [tz]


def du_parse(v, *a, **kw):
    """dateutil.parser.parse: today's date T time, or the time zone of a date and time"""
    cs = chars_of(v)
    k = max([i for i, c in enumerate(cs) if isinstance(c, int) and chr(c) in '+-Z'] or [-1])
    g = getattr(H, 'today', None)
    if g is not None and len(cs) > 11 and cs[:10] == g and cs[10] == 84:
        rest = cs[11:]
        j = k - 11
        if j > 0:
            z = zone_of(rest[j:])
            rest = rest[:j]
            if rest[-1] == 32:
                rest = rest[:-1]
        else:
            z = None
        c = iso_time(rest)
        return make(*[SInt.of(z3.simplify(num(cs[a:b]))) for a, b in ((0, 4), (5, 7), (8, 10))], *[
            SInt.of(z3.simplify(x)) for x in c[:4]], tzinfo=z)
    r = DT()
    r.tzinfo = zone_of(cs[k:])
    return r


class Holder:
    pass


H = Holder()


def today():
    v = [it(fresh_int(n)) for n in FIELDS[:3]]
    Ctx.cur.assume(valid_date(*v))
    H.date = v
    H.today = []
    ds = []
    for w, x in zip((4, 2, 2), v):
        d = [fresh_digit() for _ in range(w)]
        Ctx.cur.assume(num(d) == x)
        ds.append(d)
    H.today = chars('{}-{}-{}', *ds)
    r = DT(*v)
    r.isoformat = lambda: text(H.today)
    r.isoformat.__pv_model__ = True
    return r


def now(*a):
    return DT(*[it(fresh_int(n)) for n in FIELDS])


def fmt(x, spec):
    """str() of a datetime: some text of digits and punctuation"""
    if isinstance(x, DT) and not spec:
        return text([fresh_digit() if c == '0' else ord(c) for c in '0000-00-00 00:00:00.000000'])
    return NotImplemented


def babel_fmt(v, pattern, tz):
    """CLDR: runs of letters are fields, everything else is literal"""
    cs = chars_of(pattern)
    out, i = [], 0
    if tz is None:
        tz = TZ(IntVal(0))
    while i < len(cs):
        c = cs[i]
        if not isinstance(c, int):
            Ctx.cur.prove('only digits are inserted into a pattern', is_digit(c))
            out.append(c)
            i += 1
            continue
        ch = chr(c)
        j = i
        while j < len(cs) and cs[j] == c and isinstance(cs[j], int):
            j += 1
        n = j - i
        name = {'y': 'year', 'M': 'month', 'd': 'day', 'H': 'hour', 'm': 'minute', 's': 'second'}.get(ch)
        if name:
            x = it(getattr(v, name))
            if name == 'year':
                if n != 4:
                    raise Unsupported('year field')
                out += tx.digits_of(x, 4)
            elif n == 2:
                out += tx.digits_of(x, 2)
            elif n == 1:
                out += tx.digits_of(x, 2) if test(x >= 10) else tx.digits_of(x, 1)
            else:
                raise Unsupported('field ' + ch * n)
        elif ch in 'xX':
            out += zone_text(tz, ch * n)
        elif ch == 'T' or not ch.isalpha():
            out += [c] * n
        else:
            raise Unsupported('field ' + ch * n)
        i = j
    return text(out)


def format_datetime(v, format='medium', tzinfo=None, locale=None):
    return babel_fmt(v, format, tzinfo if tzinfo is not None else v.tzinfo)


def format_date(v, format='medium', locale=None):
    return babel_fmt(v, format, None)


def class_contract(*args, **kw):
    return make(*args, **kw)


C = {rt.qualname(datetime.datetime): class_contract, rt.qualname(datetime.date.today): lambda *a: today(),
     rt.qualname(datetime.datetime.now): now, rt.qualname(dateutil.parser.isoparse): iso, rt.qualname(dateutil.parser.parse): du_parse,
     rt.qualname(babel.dates.format_datetime): format_datetime, rt.qualname(babel.dates.format_time): format_datetime,
     rt.qualname(babel.dates.format_date): format_date, 'format': fmt}

# ------------------------------------------------------------------ formats
DATES = ['yyyy-MM-dd', 'yyyyMMdd', 'dd-MM-yyyy', 'd-M-yyyy', 'MM-dd-yyyy', 'M-d-yyyy', 'dd/MM/yyyy', 'd/M/yyyy', 'MM/dd/yyyy', 'M/d/yyyy',
         'dd.MM.yyyy', 'd.M.yyyy', 'MM.dd.yyyy', 'M.d.yyyy']
TIMES = ['HH:mm:ss', 'HHmmss', 'HH:mm', 'HHmm']
MARKERS = ['X', 'XX', 'XXX', 'x', 'xx', 'xxx']
UNITS = {'y': 0, 'M': 1, 'd': 2, 'H': 3, 'm': 4, 's': 5}


def split_format(f):
    """[(kind, text)] of a format: fields, fraction, marker, literals"""
    return [(m.lastgroup, m.group()) for m in re.finditer(r'(?P<field>y+|M+|d+|H+|m+|s+)|(?P<frac>\.S+)|(?P<zone>[xX]+)|(?P<lit>.)', f)]


def text_in(f, nfrac, offset_form):
    """an arbitrary text in the format: characters, component terms, zone"""
    out, comp, zone = [], {}, None
    for kind, s in split_format(f):
        if kind == 'field':
            n = len(s)
            if n == 1:
                n = 1 + Ctx.cur.choose(2)
            d = [fresh_digit() for _ in range(n)]
            comp[UNITS[s[0]]] = num(d)
            out += d
        elif kind == 'frac':
            if nfrac:
                d = [fresh_digit() for _ in range(nfrac)]
                out += [46] + d
                comp[6] = num(d[:6]) * 10 ** max(0, 6 - nfrac)
        elif kind == 'zone':
            if offset_form == 'Z':
                out += [90]
                zone = IntVal(0)
            else:
                h, m = [fresh_digit(), fresh_digit()], [fresh_digit(), fresh_digit()]
                Ctx.cur.assume(And(num(h) <= 23, num(m) <= 59))
                sg = Ctx.cur.choose(2)
                out += [45 if sg else 43] + h + ([] if offset_form == 'hh' else ([58] if ':' in offset_form else []) + m)
                zone = num(h) * 60 + (0 if offset_form == 'hh' else num(m))
                zone = -zone if sg else zone
        else:
            out.append(ord(s))
    return text(out), comp, zone


def prove_read(ctx, base, f, nfrac=0, offset_form=None, suffix=None, blanks=''):
    H.today = H.date = None
    dt = M.Datatype.fromvalue({'base': base, 'format': f} if f else base) if base != 'time' or f else M.Datatype.fromvalue('time')
    t, comp, zone = text_in(f or ('HH:mm:ss' if base == 'time' else 'yyyy-MM-ddTHH:mm:ss'), nfrac, offset_form)
    if suffix:
        z, _, zone = text_in(' X', 0, suffix)
        t = tx.concat([t, z[1:] if isinstance(z, str) else z.item(slice(1, None))])
    t = tx.concat([blanks, t, blanks])
    inp('text', t)
    if 3 in comp:       # 24:00 is midnight in ISO 8601: outside the contract
        ctx.assume(Not(comp[3] == 24))
    k, r = run(M.Datatype.parse, dt, t)
    c = [comp.get(j, IntVal(0)) for j in range(7)]
    if base == 'time':
        if getattr(H, 'date', None) is None or not getattr(H, 'today', None):
            c[:3] = [IntVal(2000), IntVal(1), IntVal(1)]
        else:
            c[:3] = H.date
    ok = And(valid_date(*c[:3]), valid_time(*c[3:6]))
    if k == 'exc':
        ctx.prove('only ValueError is raised', BoolVal(isinstance(r, ValueError)), repr(r))
        ctx.prove('a date and time that exists is read', Not(ok), repr(r))
        return
    ctx.cover('value')
    ctx.prove('dates and times that do not exist are rejected', ok)
    if not isinstance(r, DT):
        ctx.prove('a datetime is returned', BoolVal(False), repr(r))
        return
    for j, n in enumerate(FIELDS):
        ctx.prove(n, it(getattr(r, n)) == c[j])
    if zone is None:
        ctx.prove('no time zone', BoolVal(r.tzinfo is None))
    else:
        ctx.prove('the time zone', r.tzinfo.minutes == zone if r.tzinfo is not None else BoolVal(False))


def _read(name, *args):
    @harness('read[{}]'.format(name), contracts=C)
    def h(ctx):
        prove_read(ctx, *args)
        ctx.expect_cover('value')


FORMS = {'X': ['Z', 'hh', 'hhmm'], 'XX': ['Z', 'hhmm'], 'XXX': ['Z', 'hh:mm'], 'x': ['hh', 'hhmm'], 'xx': ['hhmm'], 'xxx': ['hh:mm']}

for _d in DATES:
    _read('date ' + _d, 'date', _d)
    _read('date ' + _d + ' with Z', 'date', _d, 0, None, 'Z')
    _read('date ' + _d + ' with zone', 'date', _d, 0, None, 'hh:mm')
    _read('date ' + _d + ' and blanks', 'date', _d, 0, None, None, ' ')
    for _s in 'T ':
        for _t in TIMES:
            _read('datetime ' + _d + _s + _t, 'datetime', _d + _s + _t)
for _d in ('yyyy-MM-dd', 'd.M.yyyy', 'MM/dd/yyyy'):
    for _n in (1, 3, 6, 8):
        for _k in range(0, _n + 1):
            _read('datetime {}T{} {} digits'.format(_d, 'HH:mm:ss.' + 'S' * _n, _k), 'datetime', _d + 'THH:mm:ss.' + 'S' * _n, _k)
    _read('datetime {} HHmmss.SSS 3 digits'.format(_d), 'datetime', _d + ' HHmmss.SSS', 3)
    for _m in MARKERS:
        for _f in FORMS[_m]:
            for _sp in ('', ' '):
                _read('datetime {}THH:mm{}{} {}'.format(_d, _sp, _m, _f), 'datetime', _d + 'THH:mm' + _sp + _m, 0, _f)
    _read('datetime {}THH:mm:ss.SSSXXX'.format(_d), 'datetime', _d + 'THH:mm:ss.SSSXXX', 2, 'hh:mm')
for _t in TIMES:
    _read('time ' + _t, 'time', _t)
    for _m in MARKERS:
        for _f in FORMS[_m]:
            _read('time {} {} {}'.format(_t, _m, _f), 'time', _t + ' ' + _m, 0, _f)
_read('time default', 'time', None)
_read('time HH:mm:ss.SSS', 'time', 'HH:mm:ss.SSS', 3)
_read('time HH:mm:ss.SSS 1', 'time', 'HH:mm:ss.SSS', 1)
_read('time HH:mm:ss.SSSXXX', 'time', 'HH:mm:ss.SSSXXX', 2, 'hh:mm')
_read('dateTimeStamp', 'dateTimeStamp', 'yyyy-MM-ddTHH:mm:ss.SSSSSSXXX', 6, 'hh:mm')


# ------------------------------------------------------------------ text which does not start with the format
def no_match(p, s, *a, **kw):
    return None


def not_iso(self, v):
    raise ValueError('contract of isoparse: not ISO')


def some(v, *a, **kw):
    return fresh_obj(datetime.datetime, 'dt')


def _mismatch(base, f):
    @harness('text which does not start with the format: {} {}'.format(base, f), contracts={
        're.Pattern.match': no_match, 're.Pattern.search': no_match, rt.qualname(dateutil.parser.isoparse): lambda self, v: some(v)})
    def h(ctx):
        """whatever isoparse accepts, the regular expression of the format decides"""
        dt = M.Datatype.fromvalue({'base': base, 'format': f})
        k, r = run(M.Datatype.parse, dt, inp('text', fresh_str('text')))
        ctx.prove('ValueError', BoolVal(k == 'exc' and isinstance(r, ValueError)), repr(r))


for _d in DATES:
    _mismatch('date', _d)
    for _b in ('datetime', 'dateTime'):
        _mismatch(_b, _d + 'THH:mm:ss')
    _mismatch('dateTimeStamp', _d + 'THH:mm:ssXXX')
for _t in TIMES:
    _mismatch('time', _t)


# ------------------------------------------------------------------ formatting
def spec_text(f, v, zone):
    """the text of a value in a format"""
    out = []
    for kind, s in split_format(f):
        if kind == 'field':
            x = it(getattr(v, FIELDS[UNITS[s[0]]]))
            n = len(s)
            if n == 1:
                n = 2 if test(x >= 10) else 1
            out += tx.digits_of(x, n)
        elif kind == 'frac':
            d = tx.digits_of(it(v.microsecond), 6)
            out += [46] + (d + [48] * 20)[:len(s) - 1]
        elif kind == 'zone':
            out += zone_text(zone or TZ(IntVal(0)), s)
        else:
            out.append(ord(s))
    return text(out)


def prove_format(ctx, base, f, zone):
    ctx.digits = True
    tz = TZ(it(fresh_int('offset'))) if zone else None
    v = fresh_dt(tz)
    dt = M.Datatype.fromvalue({'base': base, 'format': f} if f else base)
    k, r = run(M.Datatype.formatted, dt, v)
    ctx.prove('formatting does not fail', BoolVal(k == 'ok'), repr(r))
    if k != 'ok':
        return
    if f is None and base == 'date':
        f = 'yyyy-MM-dd'
    if f is None and base == 'time':
        f = 'HH:mm:ss'
    if f is None and base == 'dateTimeStamp':
        f = 'yyyy-MM-ddTHH:mm:ss.SSSSSSXXX'
    if f is None:
        f = 'yyyy-MM-ddTHH:mm:ss'
        if test(it(v.microsecond) != 0):
            f += '.SSSSSS'
        f += 'xxx' if zone else ''
    ctx.prove('the text of the value', eq(r, spec_text(f, v, tz)), repr(r))


def _format(name, *args):
    @harness('format[{}]'.format(name), contracts=C)
    def h(ctx):
        prove_format(ctx, *args)


for _d in DATES:
    _format('date ' + _d, 'date', _d, False)
    for _s in 'T ':
        for _t in TIMES:
            _format('datetime ' + _d + _s + _t, 'datetime', _d + _s + _t, False)
for _n in range(1, 9):
    _format('datetime fraction %d' % _n, 'datetime', 'yyyy-MM-ddTHH:mm:ss.' + 'S' * _n, False)
    _format('time fraction %d' % _n, 'time', 'HHmmss.' + 'S' * _n, False)
for _m in MARKERS:
    for _sp in ('', ' '):
        _format('datetime zone ' + _sp + _m, 'datetime', 'd.M.yyyy HH:mm' + _sp + _m, True)
        _format('datetime fraction zone ' + _sp + _m, 'datetime', 'yyyy-MM-dd HH:mm:ss.SSS' + _sp + _m, True)
        _format('time zone ' + _sp + _m, 'time', 'HH:mm:ss' + _sp + _m, True)
for _t in TIMES:
    _format('time ' + _t, 'time', _t, False)
for _b in ('datetime', 'dateTime', 'date', 'time'):
    _format(_b + ' default', _b, None, False)
for _b in ('datetime', 'dateTime', 'dateTimeStamp'):
    _format(_b + ' default with zone', _b, None, True)


@harness('digits and numbers')
def digits(ctx):
    """the digits of a number are digits and denote the number: composes format and read"""
    for n in (1, 2, 4, 6):
        v = it(fresh_int('v'))
        ctx.assume(And(v >= 0, v < 10 ** n))
        d = tx.digits_of(v, n)
        ctx.prove('%d digits' % n, And(*[is_digit(c) for c in d], num(d) == v))
        for k in range(1, n if n == 6 else 0):
            ctx.prove('truncated to %d' % k, num(d[:k]) == v / 10 ** (n - k))


@harness('formats: supported and unsupported', kind='shape', bound='the supported formats and all texts made of at most three of their parts')
def formats(ctx):
    import itertools
    parts = ['yyyy', 'MM', 'dd', 'd', 'M', 'HH', 'mm', 'ss', '-', '/', '.', ':', 'T', ' ', 'S', 'X', 'yy', 'a', '']
    texts = [d + s + t + z for d in DATES for s in 'T ' for t in TIMES for z in ('', 'X', ' XXX')] + DATES + [
        ''.join(x) for x in itertools.product(parts, repeat=3)] + ['yyyy-MM-ddTHH:mm:ss.SxS', 'yyyy-MM-dd HH:mm X x', 'd.M.yyyy HH:mm:ss.S XxX']
    p = re.compile('({})([T ]({})(\\.S+)?)?( ?(X{{1,3}}|x{{1,3}}))?'.format('|'.join(map(re.escape, DATES)), '|'.join(TIMES)))
    wrong, other = [], []
    for f in texts:
        good = bool(p.fullmatch(f))
        if not good and (f[:1] in ('', 'T', ' ', 'X') or f[-1] in 'T '):
            continue        # degenerate formats without a date or time: outside the contract
        k, r = run(D.dt_format_and_regex, f)
        if good != (k == 'ok'):
            wrong.append((f, r))
        if k == 'exc' and not isinstance(r, ValueError):
            other.append((f, r))
    ctx.prove('exactly the supported formats are accepted', BoolVal(not wrong), repr(wrong[:3]))
    ctx.prove('unsupported formats raise ValueError', BoolVal(not other), repr(other[:3]))
