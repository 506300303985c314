"""C08: decimal and integer text respects the number format in both directions."""
import decimal as _dec
import itertools

from pv.h import *
from pv import text as tx
from pv.text import Text, SText, test, chars_of
from pv.htext import HText, View, Base, htext, same_char, conj, disj, neg, tr
import babel.numbers
import csvw.datatypes as D
import csvw.metadata as M

HARNESSES, harness = registry()

ASSUMPTIONS = [
    'decimal.Decimal(text) raises InvalidOperation or returns the number denoted by the text, exactly; Context(prec=MAX_PREC).multiply is exact',
    "format(v, ',f'), format(v, 'f'), format(v, ',') and str(v) of finite numbers: alphabet and group characters as documented; "
    'the text without group characters denotes v (compared with Python by the bounded checks)',
    'babel.numbers.format_decimal writes digits, signs, "," and "." only (patterns without percent and exponent)',
    'str.lower: exact for ASCII; no other character but U+212A and U+0130 has an ASCII letter in its lower case form (enumerated)',
]


class Num:
    """a finite number; texts made of it are remembered"""
    __pv_model__ = True
    __pv_symbolic__ = True

    def __init__(self, cls, finite=True):
        self.cls, self.finite = cls, finite
        self.texts = {}

    __class__ = property(lambda self: self.cls)

    def text(self, spec):
        if spec not in self.texts:
            def digit(c):
                return z3.And(c >= 48, c <= 57)

            def one_of(s):
                return lambda c: z3.Or(digit(c), *[c == ord(x) for x in s])
            alphabet = {',f': one_of(',.-'), 'f': one_of('.-'), ',': one_of(',-'), '': one_of('.E+-e'), 'repr': one_of('.e+-'), 'd': one_of('-'),
                        'babel': one_of('.-' + ''.join(x for x in ',%\u2030' if x in (H.pattern or ''))), ',d': one_of(',-')}[spec]
            if self.cls is int and spec in ('', 'repr'):
                alphabet = one_of('-')
            t = htext('text', alphabet)
            b = t.segs[0].base
            Ctx.cur.assume(b.n >= 1)
            k = z3.Int(b.name + '.g')
            for x in '%\u2030':
                if spec == 'babel' and x in H.pattern:
                    Ctx.cur.assume(tr(t.exists(lambda c: c == ord(x))))
            if spec in (',f', ',', ',d', 'babel'):
                Ctx.cur.assume(ForAll([k], Implies(And(k >= 0, k + 1 < b.n), Not(And(b.code(k) == 44, b.code(k + 1) == 44))), patterns=[b.code(k + 1)]))
            self.texts[spec] = t
        return self.texts[spec]

    def __lt__(self, o):
        return fresh_bool('negative')

    def __repr__(self):
        return 'a number'


def read_as(x):
    """contract of Decimal(text): the number whose canonical text this is"""
    if isinstance(x, HText):
        for v in H.numbers:
            for spec, t in v.texts.items():
                if spec in (',f', 'f', ',', '', 'd', ',d', 'repr', 'babel'):
                    want = t if spec in ('', 'repr', 'f', 'd') else t.m_replace(',', '')
                    if spec == 'babel':
                        want = want.m_replace('%', '').m_replace('\u2030', '')
                    f = x.pointwise(want)
                    if f is not False and Ctx.cur.valid(f)[0] == 'valid':
                        return v, spec
    return None, None


class Dec:
    """a Decimal"""
    __pv_model__ = True
    __pv_symbolic__ = True

    def __init__(self, arg):
        self.arg = arg

    def __repr__(self):
        return 'Decimal({!r})'.format(self.arg)

    def __mul__(self, o):
        return Product(self, o, 28)

    def is_finite(self):
        return fresh_bool('finite')


class Product:
    __pv_model__ = True
    __pv_symbolic__ = True

    def __init__(self, d, factor, prec):
        self.d, self.factor, self.prec = d, factor, prec

    def number(self):
        v = read_as(self.d.arg)[0] if isinstance(self.d, Dec) and self.factor == 1 and self.prec == _dec.MAX_PREC else None
        if v is None:
            raise Unsupported('unknown number')
        return v

    def is_finite(self):
        return self.number().finite

    def as_integer_ratio(self):
        v = self.number()
        if v.cls is not int:
            raise Unsupported('ratio')
        return v, 1


class Con:
    __pv_model__ = True
    __pv_symbolic__ = True

    def __init__(self, prec=28, **kw):
        self.prec = prec

    def multiply(self, a, b):
        return Product(a, b, self.prec)


class H:
    pattern = locale = None
    raised = False
    numbers = []
    decimals = []


def decimal_con(x=0):
    if isinstance(x, str):
        return _dec.Decimal(x)
    if isinstance(x, Num):
        return x
    if not isinstance(x, Text):
        raise Unsupported('Decimal of {!r}'.format(x))
    for v in H.numbers:
        if 'repr' in v.texts:
            f = x.pointwise(v.texts['repr']) if isinstance(x, HText) else False
            if f is not False and Ctx.cur.valid(f)[0] == 'valid':
                return Num_(_dec.Decimal)
    if H.strict and Ctx.cur.choose(2):
        raise _dec.InvalidOperation
    return Dec(x)


def Num_(cls):
    v = Num(cls)
    H.numbers.append(v)
    return v


def fmt(x, spec):
    if isinstance(x, Num):
        return x.text(spec)
    if isinstance(x, (Dec, Product)):
        return fresh_str('text')
    return NotImplemented


def repr_con(x):
    return x.text('repr') if isinstance(x, Num) else NotImplemented


C = {rt.qualname(_dec.Decimal): lambda *a: decimal_con(*a[-1:]), rt.qualname(_dec.Context): Con, 'format': fmt, 'repr': repr_con}


def start(strict=True):
    H.numbers, H.decimals, H.strict = [], [], strict
    H.pattern = H.locale = None


# ------------------------------------------------------------------ reading
CHARS = [None, ',', '.', ' ', "'", '_', ';', ':', '*', '?', '|', '(', ')', '[', ']', '^', '$', '\\', '{', '}', '#', '&', '~', '\t', '\n', '"', '!',
         '/', '<', '\xa0', '\u202f', '\u2019', '\xb7', '\u066b', '\u0300', '\U0001d7ce']


def pairs():
    for g, d in itertools.product(CHARS, CHARS):
        if (g or ',') == (d or '.') and g != d:
            continue            # ambiguous
        if g is not None and g == d:
            continue
        if g == '.' and d is None:
            continue
        if g in (None, ',', '.', ' ', '*', '\\', "'") or d in (None, ',', '.', '^') or (CHARS.index(g) + CHARS.index(d)) % 7 == 0:
            yield g, d


def spec_reject(v, g):
    """characters or neighbours which make a text invalid"""
    e = v.exists(lambda c: disj(same_char(c, 101), same_char(c, 69)))
    x = ord(g or ',')
    return disj(e, v.adjacent([lambda c: same_char(c, x)] * 2))


def spec_clean(v, g, d, mark):
    t = v.m_replace(g, '') if g else v
    if d:
        t = t.m_replace(d, '.')
    if mark and isinstance(t, HText):
        t = t.m_replace(mark, '')
    return t


def dt_of(base, fmt):
    dt = M.Datatype.fromvalue(base)
    dt.format = fmt
    return dt


def fmt_dict(g, d, **kw):
    r = dict(kw)
    if g is not None:
        r['groupChar'] = g
    if d is not None:
        r['decimalChar'] = d
    return r


def prove_read(ctx, g, d, pattern=None):
    start()
    warned = ctx.roots['warnings'] = VList()
    v = inp('text', htext('v'))
    if d is not None and d != '.' and g != '.':
        ctx.assume(Not(v.exists(lambda c: same_char(c, 46))))      # not a number in this format
    H.checked = None
    kw = fmt_dict(g, d)
    if pattern:
        kw['pattern'] = pattern
    k, r = run(M.Datatype.parse, dt_of('decimal', kw), v)
    reject = spec_reject(v, g)
    n = length(v)
    special = {s: And(n == len(s), *[v.char(IntVal(i)) == ord(c) for i, c in enumerate(s)]) for s in ('INF', '-INF', 'NaN')}
    eg, ed = g, d
    if pattern:
        eg = g or (',' if ',' in pattern else None)
        ed = d or ('.' if '.' in pattern else None)
        if H.checked is not None:
            arg, verdict = H.checked
            want = v.m_translate({ord(eg or ','): ',', ord(ed or '.'): '.'})
            ctx.prove('the pattern is checked for the text with standard separators', same_text(arg, want))
            if k == 'ok':
                ctx.prove('a text is read only if it has the pattern', bt(verdict))
            reject = Or(tr(reject), Not(bt(verdict)))
        elif k == 'ok':
            ctx.prove('the pattern is checked', BoolVal(False))
    if k == 'exc':
        ctx.prove('ValueError', BoolVal(isinstance(r, ValueError)), repr(r))
        if not H.raised:
            ctx.prove('only invalid texts are rejected', tr(reject))
        ctx.cover('rejected')
        return
    ctx.prove('exponents and doubled group characters are rejected', Not(tr(reject)))
    if isinstance(r, _dec.Decimal):
        ctx.cover('special')
        ctx.prove('special values only for special texts', special.get({'Infinity': 'INF', '-Infinity': '-INF', 'NaN': 'NaN'}.get(str(r)), BoolVal(False)))
        ctx.prove('special values are reported', BoolVal(len(warned) > 0))
        return
    ctx.cover('number')
    ctx.prove('special texts are special values', Not(Or(*special.values())))
    if not isinstance(r, Product):
        ctx.prove('the number times the factor', BoolVal(False), repr(r))
        return
    ctx.prove('the product is exact', BoolVal(r.prec == _dec.MAX_PREC))
    pct, mil = ord('%'), 0x2030
    if test(v.exists(lambda c: same_char(c, pct))):
        mark, factor = '%', _dec.Decimal('0.01')
    elif test(v.exists(lambda c: same_char(c, mil))):
        mark, factor = '\u2030', _dec.Decimal('0.001')
    else:
        mark, factor = None, 1
    ctx.prove('the factor', BoolVal(r.factor == factor), repr(r.factor))
    ctx.prove('the number: group characters removed, decimal character replaced', same_text(r.d.arg, spec_clean(v, eg, ed, mark)),
              repr(r.d.arg))


def same_text(a, b):
    if isinstance(a, str) or isinstance(b, str):
        if isinstance(a, str) and isinstance(b, str):
            return BoolVal(a == b)
        return bt(RT.eq(a, b))
    return tr(a.pointwise(b)) if isinstance(a, HText) else bt(RT.eq(a, b))


def con_dec(*a):
    H.raised = False
    try:
        return decimal_con(*a[-1:])
    except _dec.InvalidOperation:
        H.raised = True
        raise


CR = dict(C)
CR[rt.qualname(_dec.Decimal)] = con_dec


def is_valid(self, s):
    b = fresh_bool('has_pattern')
    H.checked = (s, b)
    return b


def _reading(g, d, pattern=None):
    con = dict(CR)
    if pattern:
        con[rt.qualname(D.NumberPattern.is_valid)] = is_valid

    @harness('read: group {!r} decimal {!r}{}'.format(g, d, ' pattern ' + pattern if pattern else ''), contracts=con)
    def h(ctx):
        H.raised = False
        prove_read(ctx, g, d, pattern)
        ctx.expect_cover('rejected', 'special', 'number')


for _g, _d in pairs():
    _reading(_g, _d)
for _p in ('0', '#,##0', '0.00', '#,##0.##', '#0.0#', '#,#00.0'):
    for _g, _d in ((None, None), ('.', ','), (' ', None), (None, '\xb7'), ("'", '.'), (' ', ',')):
        if _g == '.' and _d is None:
            continue
        _reading(_g, _d, _p)


# ------------------------------------------------------------------ formatting
def format_decimal(v, pattern=None, locale=None, **kw):
    H.pattern = pattern
    H.locale = locale
    return v.text('babel')


def is_valid_babel(self, s):
    """contract: the text babel wrote for the pattern has the pattern; nothing else is known"""
    for v in H.numbers:
        if 'babel' in v.texts:
            f = s.pointwise(v.texts['babel'])
            if f is not False and Ctx.cur.valid(f)[0] == 'valid':
                return True
    return fresh_bool('has_pattern')


def prove_round_trip(ctx, base, cls, g, d, pattern=None):
    start(strict=False)
    v = Num_(cls)
    kw = fmt_dict(g, d)
    if pattern:
        kw['pattern'] = pattern
    dt = dt_of(base, kw)
    k, t = run(M.Datatype.formatted, dt, v)
    ctx.prove('formatting does not fail', BoolVal(k == 'ok'), repr(t))
    if k != 'ok':
        return
    if not isinstance(t, HText):
        ctx.prove('the text is the text of the number', BoolVal(False), repr(t))
        return
    inp('formatted', t)
    ctx.prove('no scientific notation', tr(t.forall(lambda c: neg(disj(same_char(c, 101), same_char(c, 69))))))
    # the text: the canonical text with the separators replaced
    if pattern:
        ctx.prove('babel formats with the pattern', BoolVal(H.pattern == pattern and str(H.locale).startswith('en')), repr(H.pattern))
    k, r = run(M.Datatype.parse, dt, t)
    ctx.prove('the text is read', BoolVal(k == 'ok'), repr(r))
    if k != 'ok':
        return
    if base == 'integer':
        ctx.prove('the integer is the same', BoolVal(r is v), repr(r))
        ctx.cover('round trip')
        return
    factor = _dec.Decimal('0.01') if '%' in (pattern or '') else _dec.Decimal('0.001') if '\u2030' in (pattern or '') else 1
    ok = isinstance(r, Product) and r.factor == factor and r.prec == _dec.MAX_PREC and isinstance(r.d, Dec)
    ctx.prove('the number is read exactly', BoolVal(ok), repr(r))
    if not ok:
        return
    w, spec = read_as(r.d.arg)
    ctx.prove('the number is the same', BoolVal(w is not None and spec in (('babel',) if pattern else ('f', ',f', ',', '', 'd', ',d') if cls is int else
                                                                                ('f', ',f'))), '{!r} {!r}'.format(r.d.arg, spec))
    grouped = (pattern and ',' in pattern) or (g is not None)
    if not grouped and w is not None:
        ctx.prove('no group characters unless declared', BoolVal(spec in ('f', '', 'd', 'babel')))
    ctx.cover('round trip')


def _trip(base, cls, g, d, pattern=None):
    con = dict(C)
    con[rt.qualname(babel.numbers.format_decimal)] = format_decimal
    if pattern:
        con[rt.qualname(D.NumberPattern.is_valid)] = is_valid_babel

    @harness('round trip: {} {} group {!r} decimal {!r}{}'.format(base, cls.__name__, g, d, ' pattern ' + pattern if pattern else ''), contracts=con)
    def h(ctx):
        prove_round_trip(ctx, base, cls, g, d, pattern)
        ctx.expect_cover('round trip')


for _g, _d in pairs():
    _trip('decimal', _dec.Decimal, _g, _d)
    if _g in (None, ',', '.', ' ', "'", '*') and _d in (None, ',', '.', '\xb7'):
        _trip('decimal', float, _g, _d)
        _trip('decimal', int, _g, _d)
        _trip('integer', int, _g, _d)
for _p in ('0', '#,##0', '0.00', '#,##0.##', '#0.0#', '0%', '#,##0.0%', '0.00\u2030'):
    for _g, _d in ((None, None), ('.', ','), (' ', None), (None, '\xb7'), ("'", '.'), (' ', ',')):
        if _g is not None and ',' not in _p:
            pass
        _trip('decimal', _dec.Decimal, _g, _d, _p)


@harness('formatting special values')
def special(ctx):
    start()
    for base in ('decimal', 'integer'):
        for g, d in ((None, None), (',', None), ('.', ',')):
            for x, t in (('Infinity', 'INF'), ('-Infinity', '-INF'), ('NaN', 'NaN')):
                k, r = run(M.Datatype.formatted, dt_of(base, fmt_dict(g, d)), _dec.Decimal(x))
                ctx.prove('special values are formatted as INF, -INF, NaN', BoolVal(k == 'ok' and r == t), repr(r))


# ------------------------------------------------------------------ integers
class Ratio:
    """what decimal.to_python returns: a number that may be infinite"""
    __pv_model__ = True
    __pv_symbolic__ = True

    def __init__(self, finite, num, den):
        self.finite, self.num, self.den = finite, num, den

    def is_finite(self):
        return self.finite

    def as_integer_ratio(self):
        if not test(bt(self.finite)):
            raise OverflowError('cannot convert Infinity to integer ratio')
        return self.num, self.den


def any_decimal(v, *a, **kw):
    if Ctx.cur.choose(2):
        raise ValueError('contract: invalid decimal')
    r = Ratio(fresh_bool('finite'), fresh_int('numerator'), fresh_int('denominator'))
    Ctx.cur.assume(it(r.den) >= 1)
    H.last = (v, kw, r)
    return r


@harness('integers', contracts={rt.qualname(D.decimal.to_python): any_decimal})
def integers(ctx):
    start()
    H.last = None
    v = inp('text', fresh_str('text'))
    kw = [{}, {'groupChar': '.'}, {'groupChar': ' ', 'decimalChar': ','}, {'pattern': '#,##0'}][ctx.choose(4)]
    k, r = run(M.Datatype.parse, dt_of('integer', kw), v)
    if H.last is None:
        ctx.prove('ValueError of decimals is passed on', BoolVal(k == 'exc' and isinstance(r, ValueError)), repr(r))
        return
    arg, akw, x = H.last
    ctx.prove('the text is read as a decimal in the same format', And(eq(arg, v), BoolVal({a: b for a, b in akw.items() if b is not None} == kw)))
    if k == 'exc':
        ctx.cover('rejected')
        ctx.prove('ValueError', BoolVal(isinstance(r, ValueError)), repr(r))
        ctx.prove('whole numbers are read', Not(And(bt(x.finite), it(x.den) == 1)))
    else:
        ctx.cover('number')
        ctx.prove('infinite numbers are rejected', bt(x.finite))
        ctx.prove('only whole numbers', it(x.den) == 1)
        ctx.prove('the number', eq(r, x.num))
    ctx.expect_cover('rejected', 'number')


# ------------------------------------------------------------------ floating-point numbers with a pattern
def _floats(base, pattern, as_dict):
    def to_float(x):
        c = Ctx.cur
        if not isinstance(x, SVal) or not c.is_text(x):
            raise Unsupported('float of {!r}'.format(x))
        if c.branch(c.no_number.t):
            raise ValueError('no number')
        return c.number

    @harness('read: {} with pattern {}{}'.format(base, pattern, ' (object)' if as_dict else ''), contracts={
        rt.qualname(D.NumberPattern.is_valid): is_valid, 'builtin:float': to_float, rt.qualname(float): to_float})
    def h(ctx):
        H.checked = None
        v = inp('text', fresh_str('v'))
        ctx.no_number, ctx.number = fresh_bool('no number'), fresh_val('number')
        ctx.is_text = lambda x: ctx.valid(lift(x) == lift(v))[0] == 'valid'
        dt = M.Datatype.fromvalue({'base': base, 'format': {'pattern': pattern} if as_dict else pattern})
        k, r = run(M.Datatype.parse, dt, v)
        ctx.prove('the pattern is checked for the text', BoolVal(H.checked is not None) if H.checked is None else lift(H.checked[0]) == lift(v))
        if H.checked is None:
            return
        ok = And(bt(H.checked[1]), Not(ctx.no_number.t))
        if k == 'exc':
            ctx.cover('rejected')
            ctx.prove('ValueError for other texts only', And(BoolVal(isinstance(r, ValueError)), Not(ok)), repr(r))
            return
        ctx.cover('number')
        ctx.prove('only texts with the pattern are read', ok)
        ctx.prove('the number of the text', lift(r) == lift(ctx.number))
        ctx.expect_cover('rejected', 'number')


for _b in ('float', 'double', 'number'):
    for _p in ('0.00', '#0.0#E0'):
        _floats(_b, _p, False)
        _floats(_b, _p, True)
