"""C05: reading a value enforces exactly the declared datatype constraints."""
import decimal
import datetime

from pv.h import *
import rfc3986
import csvw.datatypes as D
import csvw.metadata as M

HARNESSES, harness = registry()

ASSUMPTIONS = [
    'values of one ordered datatype are totally ordered by < (no NaN, no mixing of naive and aware datetimes)',
    'truth and length of bytes, str and list values agree (empty iff length 0)',
    'rfc3986: URIReference.unsplit gives the text of a parsed URI; parsers of other datatypes than anyURI give no such objects',
    'decimal.Decimal.is_finite/as_integer_ratio are the mathematical functions (library, trusted)',
]

# XML Schema value ranges, stated independently of the code
INF = None
RANGES = {
    'integer': (INF, INF), 'int': (INF, INF), 'unsignedInt': (0, 2**32 - 1), 'unsignedShort': (0, 2**16 - 1),
    'unsignedLong': (0, 2**64 - 1), 'unsignedByte': (0, 255), 'short': (-2**15, 2**15 - 1),
    'long': (-2**63, 2**63 - 1), 'byte': (-128, 127), 'nonNegativeInteger': (0, INF),
    'positiveInteger': (1, INF), 'nonPositiveInteger': (INF, 0), 'negativeInteger': (INF, -1),
}
ORDERED = set(RANGES) | {
    'decimal', 'float', 'number', 'double', 'datetime', 'dateTime', 'date', 'dateTimeStamp', 'time'}
LENGTHS = {'string', 'anyURI', 'NMTOKEN', 'base64Binary', 'binary', 'hexBinary', 'normalizedString', 'QName',
           'gDay', 'gMonth', 'gMonthDay', 'gYear', 'gYearMonth', 'xml', 'html', 'json', 'token', 'language',
           'Name'}
BOUNDS = ['minimum', 'maximum', 'minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive']


class Uri:
    """a parsed URI: a tuple of five parts, with a text"""
    __pv_model__ = __pv_symbolic__ = True
    __pv_class__ = rfc3986.URIReference

    def __init__(self):
        self.text = inp('text of the URI', fresh_str('uri'))

    def length(self):
        return 5

    def unsplit(self):
        return self.text


def value_of(base):
    if base == 'anyURI':
        return optional('uri', lambda n: Uri())
    if base in RANGES:
        return SVal(V.I(Int(Ctx.cur.fresh('v'))))
    if base == 'decimal':
        return fresh_obj(decimal.Decimal, 'v')
    if base in ('float', 'number', 'double'):
        return fresh_obj(float, 'v')
    if base in ORDERED:
        return fresh_obj(datetime.datetime, 'v')
    if base in ('base64Binary', 'binary', 'hexBinary'):
        return fresh_obj(bytes, 'v')
    if base in ('json', 'any', 'duration', 'dayTimeDuration', 'yearMonthDuration', 'boolean'):
        v = fresh_val('v')
        Ctx.cur.assume(Not(RT.call(isinstance, v, rfc3986.URIReference).t))     # only anyURI gives these
        return v
    return fresh_str('v')


def constrained(ctx, base):
    """A datatype as the constructor leaves it, with arbitrary facets."""
    dt = M.Datatype(base=base)
    lens, bounds = {}, {}
    if base in LENGTHS:
        for n in ('length', 'minLength', 'maxLength'):
            v = fresh_val(n)
            ctx.assume(Or(V.is_none(v.t), V.is_I(v.t)))
            setattr(dt, n, v)
            lens[n] = inp(n, v)
    if base in ORDERED:
        for n in BOUNDS:
            v = fresh_val(n)
            setattr(dt, n, v)
            bounds[n] = inp(n, v)
    return dt, lens, bounds


def allowed(v, lens, bounds):
    """the property's condition for a non-null value"""
    fs = []
    if lens:
        n = length(v.text if isinstance(v, Uri) else v)
        g = lambda x: Not(V.is_none(x.t))
        i = lambda x: V.i(x.t)
        fs += [Implies(g(lens['length']), n == i(lens['length'])),
               Implies(g(lens['minLength']), n >= i(lens['minLength'])),
               Implies(g(lens['maxLength']), n <= i(lens['maxLength']))]
    for n, b in bounds.items():
        t = lift(v)
        less, more = lt(t, b.t), lt(b.t, t)
        c = {'minimum': Not(less), 'minInclusive': Not(less), 'minExclusive': more,
             'maximum': Not(more), 'maxInclusive': Not(more), 'maxExclusive': less}[n]
        fs.append(Implies(Not(V.is_none(b.t)), c))
    return And(*fs) if fs else BoolVal(True)


def has_length(v):
    try:
        length(v)
        return True
    except TypeError:
        return False


def check_outcome(ctx, out, v, lens, bounds, what):
    kind, r = out
    if lens and not has_length(v.text if isinstance(v, Uri) else v):
        lens = {}
    ok = allowed(v, lens, bounds)
    none = BoolVal(False) if isinstance(v, Uri) else is_none(v)
    if kind == 'exc':
        ctx.cover('rejected')
        ctx.prove(what + ' raises only ValueError', BoolVal(isinstance(r, ValueError)), repr(r))
        ctx.prove(what + ' rejects only violations', And(Not(none), Not(ok)))
        return
    ctx.cover('accepted')
    ctx.prove(what + ' returns the value unchanged', BoolVal(r is v) if isinstance(v, Uri) else eq(r, v))
    ctx.prove(what + ' accepts only allowed values', Or(none, ok))


def make_validate(base):
    @harness('Datatype.validate[{}]'.format(base))
    def h(ctx):
        dt, lens, bounds = constrained(ctx, base)
        v = value_of(base)
        if not isinstance(v, Uri):
            inp('value', v)
        if bounds:
            ctx.assume(order_axioms(v, *bounds.values()))
        if lens or bounds:
            ctx.expect_cover('accepted', 'rejected')
        check_outcome(ctx, meth(dt, 'validate', v), v, lens, bounds, 'validate')


for _b in D.DATATYPES:
    make_validate(_b)


def parse_contract(self, v):
    """Datatype.parse: some value determined by the text, or a ValueError."""
    if Ctx.cur.choose(2):
        raise ValueError('contract: not in the lexical space')
    if v is None:
        return None
    return SVal(uf('parsed', V, V)(lift(v)))


for _b in ('string', 'integer', 'decimal', 'date'):
    def _mk(base):
        @harness('Datatype.read[{}]'.format(base), contracts={'csvw.metadata.Datatype.parse': parse_contract})
        def h(ctx):
            dt, lens, bounds = constrained(ctx, base)
            text = inp('text', fresh_str('text'))
            p = SVal(uf('parsed', V, V)(text.t))
            if base == 'string':
                ctx.assume(V.is_S(p.t))
            else:
                ctx.assume(Not(RT.call(isinstance, p, rfc3986.URIReference).t))     # only anyURI gives these
            if bounds:
                ctx.assume(order_axioms(p, *bounds.values()))
            ctx.expect_cover('accepted', 'parse failed')
            out = meth(dt, 'read', text)
            if from_contract(out):
                ctx.cover('parse failed')
                ctx.prove('read raises the ValueError of the parser', BoolVal(isinstance(out[1], ValueError)))
                return
            check_outcome(ctx, out, p, lens, bounds, 'read')
    _mk(_b)


# ------------------------------------------------------------------ parse and the integer types
@harness('Datatype.parse')
def parse(ctx):
    """parse(None) is None; otherwise the basetype's parser decides, given the derived description"""
    dt = M.Datatype(base='string')
    seen = []

    class base:
        __pv_model__ = True
        minmax = False

        @staticmethod
        def derived_description(d):
            return {'a': 1, 'b': 2}
    base.derived_description.__pv_model__ = True

    def to_python(v, **kw):
        seen.append((v, kw))
        return SVal(uf('base_parsed', V, V)(lift(v)))
    to_python.__pv_model__ = True
    base.to_python = staticmethod(to_python)
    D.DATATYPES['pv'] = base
    try:
        dt.base = 'pv'
        text = None if ctx.choose(2) else fresh_str('text')
        k, r = meth(dt, 'parse', text)
    finally:
        del D.DATATYPES['pv']
    if k != 'ok':
        ctx.fail('parse does not raise by itself', repr(r))
    if text is None:
        ctx.prove('parse(None) is None', is_none(r))
        return
    ctx.cover('text')
    ctx.expect_cover('text')
    ctx.prove('parse returns what the basetype parser returns',
              lift(r) == uf('base_parsed', V, V)(text.t))
    ctx.prove('the basetype parser gets the whole text and the derived description',
              BoolVal(len(seen) == 1 and seen[0][0] is text and dict(seen[0][1]) == {'a': 1, 'b': 2}))


NUM, DEN = uf('numerator', V, INT), uf('denominator', V, INT)
FINITE = uf('is_finite', V, BOOL)


def as_integer_ratio(o):
    Ctx.cur.fact(DEN(o.t) >= 1)
    if not Ctx.cur.branch(FINITE(o.t)):
        if Ctx.cur.branch(uf('is_nan', V, BOOL)(o.t)):
            raise ValueError('cannot convert NaN to integer ratio')
        raise OverflowError('cannot convert Infinity to integer ratio')
    return (SInt(NUM(o.t)), SInt(DEN(o.t)))


METHOD_MODELS[('SVal', 'as_integer_ratio')] = as_integer_ratio
METHOD_MODELS[('SVal', 'is_finite')] = lambda o: sbool(FINITE(o.t))
METHOD_MODELS[('SVal', 'is_nan')] = lambda o: sbool(uf('is_nan', V, BOOL)(o.t))
METHOD_MODELS[('SVal', 'is_infinite')] = lambda o: sbool(
    And(Not(FINITE(o.t)), Not(uf('is_nan', V, BOOL)(o.t))))


def decimal_contract(v, **kw):
    """decimal.to_python: a Decimal determined by text and format, or a ValueError."""
    if Ctx.cur.choose(2):
        raise ValueError('contract: no decimal')
    return SVal(V.O(IntVal(tag(decimal.Decimal)), uf('dec', V, INT)(lift(v))))


def make_int(name):
    @harness('{}.to_python'.format(name), contracts={'csvw.datatypes.decimal.to_python': decimal_contract})
    def h(ctx):
        text = inp('text', fresh_str('text'))
        d = V.O(IntVal(tag(decimal.Decimal)), uf('dec', V, INT)(text.t))
        ctx.fact(DEN(d) >= 1)
        k, r = run(D.DATATYPES[name].to_python, text)
        lo, hi = RANGES[name]
        n = NUM(d)
        inrange = And(BoolVal(True) if lo is None else n >= lo, BoolVal(True) if hi is None else n <= hi)
        isint = And(FINITE(d), DEN(d) == 1)
        ctx.expect_cover('accepted', 'rejected')
        if k == 'exc':
            if from_contract((k, r)):
                return
            ctx.cover('rejected')
            ctx.prove('only ValueError is raised', BoolVal(isinstance(r, ValueError)), repr(r))
            ctx.prove('only non-integers and values out of range are rejected', Not(And(isint, inrange)))
        else:
            ctx.cover('accepted')
            ctx.prove('only integers in range are accepted', And(isint, inrange))
            ctx.prove('the integer is returned', lift(r) == V.I(n))


for _b in RANGES:
    make_int(_b)
