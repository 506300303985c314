"""C06: contradictory datatype descriptions are rejected."""
from pv.h import *
import csvw.datatypes as D
import csvw.metadata as M

HARNESSES, harness = registry()

ASSUMPTIONS = [
    'parsed bounds of one datatype are totally ordered by < (no NaN, no mixing of naive and aware datetimes)',
    'the generated attrs constructor stores its (converted) arguments before calling __attrs_post_init__',
]

BOUNDS = ['minimum', 'maximum', 'minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive']
LENGTHS = ['length', 'minLength', 'maxLength']
INTS = ['integer', 'int', 'unsignedInt', 'unsignedShort', 'unsignedLong', 'unsignedByte', 'short', 'long', 'byte',
        'nonNegativeInteger', 'positiveInteger', 'nonPositiveInteger', 'negativeInteger']
ORDERED = INTS + ['decimal', 'float', 'number', 'double', 'datetime', 'dateTime', 'date', 'dateTimeStamp', 'time',
                  'duration', 'dayTimeDuration', 'yearMonthDuration']
NO_LENGTH = ORDERED + ['boolean', 'any']


def parsed(v):
    return uf('parsed_bound', V, V)(lift(v))


def parse_contract(self, v):
    """Datatype.parse(text): the bound's value, or ValueError; None stays None"""
    if v is None:
        return None
    t = parsed(v)
    Ctx.cur.assume(Not(V.is_none(t)))
    return SVal(t)


def contradictory(lens, bounds):
    """over optional V terms: the property's statement"""
    has = {k: Not(V.is_none(t)) for k, t in {**lens, **bounds}.items()}
    fs = []

    def rel(a, b, f):
        if a in has and b in has:
            fs.append(And(has[a], has[b], f((lens if a in lens else bounds)[a], (lens if b in lens else bounds)[b])))
    i = V.i
    rel('length', 'minLength', lambda a, b: i(a) < i(b))
    rel('length', 'maxLength', lambda a, b: i(a) > i(b))
    rel('minLength', 'maxLength', lambda a, b: i(a) > i(b))
    for inc, exc in (('minimum', 'minExclusive'), ('minInclusive', 'minExclusive'),
                     ('maximum', 'maxExclusive'), ('maxInclusive', 'maxExclusive')):
        rel(inc, exc, lambda a, b: BoolVal(True))
    for lo in ('minimum', 'minInclusive', 'minExclusive'):
        for hi in ('maximum', 'maxInclusive', 'maxExclusive'):
            if lo == 'minExclusive' or hi == 'maxExclusive':
                rel(lo, hi, lambda a, b: Not(lt(a, b)))
            else:
                rel(lo, hi, lambda a, b: lt(b, a))
    return Or(*fs) if fs else BoolVal(False)


def check(ctx, base, lens, bounds):
    dt = M.Datatype(base=base)
    ln, bd = {}, {}
    for n in lens:
        v = inp(n, fresh_val(n))
        ctx.assume(Or(V.is_none(v.t), V.is_I(v.t)))
        setattr(dt, n, v)
        ln[n] = v.t
    for n in bounds:
        text = inp(n, optional(n, fresh_str))
        setattr(dt, n, text)
        if text is not None:
            p = SVal(parsed(text))
            if base in INTS:
                ctx.assume(V.is_I(p.t))
            bd[n] = p.t
    k, r = meth(dt, '__attrs_post_init__')
    bad = contradictory(ln, bd)
    if base not in ORDERED and bd:
        bad = BoolVal(True)
    if base in NO_LENGTH and ln:
        bad = Or(bad, *[Not(V.is_none(t)) for t in ln.values()])
    if k == 'exc':
        ctx.cover('rejected')
        ctx.prove('only ValueError is raised', BoolVal(isinstance(r, ValueError)), repr(r))
        ctx.prove('only contradictory descriptions are rejected', bad)
    else:
        ctx.cover('accepted')
        ctx.prove('contradictory descriptions are rejected', Not(bad))
        ctx.prove('bounds are replaced by their parsed values', And(BoolVal(True), *[
            lift(getattr(dt, n)) == bd[n] for n in bd]))


C = {'csvw.metadata.Datatype.parse': parse_contract}


def _mk(name, base, lens, bounds, covers=('accepted', 'rejected')):
    @harness('Datatype.__attrs_post_init__[{}]'.format(name), contracts=C)
    def h(ctx):
        ctx.expect_cover(*covers)
        check(ctx, base, lens, bounds)


for _b in ('integer', 'decimal', 'float', 'date', 'datetime'):
    _mk(_b + ': all bounds', _b, [], BOUNDS)
for _b in ORDERED:
    _mk(_b + ': inclusive', _b, [], ['minInclusive', 'maxInclusive'])
    _mk(_b + ': lengths', _b, LENGTHS, [])
for _b in D.DATATYPES:
    if _b not in ORDERED:
        _mk(_b + ': lengths', _b, LENGTHS, [])
        _mk(_b + ': one bound of each kind', _b, [], BOUNDS[:2] + BOUNDS[4:])


@harness('@id of a datatype')
def builtin_id(ctx):
    dt = M.Datatype(base='string')
    url = inp('@id', fresh_str('id'))
    dt.at_props = VDict()
    RT.dset(dt.at_props, 'id', url)
    k, r = meth(dt, '__attrs_post_init__')
    bad = Or(*[url.t == lit('http://www.w3.org/2001/XMLSchema#' + n) for n in D.DATATYPES])
    ctx.expect_cover('accepted', 'rejected')
    if k == 'exc':
        ctx.cover('rejected')
        ctx.prove('only ValueError is raised', BoolVal(isinstance(r, ValueError)))
        ctx.prove('only URLs of built-in datatypes are refused', bad)
    else:
        ctx.cover('accepted')
        ctx.prove('URLs of built-in datatypes are refused', Not(bad))
