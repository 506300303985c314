"""C07: formatting a value and reading it back returns the value."""
import base64
import binascii
import json
import re
import isodate
import jsonschema
import rfc3986

from pv.h import *
from pv import text as tx
from pv.text import Text, test
from pv.htext import HText, HBytes, htext, same_char, disj, tr, char_class
import csvw.datatypes as D
import csvw.metadata as M

HARNESSES, harness = registry()

ASSUMPTIONS = [
    're.compile(f).fullmatch(v) iff the whole of v matches f; match iff a prefix does; re.error for invalid expressions',
    'str.isalnum and "\\w": exact for ASCII, the same (uninterpreted) set of other characters',
    'binascii.unhexlify: error unless the text has an even number of hexadecimal digits; inverse of hexlify, whatever the case',
    'base64.decodebytes inverts encodebytes, ignoring white space; json.loads inverts json.dumps; float(text) inverts str of floats',
    'isodate.parse_duration inverts duration_isoformat; rfc3986: from_string(text).unsplit() is the text, which is percent-encoded where needed',
    'jsonschema.validate raises ValidationError unless the value satisfies the schema',
]


def dt_of(base, fmt=None):
    dt = M.Datatype.fromvalue(base)
    dt.format = fmt
    return dt


def value_error(ctx, k, r):
    ctx.prove('ValueError', BoolVal(k == 'exc' and isinstance(r, ValueError)), repr(r))


# ------------------------------------------------------------------ boolean
def no_bar(c):
    return c != 124


def prove_boolean(ctx, dt, true, false):
    """true, false: accepted texts, the first one being the one written"""
    for v, ts in ((True, true), (False, false)):
        k, t = run(M.Datatype.formatted, dt, v)
        ctx.prove('formatted as the first text', And(BoolVal(k == 'ok'), eq(t, ts[0]) if k == 'ok' else BoolVal(False)), repr(t))
        k, r = run(M.Datatype.read, dt, t)
        ctx.prove('the text is read as the value', BoolVal(k == 'ok' and r is v), repr(r))
    s = inp('text', htext('s'))
    k, r = run(M.Datatype.read, dt, s)
    is_true, is_false = Or(*[eq(s, t) for t in true]), Or(*[eq(s, t) for t in false])
    if k == 'exc':
        ctx.cover('rejected')
        value_error(ctx, k, r)
        ctx.prove('valid texts are read', Not(Or(is_true, is_false)))
    else:
        ctx.prove('the value', And(BoolVal(isinstance(r, bool)), Implies(BoolVal(r is True), is_true), Implies(BoolVal(r is False), is_false)), repr(r))


@harness('boolean with a format')
def boolean(ctx):
    """true|false, neither of which contains |"""
    a, b = htext('true', no_bar), htext('false', no_bar)
    ctx.assume(Not(eq(a, b)))
    which = ctx.choose(3)
    a, b = (a, b) if which == 0 else (a, '') if which == 1 else ('', b)
    ctx.assume(length(a) + length(b) > 0)
    f = inp('format', HText.concat_texts([a, '|', b]))
    warned = ctx.roots['warnings'] = VList()
    prove_boolean(ctx, dt_of('boolean', f), [a], [b])
    ctx.prove('no warnings', BoolVal(len(warned) == 0))
    ctx.expect_cover('rejected')


@harness('boolean without a format')
def boolean_default(ctx):
    prove_boolean(ctx, dt_of('boolean'), ['true', '1'], ['false', '0'])
    ctx.expect_cover('rejected')


@harness('boolean with an invalid format')
def boolean_invalid(ctx):
    """no or several |, or no text at all: a warning, and the default texts"""
    a, b, c = htext('a', no_bar), htext('b', no_bar), htext('c')
    n = ctx.choose(4)
    ctx.assume(length(a) > 0)
    f = inp('format', [a, HText.concat_texts([a, '|', b, '|', c]), {'pattern': 'x'}, ['true', 'false']][n])
    warned = ctx.roots['warnings'] = VList()
    prove_boolean(ctx, dt_of('boolean', f), ['true', '1'], ['false', '0'])
    ctx.prove('a warning', BoolVal(len(warned) > 0))
    ctx.expect_cover('rejected')


@harness('boolean: values and missing values are left alone')
def boolean_values(ctx):
    for v in (True, False, None):
        k, r = run(D.boolean.to_python, v)
        ctx.prove('unchanged', BoolVal(k == 'ok' and r is v))


# ------------------------------------------------------------------ strings and regular expressions
class Regex:
    __pv_model__ = True
    __pv_symbolic__ = True

    def __init__(self, f):
        self.f = lift(f)

    def full(self, v):
        return uf('matches', V, V, BOOL)(self.f, lift(v))

    def fullmatch(self, v):
        return Found() if test(self.full(v)) else None

    def match(self, v):
        p = uf('matches_prefix', V, V, BOOL)(self.f, lift(v))
        Ctx.cur.fact(Implies(self.full(v), p))
        return Found() if test(p) else None

    def search(self, v):
        p = uf('matches_part', V, V, BOOL)(self.f, lift(v))
        Ctx.cur.fact(Implies(uf('matches_prefix', V, V, BOOL)(self.f, lift(v)), p))
        return Found() if test(p) else None


class Found:
    __pv_model__ = True


def compiled(f, flags=0):
    """contract of re.compile"""
    if isinstance(f, str):
        return re.compile(f, flags)
    if f is not H.format:
        raise Unsupported('regular expression')
    if H.invalid is None:
        H.invalid = bool(Ctx.cur.choose(2))
    if H.invalid:
        raise re.error('invalid')
    return Regex(f)


class H:
    format = None
    invalid = None
    schema = None
    texts = []


def matched(name):
    def f(p, s, flags=0):
        p = compiled(p, flags)
        return getattr(p, name)(s) if isinstance(p, Regex) or isinstance(s, str) else s.regex(p, name, (), {})
    return f


RE = {}
for _n in ('match', 'fullmatch', 'search'):
    RE['builtin:' + _n] = RE[rt.qualname(getattr(re, _n))] = matched(_n)
RE['builtin:compile'] = RE[rt.qualname(re.compile)] = compiled


class Uri:
    """a parsed reference: determined by its text"""
    __pv_model__ = True
    __pv_symbolic__ = True

    def __init__(self, text):
        self.text = text

    def unsplit(self):
        return self.text

    def __eq__(self, o):
        return RT.eq(self.text, o.text) if isinstance(o, Uri) else RT.eq(self.text, o)

    __hash__ = None


def from_string(cls, s, encoding='utf-8'):
    if isinstance(s, HBytes):
        s = s.text
    if not isinstance(s, (str, Text)):
        raise Unsupported('from_string')
    return Uri(s)


def normal(x):
    t = htext('normal')
    H.texts.append((x, t))
    return t


URI = {rt.qualname(rfc3986.URIReference.from_string): from_string, rt.qualname(rfc3986.normalize_uri): normal,
       rt.qualname(rfc3986.uri_reference): lambda s, encoding='utf-8': from_string(None, s)}
STRINGS = ['string', 'anyURI', 'NMTOKEN', 'normalizedString', 'QName', 'gDay', 'gMonth', 'gMonthDay', 'gYear', 'gYearMonth', 'xml', 'html']


def name_char(c):
    return disj(char_class(c, 'word'), same_char(c, ord('.')), same_char(c, ord(':')), same_char(c, ord('-')))


def normalised(v):
    """spec of normalizedString: blanks for line ends and tabs, then stripped"""
    t = v.m_translate({10: ' ', 13: ' ', 9: ' '})
    return t


def _strings(base, with_format):
    con = dict(URI)
    con.update(RE)

    @harness('{}{}: format and reading'.format(base, ' with a format' if with_format else ''), contracts=con)
    def h(ctx):
        H.format, H.invalid, H.texts = fresh_str('format') if with_format else None, None, []
        if with_format:
            ctx.assume(H.format.t != lift(''))
            inp('format', H.format)
        warned = ctx.roots['warnings'] = VList()
        dt = dt_of(base, H.format)
        v = inp('text', htext('v'))
        k, r = run(M.Datatype.read, dt, v)
        text_ = r.text if isinstance(r, Uri) else r
        has_format = with_format and not H.invalid
        if with_format and H.invalid:
            ctx.prove('a warning for an invalid format', BoolVal(len(warned) > 0))
        rx = Regex(H.format) if has_format else None
        spec = v
        if base == 'normalizedString':
            sp = normalised(v)
            if test(sp.exists(lambda c: Not(char_class(c, 'space')))):
                pass
        if k == 'exc':
            value_error(ctx, k, r)
            bad = []
            if base == 'NMTOKEN':
                bad += [Not(tr(v.forall(name_char))), length(v) == 0]   # empty text is left open
            if has_format and base != 'normalizedString':
                bad.append(Not(rx.full(v)))
            if base == 'normalizedString':
                # the normalised text is existential: only the format can reject
                ctx.prove('only texts violating the format are rejected', BoolVal(bool(has_format)))
            else:
                ctx.prove('only invalid texts are rejected', Or(*bad) if bad else BoolVal(False))
            ctx.cover('rejected')
            return
        ctx.cover('read')
        if base == 'anyURI':
            ctx.prove('a reference', BoolVal(isinstance(r, Uri)), repr(r))
        if has_format:
            ctx.prove('texts violating the format are rejected', rx.full(text_))
        if base == 'NMTOKEN':
            ctx.prove('only name characters', tr(v.forall(name_char)))
        if base == 'normalizedString':
            blank = [9, 10, 13]
            if isinstance(text_, HText):
                ctx.prove('no tabs or line ends', tr(text_.forall(lambda c: And(*[c != b for b in blank]))))
                n = length(text_)
                ctx.prove('trimmed', Implies(n > 0, And(Not(char_class(text_.char(IntVal(0)), 'space')), Not(char_class(text_.char(n - 1), 'space')))))
            # texts without such characters are unchanged
            plain = And(tr(v.forall(lambda c: And(*[c != b for b in blank]))), Or(length(v) == 0, And(
                Not(char_class(v.char(IntVal(0)), 'space')), Not(char_class(v.char(length(v) - 1), 'space')))))
            if test(plain):
                i = IntVal(0)
                ctx.prove('normal texts are unchanged', same_chars(text_, v))
        else:
            ctx.prove('the text is the value', And(BoolVal(isinstance(text_, HText)), tr(text_.pointwise(v)) if isinstance(text_, HText) else BoolVal(False)))
        # formatting
        k, t = run(M.Datatype.formatted, dt, r)
        ctx.prove('formatted as its text', BoolVal(k == 'ok') if not isinstance(t, Text) and t != '' else eq(t, text_), repr(t))
        k, r2 = run(M.Datatype.read, dt, t)
        if base == 'normalizedString':
            # reading a normal text: shown above to leave it unchanged
            return
        ctx.prove('read again', And(BoolVal(k == 'ok'), bt(RT.eq(r2, r)) if k == 'ok' else BoolVal(False)), repr(r2))


def same_chars(a, b):
    """both texts have the same characters"""
    if isinstance(a, str) and isinstance(b, str):
        return BoolVal(a == b)
    if isinstance(a, str):
        a, b = b, a
    if isinstance(b, str):
        return And(length(a) == len(b), *[a.char(IntVal(i)) == ord(c) for i, c in enumerate(b)])
    k = z3.Int('qk.same')
    return And(length(a) == length(b), ForAll([k], Implies(And(k >= 0, k < length(a)), a.char(k) == b.char(k))))


for _b in STRINGS:
    for _f in (False, True):
        _strings(_b, _f)


@harness('anyURI: texts are formatted in normal form', contracts=URI)
def any_uri_text(ctx):
    H.texts = []
    v = inp('text', htext('v'))
    dt = dt_of('anyURI')
    k, t = run(M.Datatype.formatted, dt, v)
    ctx.prove('the normal form', And(BoolVal(k == 'ok' and len(H.texts) == 1), eq(H.texts[0][0], v) if H.texts else BoolVal(False),
                                     eq(t, H.texts[0][1]) if H.texts else BoolVal(False)), repr(t))
    k, r = run(M.Datatype.read, dt, t)
    ctx.prove('read as the reference in normal form', And(BoolVal(k == 'ok'), eq(r.text, t) if k == 'ok' else BoolVal(False)))


# ------------------------------------------------------------------ binary
class Bytes:
    """arbitrary bytes"""
    __pv_model__ = True
    __pv_symbolic__ = True

    def __init__(self):
        self.hex = self.b64 = None

    __class__ = property(lambda self: bytes)

    def __len__(self):
        raise TypeError('unknown')


class B64:
    """base64 text of bytes, with line ends"""
    __pv_model__ = True
    __pv_symbolic__ = True

    def __init__(self, v):
        self.v = v

    def decode(self, encoding='utf-8', errors='strict'):
        return B64(self.v)

    def strip(self, chars=None):
        if chars is not None and chars.strip():
            raise Unsupported('strip')
        return B64(self.v)

    rstrip = lstrip = strip

    def encode(self, encoding='utf-8', errors='strict'):
        return B64(self.v)


def hex_digit(c):
    return Or(And(c >= 48, c <= 57), And(c >= 65, c <= 70), And(c >= 97, c <= 102))


def is_hex(t):
    return And(tr(t.forall(hex_digit)), length(t) % 2 == 0)


def hexlify(v, *a):
    if not isinstance(v, Bytes):
        raise Unsupported('hexlify')
    v.hex = htext('hex', lambda c: And(hex_digit(c), Not(And(c >= 65, c <= 70))))
    Ctx.cur.assume(length(v.hex) % 2 == 0)
    H.texts.append(v)
    return HBytes(v.hex)


def unhexlify(b):
    t = b.text if isinstance(b, HBytes) else b
    if isinstance(t, str):
        return binascii.unhexlify(t)
    if not isinstance(t, HText):
        raise Unsupported('unhexlify')
    if not test(is_hex(t)):
        raise binascii.Error('Non-hexadecimal digit found')
    for v in H.texts:
        f = t.m_upper().pointwise(v.hex.m_upper())
        if f is not False and Ctx.cur.valid(f)[0] == 'valid':
            return v
    return Bytes()


def as_bytes(x=b'', encoding=None, errors='strict'):
    if isinstance(x, B64):
        return x
    if isinstance(x, Text) and encoding is not None:
        return RT.meth(x, 'encode', encoding, errors)
    if isinstance(x, str):
        return bytes(x, encoding, errors)
    raise Unsupported('bytes of {!r}'.format(x))


def decodebytes(x):
    if isinstance(x, B64):
        return x.v
    if Ctx.cur.choose(2):
        raise binascii.Error('Incorrect padding')
    return Bytes()


def encodebytes(v):
    return B64(v)


BIN = {rt.qualname(bytes): as_bytes, 'builtin:bytes': as_bytes, rt.qualname(binascii.hexlify): hexlify, rt.qualname(binascii.unhexlify): unhexlify,
       rt.qualname(base64.decodebytes): decodebytes, rt.qualname(base64.encodebytes): encodebytes,
       rt.qualname(base64.b64decode): lambda x, *a, **k: decodebytes(x), rt.qualname(base64.b64encode): lambda v, *a: encodebytes(v)}
for _n in ('b2a_hex', 'a2b_hex'):
    BIN[rt.qualname(getattr(binascii, _n))] = hexlify if _n[0] == 'b' else unhexlify


@harness('hexBinary: round trip', contracts=BIN)
def hex_trip(ctx):
    H.texts = []
    v = Bytes()
    dt = dt_of('hexBinary')
    k, t = run(M.Datatype.formatted, dt, v)
    ctx.prove('formatting does not fail', BoolVal(k == 'ok' and isinstance(t, HText)), repr(t))
    k, r = run(M.Datatype.parse, dt, t)
    ctx.prove('the same bytes', BoolVal(k == 'ok' and r is v), repr(r))


@harness('hexBinary: texts which are not hexadecimal', contracts=BIN)
def hex_read(ctx):
    H.texts = []
    t = inp('text', htext('t'))
    k, r = run(M.Datatype.parse, dt_of('hexBinary'), t)
    if k == 'exc':
        ctx.cover('rejected')
        value_error(ctx, k, r)
        ctx.prove('hexadecimal texts are read', Not(is_hex(t)))
    else:
        ctx.cover('read')
        ctx.prove('only hexadecimal texts are read', is_hex(t))
    ctx.expect_cover('rejected', 'read')


for _b in ('base64Binary', 'binary'):
    @harness('{}: round trip and errors'.format(_b), contracts=BIN)
    def b64(ctx, _b=_b):
        v = Bytes()
        dt = dt_of(_b)
        k, t = run(M.Datatype.formatted, dt, v)
        ctx.prove('formatting does not fail', BoolVal(k == 'ok'), repr(t))
        k, r = run(M.Datatype.parse, dt, t)
        ctx.prove('the same bytes', BoolVal(k == 'ok' and r is v), repr(r))
        t = inp('text', htext('t'))
        k, r = run(M.Datatype.parse, dt, t)
        if k == 'exc':
            ctx.cover('rejected')
            value_error(ctx, k, r)
        ctx.expect_cover('rejected')


# ------------------------------------------------------------------ JSON
class Json:
    __pv_model__ = True
    __pv_symbolic__ = True

    def __init__(self, v):
        self.v = v


def dumps(v, **kw):
    if {k for k, x in kw.items() if x} - {'ensure_ascii', 'sort_keys', 'indent', 'separators'}:
        raise Unsupported('json.dumps')
    return Json(v)


def loads(t, **kw):
    if not is_sym_(t):
        return json.loads(t, **kw)
    if isinstance(t, Json):
        return t.v
    if Ctx.cur.choose(2):
        raise json.JSONDecodeError('invalid', 'x', 0)
    H.value = fresh_val('json')
    return H.value


def is_sym_(x):
    return rt.is_sym(x) or isinstance(x, Json)


def validate(instance, schema, *a, **kw):
    if not rt.is_sym(instance):
        return jsonschema.validate(instance, schema, *a, **kw)
    if schema is True:
        return
    ok = uf('satisfies', V, V, BOOL)(lift(instance), lift(json.dumps(schema)))
    if schema is False:
        ok = BoolVal(False)
    if not test(ok):
        raise jsonschema.ValidationError('invalid')


JSON = {rt.qualname(json.loads): loads, rt.qualname(json.dumps): dumps, rt.qualname(jsonschema.validate): validate}
SCHEMAS = [None, '{"type": "object"}', '{"type": "object", "required": ["a"]}', 'false', 'true', '{}', '[1', '{"type": "obj"}', '"x"']
IGNORED = (None, 'true', '[1', '{"type": "obj"}', '"x"')


def _json(f):
    @harness('json: format {}'.format(f), contracts=JSON)
    def h(ctx):
        ctx.roots['warnings'] = VList()
        H.value = None
        dt = dt_of('json', f)
        t = inp('text', fresh_str('text'))
        k, r = run(M.Datatype.parse, dt, t)
        ok = BoolVal(True) if f in IGNORED else BoolVal(False) if f == 'false' else uf('satisfies', V, V, BOOL)(
            lift(H.value), lift(json.dumps(json.loads(f)))) if H.value is not None else None
        if k == 'exc':
            ctx.cover('rejected')
            value_error(ctx, k, r)
            if H.value is not None:
                ctx.prove('valid values are read', Not(ok))
        else:
            if f != 'false':
                ctx.cover('read')
            ctx.prove('only values satisfying the schema are read', ok)
            ctx.prove('the value of the text', eq(r, H.value))
        v = H.value = fresh_val('value')
        ok = BoolVal(True) if f in IGNORED else BoolVal(False) if f == 'false' else uf('satisfies', V, V, BOOL)(lift(v), lift(json.dumps(json.loads(f))))
        ctx.assume(ok)
        k, t = run(M.Datatype.formatted, dt, v)
        ctx.prove('formatting does not fail', BoolVal(k == 'ok'), repr(t))
        k, r = run(M.Datatype.parse, dt, t)
        ctx.prove('round trip', And(BoolVal(k == 'ok'), eq(r, v) if k == 'ok' else BoolVal(False)), repr(r))
        ctx.expect_cover('rejected', *([] if f == 'false' else ['read']))


for _f in SCHEMAS:
    _json(_f)


# ------------------------------------------------------------------ durations and floats
class Dur:
    __pv_model__ = True
    __pv_symbolic__ = True


class DurText:
    __pv_model__ = True
    __pv_symbolic__ = True

    def __init__(self, v):
        self.v = v


def parse_duration(t, *a, **kw):
    if isinstance(t, DurText):
        return t.v
    if Ctx.cur.choose(2):
        raise isodate.ISO8601Error('invalid')
    return Dur()


def iso(v, *a, **kw):
    return DurText(v)


DUR = {rt.qualname(isodate.parse_duration): parse_duration, rt.qualname(isodate.duration_isoformat): iso}
DUR.update(RE)

for _b in ('duration', 'dayTimeDuration', 'yearMonthDuration'):
    @harness('{}: round trip, errors and format'.format(_b), contracts=DUR)
    def durations(ctx, _b=_b):
        dt = dt_of(_b)
        v = Dur()
        k, t = run(M.Datatype.formatted, dt, v)
        ctx.prove('formatting does not fail', BoolVal(k == 'ok'), repr(t))
        k, r = run(M.Datatype.parse, dt, t)
        ctx.prove('the same duration', BoolVal(k == 'ok' and r is v), repr(r))
        H.format, H.invalid = inp('format', fresh_str('format')), False
        ctx.assume(H.format.t != lift(''))
        dt.format = H.format
        t = inp('text', fresh_str('text'))
        k, r = run(M.Datatype.parse, dt, t)
        full = Regex(H.format).full(t)
        if k == 'exc':
            ctx.cover('rejected')
            value_error(ctx, k, r)
        else:
            ctx.cover('read')
            ctx.prove('texts violating the format are rejected', full)
        ctx.expect_cover('rejected', 'read')


class Float:
    __pv_model__ = True
    __pv_symbolic__ = True
    __class__ = property(lambda self: float)


class FloatText:
    __pv_model__ = True
    __pv_symbolic__ = True
    __class__ = property(lambda self: str)

    def __init__(self, v):
        self.v = v


def to_float(x=0.0):
    if isinstance(x, FloatText):
        return x.v
    if Ctx.cur.choose(2):
        raise ValueError('could not convert string to float')
    return Float()


def fmt(x, spec):
    if isinstance(x, Float):
        if spec:
            raise Unsupported('format of floats')
        return FloatText(x)
    return NotImplemented


for _b in ('float', 'number', 'double'):
    @harness('{}: round trip and errors'.format(_b), contracts={
        'builtin:float': to_float, rt.qualname(float): to_float, 'format': fmt, 'repr': lambda x: FloatText(x) if isinstance(x, Float) else NotImplemented})
    def floats(ctx, _b=_b):
        dt = dt_of(_b)
        v = Float()
        k, t = run(M.Datatype.formatted, dt, v)
        ctx.prove('formatting does not fail', BoolVal(k == 'ok'), repr(t))
        k, r = run(M.Datatype.parse, dt, t)
        ctx.prove('the same number', BoolVal(k == 'ok' and r is v), repr(r))
        t = inp('text', fresh_str('text'))
        k, r = run(M.Datatype.parse, dt, t)
        if k == 'exc':
            ctx.cover('rejected')
            value_error(ctx, k, r)
        ctx.expect_cover('rejected')
