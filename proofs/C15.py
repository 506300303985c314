"""C15: metadata survives serialisation and re-reading."""
import datetime
import decimal

import attr

from pv.h import *
import csvw.utils as U
import csvw.metadata as M
import csvw.datatypes as D

HARNESSES, harness = registry()

ASSUMPTIONS = [
    'the generated attrs constructor passes every argument through its converter (executed as is); equality of '
    'descriptions is equality of their fields but for _parent (attrs)',
    'uritemplate.URITemplate: the text of a template is what it was made from (library)',
    'language_tags.tags.check decides whether a value is a language tag (library); str.encode raises LookupError '
    'exactly for unknown codecs (library)',
    'json.dump/json.load preserve null, booleans, numbers, texts, arrays and objects (library)',
    'Datatype.read/formatted are inverse for the bounds of a datatype (C05 to C08 and bounded check)',
]

known_codec = uf('known_codec', V, BOOL)
lang_tag = uf('lang_tag', V, BOOL)


def encode_contract(s, enc='utf-8', errors='strict'):
    Ctx.cur.assume(And(known_codec(lit('utf-8-sig')), known_codec(lit('utf-8'))))
    if not bool(sbool(known_codec(lift(enc)))):
        raise LookupError('contract: unknown encoding')
    return fresh_obj(bytes, 'b')


def check_contract(v):
    Ctx.cur.assume(lang_tag(lit('und')))
    return sbool(lang_tag(lift(v)))


class Template(M.URITemplate):
    __pv_symbolic__ = True

    def __repr__(self):
        return 'Template({!r})'.format(self.uri)


def ut_new(uri):
    r = Template.__new__(Template)
    r.uri = uri
    return r


def format_contract(x, spec):
    if isinstance(x, M.URITemplate):
        return x.uri
    return NotImplemented


C = {'format': format_contract, 'builtins.str.encode': encode_contract, 'language_tags.tags.tags.check': check_contract,
     'csvw.metadata.URITemplate': ut_new}


# ------------------------------------------------------------------ values of properties
def text():
    return fresh_str('v')


def natural():
    v = fresh_int('v')
    Ctx.cur.assume(it(v) >= 0)
    return v


def texts():
    """an array of any number of texts"""
    if getattr(Ctx.cur, 'short', False):
        return [text() for _ in range(Ctx.cur.choose(3))]
    x = uf(Ctx.cur.fresh('item'), INT, V)

    def item(i):
        return SVal(V.S(V.s(x(i))))
    return VList(base=fresh_seq('v', item))


def values_(*vs):
    return [lambda v=v: v for v in vs]


def among(*words):
    def make():
        v = fresh_str('v')
        Ctx.cur.assume(Or(*[v.t == lit(w) for w in words]))
        return v
    return make


def lang():
    v = fresh_str('v')
    Ctx.cur.assume(lang_tag(v.t))
    return v


def codec():
    v = fresh_str('v')
    Ctx.cur.assume(known_codec(v.t))
    return v


def by_language():
    d = VDict()
    for tag, v in (('en', text()), ('de', [text() for _ in range(Ctx.cur.choose(3))]), ('und', text()))[:1 + Ctx.cur.choose(3)]:
        d[tag] = v
    Ctx.cur.assume(And(lang_tag(lit('en')), lang_tag(lit('de')), lang_tag(lit('und'))))
    return d


BOOLS = values_(True, False)
OPT = values_(None)
URI = [text]
INHERITED = {
    'aboutUrl': [text], 'default': [text], 'lang': [lang], 'null': [text, texts], 'ordered': BOOLS + OPT, 'propertyUrl': [text],
    'required': BOOLS, 'separator': OPT + [text], 'textDirection': OPT + [among('ltr', 'rtl', 'auto', 'inherit')], 'valueUrl': [text],
}
ANY = [lambda: mkval(), texts, VList, VDict]
BASE = {'dc:title': ANY, '@id': [text]}
PROPS = {
    M.Column: dict(INHERITED, **BASE, name=OPT + [text], suppressOutput=BOOLS, titles=[text, texts, by_language], virtual=BOOLS),
    M.Table: dict(INHERITED, **BASE, notes=[texts, VList], tableDirection=[among('ltr', 'rtl', 'auto')], suppressOutput=BOOLS, url=[text]),
    M.TableGroup: dict(INHERITED, **BASE, notes=[texts, VList], tableDirection=[among('ltr', 'rtl', 'auto')]),
    M.Schema: dict(INHERITED, **BASE, primaryKey=[text, texts], rowTitles=[text, texts]),
    M.Dialect: dict(encoding=[codec], lineTerminators=[text, texts], quoteChar=OPT + [text], doubleQuote=BOOLS, skipRows=[natural], commentPrefix=OPT + [text], header=BOOLS,
                    headerRowCount=[natural], delimiter=[text], skipColumns=[natural], skipBlankRows=BOOLS, skipInitialSpace=BOOLS,
                    trim=BOOLS + [among('true', 'false', 'start', 'end')]),
}
DEFAULTS = {
    'default': '', 'lang': 'und', 'null': [''], 'suppressOutput': False, 'virtual': False, 'tableDirection': 'auto', 'notes': [], 'rowTitles': [],
    'encoding': 'utf-8', 'lineTerminators': ['\r\n', '\n'], 'quoteChar': '"', 'doubleQuote': True, 'skipRows': 0, 'header': True, 'headerRowCount': 1,
    'delimiter': ',', 'skipColumns': 0, 'skipBlankRows': False, 'skipInitialSpace': False, 'trim': 'false'}
# a value other than the default for everything
FULL = {
    M.Column: {'@id': 'http://example.org', 'dc:title': 'x', 'aboutUrl': 'a', 'default': 'x', 'lang': 'en', 'null': ['NA'], 'ordered': True, 'propertyUrl': 'p', 'required': True,
               'separator': ';', 'textDirection': 'ltr', 'valueUrl': 'v', 'name': 'n', 'suppressOutput': True, 'titles': 't', 'virtual': True},
    M.Table: {'@id': 'http://example.org', 'dc:title': 'x', 'aboutUrl': 'a', 'default': 'x', 'lang': 'en', 'null': [], 'ordered': True, 'propertyUrl': 'p', 'required': False,
              'separator': ';', 'textDirection': 'ltr', 'valueUrl': 'v', 'notes': ['n'], 'tableDirection': 'rtl', 'suppressOutput': True, 'url': 'u.csv', 'dialect': {'delimiter': ';'},
              'tableSchema': {'columns': [{'name': 'c'}], 'primaryKey': ['c']}, 'transformations': [{'dc:title': 'x'}]},
    M.TableGroup: {'@id': 'http://example.org', 'dc:title': 'x', 'aboutUrl': 'a', 'default': 'x', 'lang': 'en', 'null': [], 'ordered': True, 'propertyUrl': 'p', 'required': False,
                   'separator': ';', 'textDirection': 'ltr', 'valueUrl': 'v', 'notes': ['n'], 'tableDirection': 'rtl', 'dialect': {}, 'tables': [{'url': 'x.csv'}, {'url': 'y.csv'}],
                   'tableSchema': {'columns': [{'name': 'c'}]}},
    M.Schema: {'@id': 'http://example.org', 'dc:title': 'x', 'aboutUrl': 'a', 'default': 'x', 'lang': 'en', 'null': [], 'ordered': True, 'propertyUrl': 'p', 'required': False,
               'separator': ';', 'textDirection': 'ltr', 'valueUrl': 'v', 'columns': [{'name': 'c'}, {'titles': ['a', 'b']}], 'primaryKey': ['c'], 'rowTitles': ['c'],
               'foreignKeys': [{'columnReference': 'c', 'reference': {'resource': 'o.csv', 'columnReference': ['x']}}]},
    M.Dialect: {'encoding': 'latin1', 'lineTerminators': '\n', 'quoteChar': None, 'doubleQuote': False, 'skipRows': 1, 'commentPrefix': '#', 'headerRowCount': 2, 'delimiter': ';',
                'skipColumns': 1, 'skipBlankRows': True, 'skipInitialSpace': True, 'trim': 'true'},
}


def mkval():
    """null, boolean, number or text"""
    return [lambda: None, lambda: True, lambda: False, lambda: fresh_int('v'), lambda: fresh_obj(float, 'v'), text][Ctx.cur.choose(6)]()


def vd(x):
    if isinstance(x, dict):
        d = VDict()
        for k, v in x.items():
            d[k] = vd(v)
        return d
    return [vd(v) for v in x] if isinstance(x, list) else x


def read(cls, d):
    if cls is M.Dialect:
        return run(lambda: RT.xcall(M.Dialect, [], [(None, call(M.dialect_props, d))])) if False else run(dialect_of, d)
    return run(cls.fromvalue, d)


def dialect_of(d):
    return M.Dialect(**dict(call(M.dialect_props, d)))


def fields(o):
    return [f.name for f in attr.fields(type(o)) if f.eq]


def same(a, b):
    """equality of descriptions, by their fields"""
    if attr.has(type(a)) and attr.has(type(b)):
        if type(a) is not type(b):
            return BoolVal(False)
        return And(*[same(getattr(a, f), getattr(b, f)) for f in fields(a)])
    if isinstance(a, M.URITemplate) and isinstance(b, M.URITemplate):
        return eq(a.uri, b.uri)
    if isinstance(a, M.Link) and isinstance(b, M.Link):
        return eq(a.string, b.string)
    if isinstance(a, list) and isinstance(b, list) and not isinstance(a, Proxy) and not isinstance(b, Proxy) and any(attr.has(type(x)) for x in a):
        return And(BoolVal(len(a) == len(b)), *[same(x, y) for x, y in zip(a, b)])
    return eq(a, b)


def sames(ctx, label, a, b):
    if not (attr.has(type(a)) and type(a) is type(b)):
        ctx.prove(label, BoolVal(False), repr((a, b)))
        return
    for f in fields(a):
        ctx.prove('{}: {}'.format(label, f), same(getattr(a, f), getattr(b, f)), repr((getattr(a, f), getattr(b, f))))


def _mk(cls, prop, full):
    @harness('{}.{}{}'.format(cls.__name__, prop, ', all others given' if full else ''), contracts=C, kind='shape',
             bound='one property of any value, the others {}'.format('given' if full else 'not given'))
    def h(ctx):
        ctx.roots['warnings'] = VList()
        ctx.hasattr_model = lambda o, name: False if name == 'asdict' else rt._hasattr(o, name)     # JSON values
        ctx.short = full and prop == 'primaryKey'       # names of the columns given
        makers = PROPS[cls][prop]
        v = inp('value', makers[ctx.choose(len(makers))]())
        omit = bool(ctx.choose(2))
        doc = VDict()
        if cls is M.Table:
            doc['url'] = 'x'
        for k, x in (FULL[cls] if full else {}).items():
            doc[k] = vd(x)
        doc[prop] = v
        k, o = read(cls, doc)
        if k == 'exc':
            if isinstance(o, ValueError):
                raise PathEnd()     # no valid description
            ctx.prove('reading does not fail', BoolVal(False), repr(o))
            return
        if len(list(ctx.roots['warnings'])):
            raise PathEnd()         # dito
        ctx.cover('read')
        trip(ctx, cls, o, omit, prop, v)


def trip(ctx, cls, o, omit, prop=None, v=None):
    k, d = meth(o, 'asdict', omit_defaults=omit)
    ctx.prove('serialising does not fail', BoolVal(k == 'ok'), repr(d))
    if k != 'ok':
        return
    keys = list(d.keys())
    if prop is not None:
        if prop in keys:
            if omit and prop in DEFAULTS:
                ctx.prove('a value equal to the default is omitted', Not(eq(norm(prop, d[prop]), DEFAULTS[prop])), repr(d[prop]))
            if cls is not M.Dialect or prop != 'header':
                ctx.prove('the value given is written', eq(norm(prop, d[prop]), norm(prop, v)), repr((d[prop], v)))
        else:
            default = DEFAULTS.get(prop)
            if not (cls is M.Dialect and prop == 'header'):
                ctx.prove('only a default is omitted', eq(norm(prop, v), default), repr((v, keys)))
    k, o2 = read(cls, d)
    ctx.prove('the document can be read', BoolVal(k == 'ok'), repr(o2))
    if k != 'ok':
        return
    ctx.prove('without warnings', BoolVal(not len(list(ctx.roots['warnings']))), repr(ctx.roots['warnings']))
    sames(ctx, 'the same description', o, o2)
    k, d2 = meth(o2, 'asdict', omit_defaults=omit)
    ctx.prove('serialising again does not fail', BoolVal(k == 'ok'), repr(d2))
    if k == 'ok':
        ctx.prove('the same document', eq(d, d2), repr((d, d2)))


def norm(prop, v):
    if prop in ('null', 'primaryKey', 'rowTitles'):
        return VList([v]) if isinstance(v, SVal) else v
    if prop == 'titles':
        if isinstance(v, dict):
            return vd({k: list(x) if isinstance(x, list) else [x] for k, x in v.items()})
        return VDict(und=VList([v]) if isinstance(v, SVal) else v)
    if prop == 'trim' and isinstance(v, bool):
        return str(v).lower()
    return v


for _c in PROPS:
    for _p in PROPS[_c]:
        for _full in (False, True):
            _mk(_c, _p, _full)


# ------------------------------------------------------------------ lists of any number of descriptions
class Child:
    __pv_symbolic__ = True

    def __init__(self, i):
        self.i = i

    def asdict(self, omit_defaults=True):
        return SVal(uf('child_doc', INT, BOOL, V)(self.i, bt(omit_defaults)))


def _children(cls, prop):
    @harness('{}.{}: any number'.format(cls.__name__, prop), contracts=C)
    def h(ctx):
        """every item is serialised, in order; reading lists item by item is proved for C24"""
        ctx.roots['warnings'] = VList()
        ctx.hasattr_model = lambda o, name: False if name == 'asdict' else rt._hasattr(o, name)
        omit = bool(ctx.choose(2))
        n = fresh_seq('children', lambda i: Child(i))
        k, o = read(cls, VDict(url='x') if cls is M.Table else VDict())
        setattr(o, prop, VList(base=n))
        k, d = meth(o, 'asdict', omit_defaults=omit)
        ctx.prove('serialising does not fail', BoolVal(k == 'ok'), repr(d))
        if k != 'ok':
            return
        if prop in list(d.keys()):
            ctx.cover('written')
            want = fresh_seq('want', lambda i: Child(i).asdict(omit))
            ctx.assume(want.n == n.n)
            ctx.prove('all items are written, in order', eq(d[prop], want), repr(d[prop]))
        else:
            ctx.prove('only an empty list is omitted', n.n == 0)
        ctx.expect_cover('written')


_children(M.Schema, 'columns')
_children(M.Schema, 'foreignKeys')
_children(M.TableGroup, 'tables')


# ------------------------------------------------------------------ nested descriptions
@harness('Column.datatype', contracts=dict(C, **{'csvw.metadata.Datatype.fromvalue': lambda cls, v: Nested(v)}))
def column_datatype(ctx):
    """any datatype whose own serialisation can be read (proved below)"""
    ctx.roots['warnings'] = VList()
    omit = bool(ctx.choose(2))
    doc = VDict(datatype=VDict(base=text()), name=text())
    k, o = read(M.Column, doc)
    ctx.prove('reading does not fail', BoolVal(k == 'ok'), repr(o))
    if k == 'ok':
        ctx.prove('the datatype is kept', eq(o.datatype.doc, doc['datatype']))
        trip(ctx, M.Column, o, omit)


class Nested:
    def __init__(self, doc):
        self.doc = doc

    def __eq__(self, o):
        return RT.eq(self.doc, o.doc) if isinstance(o, Nested) else False

    def asdict(self, omit_defaults=True):
        return self.doc


def _dialect(cls, full):
    @harness('{}: dialect with header and headerRowCount{}'.format('Dialect' if cls is M.Dialect else cls.__name__ + '.dialect', ', others given' if full else ''), contracts=C, kind='shape',
             bound='header and the number of header rows of any value')
    def h(ctx):
        ctx.roots['warnings'] = VList()
        omit = bool(ctx.choose(2))
        d = VDict()
        if full:
            d['delimiter'], d['quoteChar'] = ';', None
        if ctx.choose(2):
            d['header'] = bool(ctx.choose(2))
        if ctx.choose(2):
            d['headerRowCount'] = natural()
        doc = d if cls is M.Dialect else VDict(dialect=d)
        if cls is M.Table:
            doc['url'] = 'x'
        k, o = read(cls, doc)
        ctx.prove('reading does not fail', BoolVal(k == 'ok'), repr(o))
        if k == 'ok':
            trip(ctx, cls, o, omit)
            if cls is not M.Dialect:
                k, doc2 = meth(o, 'asdict', omit_defaults=omit)
                ctx.prove('a dialect stays a dialect', BoolVal('dialect' in list(doc2.keys())))


for _c in (M.Dialect, M.Table, M.TableGroup):
    for _full in (False, True):
        _dialect(_c, _full)


@harness('Schema.foreignKeys: one', contracts=C, kind='shape', bound='one foreign key, of any columns and target')
def foreign_key(ctx):
    ctx.roots['warnings'] = VList()
    omit = bool(ctx.choose(2))
    ref = VDict(columnReference=[text, texts][ctx.choose(2)]())
    ref[('resource', 'schemaReference')[ctx.choose(2)]] = text()
    doc = VDict(foreignKeys=[VDict(columnReference=[text, texts][ctx.choose(2)](), reference=ref)])
    k, o = read(M.Schema, doc)
    ctx.prove('reading does not fail', BoolVal(k == 'ok'), repr(o))
    if k == 'ok':
        fk = o.foreignKeys[0]
        ctx.prove('columns', eq(fk.columnReference, norm('primaryKey', doc['foreignKeys'][0]['columnReference'])))
        trip(ctx, M.Schema, o, omit)


# ------------------------------------------------------------------ datatypes
parsed = uf('parsed_bound', V, V)
fmt = uf('formatted_bound', V, V)
readable = uf('bound_is_readable', V, BOOL)


KIND = {'decimal': decimal.Decimal, 'integer': int, 'float': float, 'date': datetime.date, 'dateTime': datetime.datetime, 'duration': datetime.timedelta}


def bound_value(t):
    """the value a bound is read as: numbers as they are, texts by the datatype"""
    ctx = Ctx.cur
    if z3.is_int_value(t):
        return t
    cls = KIND[ctx.base]
    t = parsed(t)
    ctx.fact(readable(V.I(V.i(t)) if cls is int else V.O(values.tag(cls), V.oid(t))))
    return V.I(V.i(t)) if cls is int else V.O(values.tag(cls), V.oid(t))


def parse_contract(self, v):
    """numbers are read as they are; the text of a value is read as that value, or not at all (number given, but
    not in the format)"""
    if v is None:
        return v
    t = lift(v)
    ctx = Ctx.cur
    if con_name(t) != 'S':
        return v
    for text_, x in ctx.formatted:
        if z3.eq(t, text_):
            if not ctx.branch(readable(x)):
                raise ValueError('contract: not readable')
            return SVal(x)
    return SVal(bound_value(t))


def formatted_contract(self, v):
    t = V.S(V.s(fmt(lift(v))))
    Ctx.cur.formatted.append((t, lift(v)))
    return SVal(t)


NUMERIC = ['decimal', 'integer', 'unsignedByte', 'float', 'double', 'number']
BOUNDS = ['minimum', 'maximum', 'minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive']
FORMATS = {'decimal': ['#,##0.0', {'groupChar': ','}], 'string': ['[a-z]+', 'a|b'], 'boolean': ['Y|N'], 'date': ['yyyy-MM-dd'], 'dateTime': ['yyyy-MM-ddTHH:mm:ss'], 'float': ['0.0'], 'integer': ['#,##0'],
           'json': ['{"type": "object"}']}


def _datatype(base, fields_, fmts):
    @harness('Datatype[{} {}]'.format(base, ' '.join(fields_) or 'format'), contracts=dict(C, **{
        'csvw.metadata.Datatype.parse': parse_contract, 'csvw.metadata.Datatype.formatted': formatted_contract, 'builtin:float': lambda x=0.0: x} if set(fields_) & set(BOUNDS) else {}),
        kind='shape', bound='the properties named, of any value; given formats')
    def h(ctx):
        ctx.roots['warnings'] = VList()
        ctx.formatted, ctx.base = [], base
        ctx.hasattr_model = lambda o, name: False if name == 'asdict' else rt._hasattr(o, name)
        omit = bool(ctx.choose(2))
        doc = VDict()
        if base:
            doc['base'] = base
        f, numbers = ctx.choose(len(fmts) + 1), False
        if f:
            doc['format'] = vd(fmts[f - 1])
        for p in fields_:
            number = p in BOUNDS and KIND[base] in (int, float) and bool(ctx.choose(2))
            numbers = numbers or number
            doc[p] = inp(p, natural() if p not in BOUNDS else text() if not number else fresh_int('v') if KIND[base] is int else fresh_obj(float, 'v'))
            if number and not f:
                ctx.assume(readable(lift(doc[p])))      # without a format, the text of every number is read as that number
        if ctx.choose(2):
            doc['@id'] = 'http://example.org/dt'
        k, o = run(M.Datatype.fromvalue, doc)
        if k == 'exc' and isinstance(o, ValueError) and not from_contract((k, o)):
            raise PathEnd()     # no valid datatype
        ctx.prove('reading does not fail', BoolVal(k == 'ok'), repr(o))
        if k == 'ok':
            ctx.cover('read')
            if numbers:
                ctx.cover('number given')
            for p in fields_:
                want = SVal(bound_value(doc[p].t)) if p in BOUNDS and con_name(lift(doc[p])) == 'S' else doc[p]
                ctx.prove('the value of ' + p, eq(getattr(o, p), want), repr(getattr(o, p)))
            dt_trip(ctx, o, omit)
        ctx.expect_cover('read', *(['number given'] if set(fields_) & set(BOUNDS) and KIND[base] in (int, float) else []))


def dt_trip(ctx, o, omit):
    k, d = meth(o, 'asdict', omit_defaults=omit)
    ctx.prove('serialising does not fail', BoolVal(k == 'ok'), repr(d))
    if k != 'ok':
        return
    text_only = isinstance(d, str)
    k, o2 = run(M.Datatype.fromvalue, d if text_only else VDict(d))
    ctx.prove('the document can be read', BoolVal(k == 'ok'), repr(o2))
    if k == 'ok':
        sames(ctx, 'the same datatype', o, o2)
        k, d2 = meth(o2, 'asdict', omit_defaults=omit)
        ctx.prove('the same document', eq(d, d2) if not text_only else BoolVal(d == d2), repr((d, d2)))


for _b in sorted(D.DATATYPES) + [None]:
    _datatype(_b, [], FORMATS.get(_b or 'string', []))
for _b in ('string', 'anyURI', 'hexBinary', None):
    for _fs in (['length'], ['minLength'], ['maxLength'], ['minLength', 'maxLength'], ['length', 'minLength', 'maxLength']):
        _datatype(_b, _fs, FORMATS.get(_b or 'string', []))
for _b in ('decimal', 'integer', 'float', 'date', 'dateTime', 'duration'):
    for _fs in [[x] for x in BOUNDS] + [['minimum', 'maximum'], ['minInclusive', 'maxExclusive'], ['minExclusive', 'maxInclusive'], ['minimum', 'minInclusive']]:
        _datatype(_b, _fs, FORMATS.get(_b, []))


# ------------------------------------------------------------------ files
class File:
    __pv_symbolic__ = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def dump_contract(data, f, **kw):
    Ctx.cur.dumped.append((data, f))


def _file(cls):
    def asdict(self, omit_defaults=True):
        return VDict(self=id(self), omit=omit_defaults)

    def opened(name, mode='r', encoding=None, **kw):
        Ctx.cur.opened.append((name, mode, encoding))
        return File()

    @harness('{}.to_file'.format(cls.__name__), contracts={'csvw.metadata.DescriptionBase.asdict': asdict, 'json.dump': dump_contract, '_io.open': opened,
                                                          'csvw.metadata.TableLike.asdict': asdict})
    def h(ctx):
        ctx.dumped, ctx.opened = [], []
        k, o = read(cls, VDict(url='x') if cls is M.Table else VDict())
        omit = bool(ctx.choose(2))
        k, r = meth(o, 'to_file', 'm.json', omit_defaults=omit) if ctx.choose(2) else meth(o, 'to_file', 'm.json') if omit else meth(o, 'to_file', 'm.json', omit)
        ctx.prove('writing does not fail', BoolVal(k == 'ok'), repr(r))
        ctx.prove('one file, as UTF-8', BoolVal(len(ctx.opened) == 1 and str(ctx.opened[0][0]) == 'm.json' and ctx.opened[0][1] == 'w' and ctx.opened[0][2] == 'utf-8'), repr(ctx.opened))
        ctx.prove('the serialised description', BoolVal(len(ctx.dumped) == 1) if len(ctx.dumped) != 1 else And(eq(ctx.dumped[0][0], VDict(self=id(o), omit=omit)), BoolVal(isinstance(ctx.dumped[0][1], File))),
                  repr(ctx.dumped))


_file(M.Table)
_file(M.TableGroup)
