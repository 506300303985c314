"""C24, bounded: loading descriptions with JSON values of every kind in every typed property."""
import codecs
import json
import warnings

from csvw import metadata as M
from csvw import dsv_dialects as DD
from bounded.lib import Registry, require, same

check = Registry()

VALUES = [None, True, False, 0, 1, -1, 2, 17, 1.0, 0.0, 1.5, 'x', '', '0', '1', 'true', 'false', 'True', 'start', 'end', 'auto', 'ltr', 'rtl',
          'inherit', 'LTR', 'de', 'en-US', 'und', 'utf-16', 'UTF-8-BOM', 'xxyy', 'latin1', 'string', 'integer', 'Integer', '\r\n', 'nope-nope',
          [], ['x'], ['x', 'y'], [True], [1], ['x', 1], [None], [['x']], ['true'], [False, 'x'], {}, {'a': 1}, {'en': 'x'}, [{}], [[]], ['utf-8'], ['ltr']]

INVALID = object()


def is_codec(v):
    if v == 'UTF-8-BOM':
        return True
    try:
        codecs.lookup(v)
    except LookupError:
        return False
    return True


LANGS = {'de', 'en-US', 'und', 'end'}      # of the texts in VALUES
NAMES = ['string', 'integer']


def boolean(v):
    return v is True or v is False


def natural(v):
    return type(v) is int and v >= 0


def text(v):
    return type(v) is str


def opt(f):
    return lambda v: v is None or f(v)


def among(*words):
    return lambda v: type(v) is str and v in words


def terminators(v):
    return text(v) or (isinstance(v, list) and all(text(x) for x in v))


SPEC = {
    'dialect': {
        'encoding': ('utf-8', lambda v: text(v) and is_codec(v)), 'lineTerminators': (['\r\n', '\n'], terminators), 'quoteChar': ('"', opt(text)),
        'doubleQuote': (True, boolean), 'skipRows': (0, natural), 'commentPrefix': (None, opt(text)), 'header': (True, boolean),
        'headerRowCount': (1, natural), 'delimiter': (',', text), 'skipColumns': (0, natural), 'skipBlankRows': (False, boolean),
        'skipInitialSpace': (False, boolean), 'trim': ('false', lambda v: boolean(v) or among('true', 'false', 'start', 'end')(v))},
    'column': {
        'default': ('', text), 'lang': ('und', lambda v: text(v) and v in LANGS), 'ordered': (False, opt(boolean)), 'separator': (None, opt(text)),
        'textDirection': (None, opt(among('ltr', 'rtl', 'auto', 'inherit'))), 'name': (None, opt(text)), 'suppressOutput': (False, boolean),
        'virtual': (False, boolean), 'null': ([''], lambda v: v is None or terminators(v))},
    'schema': {
        'default': ('', text), 'lang': ('und', lambda v: text(v) and v in LANGS), 'ordered': (False, opt(boolean)), 'separator': (None, opt(text)),
        'textDirection': (None, opt(among('ltr', 'rtl', 'auto', 'inherit')))},
    'table': {
        'tableDirection': ('auto', among('ltr', 'rtl', 'auto')), 'suppressOutput': (False, boolean),
        'lang': ('und', lambda v: text(v) and v in LANGS), 'separator': (None, opt(text)), 'transformations': ([], lambda v: isinstance(v, list))},
    'group': {
        'tableDirection': ('auto', among('ltr', 'rtl', 'auto')), 'ordered': (False, opt(boolean)), 'transformations': ([], lambda v: isinstance(v, list))},
    'datatype': {
        'base': ('string', among('string', 'integer'))},
}


def document(where, props):
    """a table group with the properties in one of its parts"""
    d = {part: {} for part in SPEC}
    d['datatype'] = {'base': 'string'}
    d[where].update(props)
    col = dict({'name': 'c'}, **dict(d['column'], datatype=d['datatype']))
    return dict({'@context': 'http://www.w3.org/ns/csvw', 'tables': [
        dict({'url': 'x.csv', 'dialect': d['dialect'], 'tableSchema': dict({'columns': [{'name': 'first'}, col]}, **d['schema'])}, **d['table'])]},
        **d['group'])


def load(doc):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            tg = M.TableGroup.fromvalue(json.loads(json.dumps(doc)))
        except Exception as e:
            return e, [str(x.message) for x in w]
    return tg, [str(x.message) for x in w]


def part(tg, where):
    t = tg.tables[0]
    return {'dialect': t.dialect, 'column': t.tableSchema.columns[-1], 'schema': t.tableSchema, 'table': t, 'group': tg,
            'datatype': t.tableSchema.columns[-1].datatype}[where]


def wanted(where, prop, v):
    default, ok = SPEC[where][prop]
    if not ok(v):
        return INVALID, default
    if prop == 'trim' and boolean(v):
        return None, 'true' if v else 'false'
    if prop == 'null':
        return None, [] if v is None else [v] if text(v) else v
    return None, v


def typed(x):
    return [type(y) for y in x] if isinstance(x, list) else type(x)


def kept(where, prop, got, v):
    inv, want = wanted(where, prop, v)
    same(got, want, '{}.{} loaded from {!r}'.format(where, prop, v))
    require(typed(got) == typed(want), '{}.{} loaded from {!r}: got {!r}, expected {!r}', where, prop, v, got, want)
    return inv is INVALID


def single_fixed():
    for where in SPEC:
        for prop in SPEC[where]:
            for v in VALUES:
                yield where, [(prop, v)]


def single_gen(r):
    where = r.choice(list(SPEC))
    props = r.sample(list(SPEC[where]), min(len(SPEC[where]), r.choice([1, 2, 3, 5])))
    return where, [(p, r.choice(VALUES)) for p in props]


@check('typed properties', fixed=single_fixed, gen=single_gen, n=600)
def typed_properties(case):
    where, props = case
    if where == 'column' and ('name', '\r\n') in props:     # no valid name of a column
        return
    if where == 'dialect' and dict(props).get('headerRowCount'):      # a headerRowCount overrides header
        props = [x for x in props if x[0] != 'header']
    tg, w = load(document(where, dict(props)))
    require(not isinstance(tg, Exception), 'loading failed with {!r}', tg)
    p = part(tg, where)
    wrong = sum(kept(where, prop, getattr(p, prop), v) for prop, v in props)
    require((len(w) > 0) == (wrong > 0), '{} wrong values, warnings {!r}', wrong, w)
    require(len(w) >= wrong, '{} wrong values, warnings {!r}', wrong, w)


@check('dialect classes', fixed=lambda: ((p, v) for p in SPEC['dialect'] for v in VALUES))
def dialect_classes(case):
    """the same converters without a description around"""
    prop, v = case
    for cls in (M.Dialect, DD.Dialect):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            d = cls(**{prop: v})
        inv, want = wanted('dialect', prop, v)
        if prop == 'commentPrefix' and inv and cls is DD.Dialect:
            want = '#'
        same(getattr(d, prop), want, '{}.{}'.format(cls.__name__, prop))
        require(typed(getattr(d, prop)) == typed(want), '{}.{} of {!r}: {!r}', cls.__name__, prop, v, getattr(d, prop))
        require((len(w) > 0) == (inv is INVALID), 'warnings {!r}', [str(x.message) for x in w])


# ------------------------------------------------------------------ lists
def items_gen(r):
    what = r.choice(['columns', 'tables', 'foreignKeys'])
    return what, [r.choice(['ok', 'ok', 'ok', None, True, 0, 'x', 1.5, [], [1]] + ([]
                                                                                      if what == 'foreignKeys' else [])) for _ in range(r.choice([0, 1, 2, 3, 4, 6, 9]))]


def items_fixed():
    for what in ('columns', 'tables', 'foreignKeys'):
        for x in ([None], ['x'], [1], [True], [[]], [['ok']]):
            yield what, x
            yield what, ['ok'] + x
            yield what, x + ['ok']
            yield what, ['ok'] + x + ['ok', 'ok']
            yield what, x + x + ['ok'] + x


@check('list items', fixed=items_fixed, gen=items_gen, n=200)
def list_items(case):
    what, items = case
    make = {'columns': lambda i: {'name': 'c%d' % i}, 'tables': lambda i: {'url': 't%d.csv' % i, 'tableSchema': {'columns': []}},
            'foreignKeys': lambda i: {'columnReference': 'c%d' % i, 'reference': {'resource': 't.csv', 'columnReference': 'k%d' % i}}}[what]
    v = [make(i) if x == 'ok' else x for i, x in enumerate(items)]
    doc = {'tables': [{'url': 'x.csv', 'tableSchema': {'columns': []}}]}
    if what == 'tables':
        doc['tables'] = v
    else:
        doc['tables'][0]['tableSchema'][what] = v
    tg, w = load(doc)
    require(not isinstance(tg, Exception), 'loading failed with {!r}', tg)
    ids = [i for i, x in enumerate(items) if x == 'ok']
    if what == 'columns':
        got = [c.name for c in tg.tables[0].tableSchema.columns]
        want = ['c%d' % i for i in ids]
    elif what == 'tables':
        got = [str(t.url) for t in tg.tables]
        want = ['t%d.csv' % i for i in ids]
    else:
        got = [(fk.columnReference, fk.reference.columnReference) for fk in tg.tables[0].tableSchema.foreignKeys]
        want = [(['c%d' % i], ['k%d' % i]) for i in ids]
    same(got, want, what)
    wrong = len(items) - len(ids)
    require((len(w) > 0) == (wrong > 0), '{} wrong items, warnings {!r}', wrong, w)


@check('not lists', fixed=lambda: ((p, v) for p in ('foreignKeys', 'transformations') for v in VALUES if not isinstance(v, list) and v is not None))
def not_lists(case):
    prop, v = case
    doc = {'tables': [{'url': 'x.csv', 'tableSchema': {'columns': []}}]}
    (doc['tables'][0]['tableSchema'] if prop == 'foreignKeys' else doc['tables'][0])[prop] = v
    tg, w = load(doc)
    require(not isinstance(tg, Exception), 'loading failed with {!r}', tg)
    t = tg.tables[0]
    same(t.tableSchema.foreignKeys if prop == 'foreignKeys' else t.transformations, [], prop)
    require(len(w) > 0, 'no warning')


# ------------------------------------------------------------------ titles
def titles_fixed():
    for v in VALUES:
        yield v,
    for v in ({'en': 1}, {'en': ['x', 1]}, {'en': [None], 'de': 'y'}, {'en': 'x', 'de': ['y', 'z']}, {'en': True}, {'en': ['x', 'y', 3, 'z']}):
        yield v,


@check('titles', fixed=titles_fixed)
def titles(case):
    v, = case
    if isinstance(v, dict) and 'a' in v:
        return
    tg, w = load(document('column', {'titles': v}))
    require(not isinstance(tg, Exception), 'loading failed with {!r}', tg)
    got = tg.tables[0].tableSchema.columns[-1].titles
    if v is None:
        require(got is None and not w, 'titles {!r}, warnings {!r}', got, w)
    elif terminators(v):
        same(dict(got), {None: [v] if text(v) else v}, 'titles')
        require(not w, 'warnings {!r}', w)
    elif isinstance(v, dict):
        bad = 0
        want = {}
        for k, x in v.items():
            x = x if isinstance(x, list) else [x]
            want[k] = [y for y in x if text(y)]
            bad += len(x) - len(want[k])
        same(dict(got), want, 'titles')
        require(len(w) == bad, 'warnings {!r}', w)
    else:
        require(not got, 'titles {!r}', got)
        require(len(w) > 0, 'no warning')


# ------------------------------------------------------------------ unknown properties, @type
TYPES = {'dialect': 'Dialect', 'column': 'Column', 'schema': 'Schema', 'table': 'Table', 'group': 'TableGroup', 'datatype': 'Datatype'}
UNKNOWN = ['nam', 'Name', 'colour', 'title', 'datatypes', 'lineTerminator', 'unknown-prop', 'trimm', 'common_prop', 'URL', 'x', '']
COMMON = ['dc:title', 'schema:name', 'http://example.org/p', ':', 'x:y']


def unknown_fixed():
    for where in TYPES:
        for k in UNKNOWN:
            yield where, [(k, 'v')]
            yield where, [('dc:title', 't'), (k, True)]
        if where != 'dialect':
            for k in COMMON:
                yield where, [(k, 'v')]


@check('unknown properties', fixed=unknown_fixed, gen=lambda r: (lambda wh: (wh, [
    (k, r.choice([None, True, 1, 'x', [], ['x']])) for k in r.sample(UNKNOWN + (COMMON if wh != 'dialect' else []), 4)]))(r.choice(list(TYPES))), n=200)
def unknown(case):
    where, props = case
    if where == 'dialect':
        props = [x for x in props if ':' not in x[0]]
    tg, w = load(document(where, dict(props)))
    require(not isinstance(tg, Exception), 'loading failed with {!r}', tg)
    p = part(tg, where)
    for k, v in props:
        if ':' not in k:
            require(not k or not hasattr(p, k), '{} has an attribute {!r}', where, k)
    if where != 'dialect':
        same(p.common_props, {k: v for k, v in props if ':' in k}, 'common properties')
    n = len([k for k, _ in props if ':' not in k])
    require(len(w) == n, '{} unknown properties, warnings {!r}', n, w)


@check('@type', fixed=lambda: ((where, v) for where in TYPES if where not in ('dialect', 'datatype') for v in
                               list(TYPES.values()) + [None, True, 1, [], {}, 'table', 'csvw:Table', '', ['Table'], ['Column']]))
def at_type(case):
    where, v = case
    tg, w = load(document(where, {'@type': v}))
    if v == TYPES[where]:
        require(not isinstance(tg, Exception), 'loading failed with {!r}', tg)
        require(not w, 'warnings {!r}', w)
        same(part(tg, where).at_props['type'], v, '@type')
    else:
        require(isinstance(tg, ValueError), '@type {!r} of a {}: {!r}', v, where, tg)


# ------------------------------------------------------------------ common properties
COMMON_LANGS = ['en', 'de-AT', 'und', 'x-y', 'not a tag', '', 5, None, 'zz-ZZZZZZZZZZ', '123']
SCALARS = ['x', '', 5, -1, 1.5, 0.25, True, False]
GOOD_TYPES = ['Table', 'Column', 'dc', 'dc:T', 'schema:Person', 'http://example.org/T', 'xsd:string', ['a', 'b']]
BAD_TYPES = ['nope', 'table', 'xx:T', '_:b0', '', 5, None, True, 'dcx:T', 'Tables']


def common_object(r, depth=2):
    u = r.random()
    if depth == 0 or u < 0.15:
        return r.choice(SCALARS + [None])
    if u < 0.3:
        return [common_object(r, depth - 1) for _ in range(r.randrange(3))]
    d = {}
    for k in r.sample(['@value', '@value', '@language', '@type', '@id', 'dc:x', 'p', '@context', '@base'], r.choice([0, 1, 1, 2, 2, 2, 3])):
        if k == '@value':
            d[k] = r.choice(SCALARS + [None, [1], {'dc:a': 'b'}])
        elif k == '@language':
            d[k] = r.choice(COMMON_LANGS + ['en', 'de'] * 4)
        elif k == '@type':
            d[k] = r.choice(GOOD_TYPES * 2 + BAD_TYPES)
        elif k == '@id':
            d[k] = r.choice(['http://example.org/x', 'x', '_:b', '_x', 'dc:x'])
        else:
            if k[0] == '@' and r.random() < 0.6:
                continue
            d[k] = common_object(r, depth - 1)
    return d


def common_spec(v):
    """(valid, value kept, dropped languages); None as validity where nothing is said"""
    if isinstance(v, list):
        rs = [common_spec(x) for x in v]
        return merge(rs), [r[1] for r in rs], sum(r[2] for r in rs)
    if not isinstance(v, dict):
        return True, v, 0
    ks, ok, n = set(v), True, 0
    if {k for k in ks if k[0] == '@'} - {'@id', '@language', '@type', '@value'}:
        ok = False
    if '@value' in ks and len(ks) > 1 and (ks not in ({'@value', '@language'}, {'@value', '@type'}) or not isinstance(v['@value'], (str, bool, int, float))):
        ok = False
    if '@language' in ks and '@value' not in ks:
        ok = False
    if '@id' in ks and v['@id'].startswith('_'):
        ok = False
    if '@type' in ks and v['@type'] in BAD_TYPES:
        ok = False
    res = dict(v)
    if '@language' in ks and v['@language'] not in ('en', 'de-AT', 'und', 'de'):
        if v['@language'] in ('not a tag', '', 5, None, '123'):
            del res['@language']
            n += 1
        else:
            ok = None if ok else ok
    rs = {k: common_spec(x) for k, x in res.items()}
    return merge([(ok,)] + list(rs.values())), {k: r[1] for k, r in rs.items()}, n + sum(r[2] for r in rs.values())


def merge(rs):
    oks = [r[0] for r in rs]
    return False if False in oks else None if None in oks else True


@check('common properties', fixed=lambda: ((w, v) for w in ('table', 'group', 'column') for v in [
    {'@value': s, k: t} for s in SCALARS for k, t in (('@language', 'en'), ('@type', 'xsd:string'), ('dc:x', 'y'), ('@id', 'x'))] + [
    {'@type': t} for t in GOOD_TYPES + BAD_TYPES] + [{'@value': 'x', '@language': t} for t in COMMON_LANGS] + [
    {'@value': 'x', '@language': 'en', '@type': 'xsd:string'}, {'@language': 'en'}, {'@value': [1], '@type': 'xsd:string'}, {'@value': [1], '@language': 'en'},
    {'@id': '_:x'}, {'@context': 'x'}, [{'@language': 'en'}], {'dc:y': [{'@language': 'en'}]}, [[{'@id': '_:x'}]], [[], [{'@language': 'en'}]], {'dc:y': [[{'@value': 1, '@language': 5}]]}]),
    gen=lambda r: (r.choice(['table', 'group', 'column', 'schema']), common_object(r, 3)), n=600)
def common(case):
    where, v = case
    ok, want, n = common_spec(v)
    tg, w = load(document(where, {'dc:title': v, 'dc:other': 'x'}))
    if ok is None:
        return
    if not ok:
        require(isinstance(tg, ValueError), 'an invalid common property is accepted: {!r}', tg)
        return
    require(not isinstance(tg, Exception), 'loading failed with {!r}', tg)
    same(part(tg, where).common_props, {'dc:title': want, 'dc:other': 'x'}, 'common properties')
    same(len(w), n, 'number of warnings')
