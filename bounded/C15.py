"""C15, bounded: descriptions are serialised and read again."""
import collections
import copy
import json
import pathlib
import warnings

from csvw.metadata import Table, TableGroup, Column, Datatype, Dialect, Schema
from csvw.metadata import dialect_props
from bounded.lib import Registry, require, Skip, tmpdir

check = Registry()

TEXTS = ['', 'a', 'NA', ' ', '\xe9\u4e2d', 'x y', '"', 'null', '0']
TAGS = ['en', 'de', 'und', 'zh-Hant']
DEFAULTS = {
    'default': '', 'lang': 'und', 'null': [''], 'suppressOutput': False, 'virtual': False, 'tableDirection': 'auto', 'columns': [], 'foreignKeys': [], 'rowTitles': [], 'notes': [],
    'transformations': [], 'tables': [], 'tableSchema': {}}
DIALECT = {
    'encoding': 'utf-8', 'lineTerminators': ['\r\n', '\n'], 'quoteChar': '"', 'doubleQuote': True, 'skipRows': 0, 'commentPrefix': None, 'header': True, 'headerRowCount': 1,
    'delimiter': ',', 'skipColumns': 0, 'skipBlankRows': False, 'skipInitialSpace': False, 'trim': 'false'}


def some(r, n, *pairs):
    """n of the properties on average"""
    p = n / len(pairs)
    return {k: f() for k, f in pairs if r.random() < p}


def r_text(r):
    return r.choice(TEXTS)


def r_common(r, depth=2):
    k = r.randrange(9 if depth else 6)
    if k < 6:
        return [r_text(r), r.randrange(-3, 100), r.choice([0.5, 1e30]), r.random() < .5, None, {'@value': 'x', '@language': 'en'}][k]
    if k == 6:
        return [r_common(r, depth - 1) for _ in range(r.randrange(3))]
    return {r.choice(['a', 'dc:b', '@id', 'x y']) if r.random() < .9 else 'dc:c': r_text(r) or "v" for _ in range(r.randrange(3))}


def r_base(r, *at):
    res = {}
    for _ in range(r.choice([0, 0, 1, 2])):
        res[r.choice(['dc:title', 'dc:description', 'schema:name', 'http://example.org/p', 'rdfs:seeAlso'])] = r_common(r)
    for k, f in at:
        if r.random() < .2:
            res[k] = f()
    return res


def r_titles(r):
    t = lambda: r.choice(['a', 'b c', '\xe4', 'x'])     # noqa: E731
    return r.choice([t, lambda: [t()], lambda: [t(), t()], lambda: {r.choice(TAGS): t()}, lambda: {'en': [t(), t()], 'de': t()}, lambda: {'en': []}, lambda: [], lambda: {}])()


NUM = ['decimal', 'integer', 'int', 'long', 'double', 'float', 'number', 'unsignedByte', 'positiveInteger']
STRINGS = ['string', 'anyURI', 'NMTOKEN', 'normalizedString', 'base64Binary', 'hexBinary', 'json', 'xml']


def r_datatype(r):
    k = r.randrange(7)
    if k == 0:
        return r.choice(NUM + STRINGS + ['boolean', 'date', 'dateTime', 'time', 'duration', 'any', 'QName', 'gYear'])
    d = {}
    if k == 1:
        d = {'base': r.choice(STRINGS[:6])}
        d.update(r.choice([{}, {'length': 3}, {'length': 0}, {'minLength': 0}, {'minLength': 1, 'maxLength': 5}, {'maxLength': 0}]))
        if r.random() < .4 and 'Binary' not in d['base']:
            d['format'] = r.choice(['[a-z]+', 'a|b', '.*', 'x'])
    elif k == 2:
        d = {'base': r.choice(NUM)}
        v = lambda x: r.choice([x, str(x)])     # noqa: E731
        d.update(r.choice([{}, {'minimum': v(1)}, {'maximum': v(0)} if d['base'] != 'positiveInteger' else {}, {'minInclusive': v(1), 'maxInclusive': v(10)}, {'minExclusive': v(0), 'maxExclusive': v(100)}
                           if d['base'] != 'positiveInteger' else {'minExclusive': v(1)},
                           {'minimum': v(5), 'maximum': v(5)}]))
        if r.random() < .3:
            d['format'] = r.choice([{'groupChar': ','}, {'groupChar': '.', 'decimalChar': ','}, '0', {'pattern': '#,##0'}, '#0'])
    elif k == 3:
        b = r.choice(['date', 'dateTime', 'time', 'datetime'])
        d = {'base': b}
        lo, hi, f = {'date': ('2018-01-02', '2020-12-31', 'yyyy-MM-dd'), 'time': ('01:02:03', '23:00:00', 'HH:mm:ss')}.get(b, ('2018-01-02T01:02:03', '2020-12-31T00:00:00', 'yyyy-MM-ddTHH:mm:ss'))
        d.update(r.choice([{}, {'minimum': lo}, {'maximum': hi}, {'minInclusive': lo, 'maxExclusive': hi}]))
        if r.random() < .5 and b != 'time':
            d['format'] = f
    elif k == 4:
        d = {'base': 'boolean', 'format': r.choice(['Y|N', '1|0', 'ja|nein', '|x'])}
    elif k == 5:
        d = {'base': 'json'}
        if r.random() < .6:
            d['format'] = '{"type": "object"}'
    elif k == 6:
        d = {'base': r.choice(['duration', 'string', 'decimal'])}
    if r.random() < .1:
        del d['base']
        d = {'format': 'x|y'} if r.random() < .5 else {}
    if r.random() < .15:
        d['@id'] = 'http://example.org/dt'
    if r.random() < .15:
        d['dc:title'] = r_common(r)
    return d


def r_inherited(r, n=1.5):
    return some(
        r, n,
        ('aboutUrl', lambda: r.choice(['#{a}', 'http://example.org/{+a}', 'x', ''])), ('datatype', lambda: r_datatype(r)), ('default', lambda: r_text(r)),
        ('lang', lambda: r.choice(TAGS)), ('null', lambda: r.choice([[], '', 'NA', [''], ['NA', ''], ['NA'], ['', '']])), ('ordered', lambda: r.random() < .5),
        ('propertyUrl', lambda: r.choice(['dc:title', '#p', 'http://example.org/{_name}'])), ('required', lambda: r.random() < .5), ('separator', lambda: r.choice([';', '', ', '])),
        ('textDirection', lambda: r.choice(['ltr', 'rtl', 'auto', 'inherit'])), ('valueUrl', lambda: r.choice(['{a}', '#x'])))


def r_column(r, name=None, virtual=False):
    d = r_inherited(r)
    d.update(r_base(r, ('@id', lambda: 'http://example.org/c'), ('@type', lambda: 'Column')))
    d.update(some(r, 1, ('suppressOutput', lambda: r.random() < .5), ('titles', lambda: r_titles(r))))
    if name is not None and r.random() < .9:
        d['name'] = name
    if virtual or r.random() < .1 and virtual is None:
        d['virtual'] = virtual
    elif r.random() < .1:
        d['virtual'] = False
    return d


def r_schema(r):
    d = r_inherited(r, .7)
    d.update(r_base(r, ('@id', lambda: 'http://example.org/s'), ('@type', lambda: 'Schema')))
    n = r.randrange(4)
    if r.random() < .85:
        d['columns'] = [r_column(r, name=x) for x in 'abc'[:n]] + [r_column(r, name=x, virtual=True) for x in 'vw'[:r.choice([0, 0, 0, 1, 2])]]
    names = [c['name'] for c in d.get('columns', []) if 'name' in c and not c.get('virtual')]
    if names:
        d.update(some(
            r, 1, ('primaryKey', lambda: r.choice([names[0], names[:1], names])), ('rowTitles', lambda: r.choice([names[0], names[:1], names, []])),
            ('foreignKeys', lambda: [{'columnReference': r.choice([names[0], names[:2]]), 'reference': r.choice([
                {'resource': 'o.csv', 'columnReference': r.choice(['x', ['x', 'y']])}, {'schemaReference': 'http://example.org/s', 'columnReference': ['x']}])}
                for _ in range(r.randrange(3))])))
    return d


def r_dialect(r):
    d = some(
        r, 2.5,
        ('encoding', lambda: r.choice(['utf-8', 'latin1', 'utf-16'])), ('lineTerminators', lambda: r.choice(['\n', ['\n'], ['\r\n', '\n'], ['\n', '\r\n']])),
        ('quoteChar', lambda: r.choice([None, '"', "'"])), ('doubleQuote', lambda: r.random() < .5), ('skipRows', lambda: r.randrange(3)), ('commentPrefix', lambda: r.choice([None, '#', '', '//'])),
        ('header', lambda: r.random() < .5), ('headerRowCount', lambda: r.randrange(3)), ('delimiter', lambda: r.choice([',', '\t', ';', '|'])), ('skipColumns', lambda: r.randrange(3)),
        ('skipBlankRows', lambda: r.random() < .5), ('skipInitialSpace', lambda: r.random() < .5), ('trim', lambda: r.choice([True, False, 'true', 'false', 'start', 'end'])))
    return d


def r_tablelike(r):
    d = r_inherited(r, .7)
    d.update(some(
        r, 1.2, ('dialect', lambda: r_dialect(r)), ('notes', lambda: [r.choice(['n', {'a': 1}, {}, []]) for _ in range(r.randrange(3))]),
        ('tableDirection', lambda: r.choice(['auto', 'ltr', 'rtl'])),
        ('transformations', lambda: [{'dc:title': 'x', '@id': 'http://example.org/f'}][:r.randrange(2)])))
    return d


def r_table(r, url='t.csv', top=False):
    d = r_tablelike(r)
    d.update(r_base(r, ('@id', lambda: 'http://example.org/t'), ('@type', lambda: 'Table'), *([('@context', lambda: 'http://www.w3.org/ns/csvw')] if top else [])))
    d['url'] = url
    d.update(some(r, 1, ('suppressOutput', lambda: r.random() < .5), ('tableSchema', lambda: r_schema(r))))
    return d


def r_group(r):
    d = r_tablelike(r)
    d.update(r_base(r, ('@id', lambda: 'http://example.org/g'), ('@type', lambda: 'TableGroup'),
                    ('@context', lambda: r.choice(['http://www.w3.org/ns/csvw', ['http://www.w3.org/ns/csvw', {'@language': 'en', '@base': 'http://example.org/'}]]))))
    if r.random() < .2:
        d['tableSchema'] = r_schema(r)
    d['tables'] = [r_table(r, u) for u in ['t1.csv', 'sub/t2.csv', 'http://example.org/t3.csv'][:r.randrange(4)]]
    return d


CLASSES = {'Column': Column, 'Schema': Schema, 'Table': Table, 'TableGroup': TableGroup, 'Datatype': Datatype, 'Dialect': Dialect}
MAKE = {'Column': lambda r: r_column(r, 'a', None), 'Schema': r_schema, 'Table': lambda r: r_table(r, top=True), 'TableGroup': r_group, 'Datatype': r_datatype, 'Dialect': r_dialect}


def read(kind, doc):
    if kind == 'Dialect':
        return Dialect(**dialect_props(doc))
    return CLASSES[kind].fromvalue(doc)


def norm(k, v):
    """values which mean the same"""
    if k in ('columnReference', 'primaryKey', 'rowTitles', 'null') and not isinstance(v, list):
        return [v]
    if k == 'titles':
        return {None if x == 'und' else x: [y] if isinstance(y, str) else y for x, y in (v if isinstance(v, dict) else {None: v}).items()}
    if k == 'datatype' or k == 'Datatype':
        if isinstance(v, str):
            v = {'base': v}
        v = {x: norm(x, y) for x, y in v.items()}
        v.setdefault('base', 'string')
        return v
    if k == 'trim' and isinstance(v, bool):
        return str(v).lower()
    if k == 'dialect':
        if v is not None:
            v = {x: norm(x, y) for x, y in v.items()
                 if norm(x, y) != DIALECT.get(x) and not (x == 'header' and v.get('headerRowCount'))}
        return v
    return v


def compare(k, given, out, path):
    """the document written has all that was given, but for defaults"""
    if k in ('columns', 'tables', 'foreignKeys'):
        require(isinstance(out, list) and len(given) == len(out), '{}: {} items become {}'.format(path, len(given), out))
        for i, (a, b) in enumerate(zip(given, out)):
            compare(k[:-1], a, b, '{}/{}'.format(path, i))
        return
    if k in ('column', 'table', 'foreignKey', 'reference', 'tableSchema', 'Column', 'Schema', 'Table', 'TableGroup', 'datatype', 'Datatype', 'Dialect', 'dialect'):
        given, out = norm(k, given), norm(k, out)
        dialect = k.lower() == 'dialect'
        for p, v in given.items():
            q = path + '/' + p
            if dialect and p == 'header' and given.get('headerRowCount'):
                continue        # the number of header rows takes precedence
            if p in out:
                compare(p, v, out[p], q)
                continue
            v = norm(p, v)
            if p == 'tableSchema':
                compare(p, v, {}, q)
                continue
            if dialect and p == 'headerRowCount' and 'header' in out and not out['header']:
                require(v == 1, '{}: {!r} is lost'.format(q, v))
                continue
            require(v is None or (v == DIALECT[p] if dialect and p in DIALECT else p in DEFAULTS and v == DEFAULTS[p]), '{}: {!r} is lost'.format(q, v))
        for p, v in out.items():
            if p not in given:
                require(v is None or (v == DIALECT.get(p) if dialect else p in DEFAULTS and v == DEFAULTS[p]) or p == 'base' and v == 'string',
                        '{}: {!r} has been added'.format(path + '/' + p, v))
        return
    a, b = norm(k, given), norm(k, out)
    if k in ('minimum', 'maximum', 'minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive'):
        try:
            a, b = float(str(a).replace(',', '')), float(str(b).replace(',', ''))
        except ValueError:
            a, b = str(a), str(b)
    require(a == b and type(a) == type(b) or isinstance(a, dict) and a == b, '{}: {!r} becomes {!r}'.format(path, a, b))


def loaded(kind, doc):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            obj = read(kind, copy.deepcopy(doc))
        except ValueError:
            raise Skip()
    if w:
        raise Skip()
    return obj


def plain(x):
    return json.loads(json.dumps(x))


def gen(r):
    kind = r.choice(['Column', 'Column', 'Schema', 'Table', 'Table', 'TableGroup', 'TableGroup', 'Datatype', 'Dialect'])
    return kind, MAKE[kind](r)


FIXED = [('Dialect', {'header': False}), ('Dialect', {}), ('Table', {'url': 'x', 'dialect': {}}), ('Table', {'url': 'x', 'dialect': {'header': False}}),
         ('Column', {'null': []}), ('Column', {'titles': []}), ('Column', {'dc:title': []}), ('Column', {'dc:title': {}}), ('Datatype', {'base': 'decimal', 'minimum': 0}),
         ('Column', {'datatype': 'decimal'}), ('Datatype', {'base': 'string', 'length': 0}), ('Datatype', {'base': 'decimal', 'minimum': '1,000.5', 'format': {'groupChar': ','}}),
         ('TableGroup', {'tables': [{'url': 'x', 'dialect': {}}], 'dialect': {'delimiter': ';'}}), ('Schema', {'columns': []}), ('Schema', {'primaryKey': []}),
         ('Table', {'url': 'x', 'notes': [{}]}), ('Datatype', {'base': 'datetime', 'minimum': '2018-12-10T20:20:20'}), ('Datatype', {'base': 'float', 'minimum': 0.1}),
         ('Dialect', {'header': False, 'headerRowCount': 2}), ('Dialect', {'header': True, 'headerRowCount': 0})]


@check('serialised and read', fixed=FIXED, gen=gen, n=2500)
def trip(case):
    kind, doc = case
    obj = loaded(kind, doc)
    for omit in (True, False):
        out = obj.asdict(omit_defaults=omit)
        try:
            text = json.dumps(out)
        except TypeError:
            require(False, 'no JSON: {}'.format(out))
        obj2 = loaded_again(kind, json.loads(text, object_pairs_hook=collections.OrderedDict), omit)
        require(obj2 == obj, 'another description (omit_defaults={}): {}\n{}\n{}'.format(omit, text, obj, obj2))
        require(plain(obj2.asdict(omit_defaults=omit)) == json.loads(text), 'another document: {}'.format(text))
        require(obj.asdict(omit_defaults=omit) == out, 'serialising changes the description')
        compare(kind, doc, json.loads(text), kind)


def loaded_again(kind, doc, omit):
    if kind == 'Datatype' and isinstance(doc, str):
        return Datatype.fromvalue(doc)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        obj = read(kind, doc)
    require(not w, 'a warning for the document written: {}'.format([str(x.message) for x in w]))
    return obj


def gen_file(r):
    kind = r.choice(['Table', 'TableGroup'])
    return kind, MAKE[kind](r), r.random() < .5


@check('files', fixed=[(k, d, o) for k, d in FIXED if k.startswith('Table') for o in (True, False)], gen=gen_file, n=150)
def files(case):
    kind, doc, omit = case
    loaded(kind, doc)
    with tmpdir() as d:
        p = pathlib.Path(d) / 'm.json'
        p.write_text(json.dumps(doc), encoding='utf8')
        with warnings.catch_warnings(record=True):
            warnings.simplefilter('always')
            obj = CLASSES[kind].from_file(p)
            q = obj.to_file(pathlib.Path(d) / 'n.json', omit_defaults=omit)
            text = q.read_text(encoding='utf8')
            obj2 = CLASSES[kind].from_file(q)
            obj2._fname = obj._fname
            require(obj2 == obj, 'another description: {}'.format(text))
            obj2.to_file(q, omit_defaults=omit)
            require(q.read_text(encoding='utf8') == text, 'another document: {}'.format(text))


def gen_titles(r):
    first = r.choice(['a', ['a', 'b'], {'en': 'x'}, {'und': ['u', 'v'], 'de': 'y'}, [], {}])
    return first, [(r.choice(['t', 's', '\xe4']), r.choice([None, 'und', 'en', 'de'])) for _ in range(r.randrange(4))]


@check('titles added', fixed=[('a', [('b', 'de')]), ({'en': 'a'}, [('b', None)]), ({'und': 'a'}, [('b', None)])], gen=gen_titles, n=300)
def titles(case):
    first, added = case
    col = Column(titles=first)
    for text, lang in added:
        col.titles.add(text, lang) if lang else col.titles.add(text)
    for omit in (True, False):
        doc = plain(col.asdict(omit_defaults=omit))
        col2 = Column.fromvalue(copy.deepcopy(doc))
        require(col2 == col and col2.header == col.header and list(col2.titles) == list(col.titles), 'another column: {!r} {!r}'.format(doc, col2.header))
        require(plain(col2.asdict(omit_defaults=omit)) == doc, 'another document')
        for text, lang in added:
            require(col2.has_title(text) == col.has_title(text), 'the title {} is lost'.format(text))
