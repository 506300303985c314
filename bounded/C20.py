"""C20, bounded: frictionless data packages are converted."""
import copy
import json
import pathlib
import warnings

from csvw.frictionless import DataPackage
from csvw.metadata import TableGroup
from bounded.lib import Registry, require, tmpdir

check = Registry()

TYPES = {
    'string': 'string', 'number': 'number', 'integer': 'integer', 'boolean': 'boolean', 'date': 'date', 'time': 'time', 'datetime': 'datetime', 'duration': 'duration',
    'year': 'gYear', 'yearmonth': 'gYearMonth', 'object': 'json', 'array': 'json', 'geojson': 'json', 'any': 'string', 'geopoint': 'string'}
LENGTH = ['string', 'any', 'array', 'object', 'geopoint']
RANGE = {'integer': (0, 5), 'number': (-1.5, 100), 'date': ('2018-01-01', '2020-01-31'), 'time': ('01:00:00', '23:30:00'), 'datetime': ('2018-01-01T10:00:00', '2018-01-02T00:00:00'),
         'year': (1990, 2010), 'yearmonth': ('1990-01', '2010-12')}


def r_field(r, name):
    f = {'name': name}
    if r.random() < .9:
        f['type'] = t = r.choice(list(TYPES))
    else:
        t = 'string'
    if r.random() < .3:
        f['title'] = r.choice(['T', 'A title', ''])
    if r.random() < .3:
        f['description'] = r.choice(['d', 'some text'])
    if r.random() < .2:
        f['rdfType'] = 'http://schema.org/Thing'
    if r.random() < .4:
        f['format'] = {'string': r.choice(['default', 'email', 'uri', 'binary', 'uuid']), 'geojson': 'topojson'}.get(t, 'default')
    if t == 'boolean':
        f.update(r.choice([{}, {'trueValues': ['yes', 'Y'], 'falseValues': ['no']}, {'trueValues': ['1'], 'falseValues': ['0', 'x']}, {'trueValues': ['T'], 'falseValues': []}]))
    if t in ('number', 'integer'):
        f.update(r.choice([{}, {'decimalChar': ','}, {'groupChar': ','}, {'decimalChar': ',', 'groupChar': '.'}, {'groupChar': ''}]))
        f.update(r.choice([{}, {}, {'bareNumber': True}]))
    c = {}
    for k in ('required', 'unique'):
        if r.random() < .3:
            c[k] = r.random() < .5
    if t in LENGTH:
        c.update(r.choice([{}, {'minLength': 0}, {'minLength': 2, 'maxLength': 5}, {'maxLength': 3}]))
    if t in RANGE:
        lo, hi = RANGE[t]
        c.update(r.choice([{}, {'minimum': lo}, {'minimum': lo, 'maximum': hi}, {'maximum': hi}]))
    if r.random() < .15:
        c['pattern'] = '[a-z]+'
    if r.random() < .1:
        c['enum'] = ['a', 'b']
    if c or r.random() < .2:
        f['constraints'] = c
    return f


def r_dialect(r):
    d = {}
    for k, f in dict(delimiter=[';', '\t', ','], quoteChar=["'", '"'], doubleQuote=[True, False], skipInitialSpace=[True, False], header=[True, False], commentChar=['#', '%'],
                     lineTerminator=['\n'], caseSensitiveHeader=[False]).items():
        if r.random() < .3:
            d[k] = r.choice(f)
    if r.random() < .4:
        inner = {k: v for k, v in d.items() if k not in ('header', 'commentChar') or r.random() < .3}
        return dict({k: v for k, v in d.items() if k not in inner}, csv=inner)
    return d


def gen(r):
    n = r.randrange(4)
    names = ['r{}'.format(i) for i in range(n)]
    res = []
    for name in names:
        x = {'name': name, 'path': 'data/{}.csv'.format(name) if r.random() < .6 else name + 'x.csv', 'scheme': 'file', 'format': 'csv'}
        if r.random() < .1:
            x['format'] = r.choice(['xlsx', 'json'])
        if r.random() < .05:
            x['scheme'] = 'http'
        if r.random() < .05:
            del x['path']
            x['data'] = []
        if r.random() < .9:
            fields = [r_field(r, c) for c in ['a', 'b', 'c_d', 'E'][:r.choice([1, 2, 3, 4])]]
            s = {'fields': fields}
            fnames = [f['name'] for f in fields]
            if r.random() < .5:
                s['primaryKey'] = r.choice([fnames[0], fnames[:1], fnames[:2], fnames])
            if r.random() < .4:
                s['missingValues'] = r.choice([[], [''], ['', 'NA'], ['-']])
            if r.random() < .6:
                s['foreignKeys'] = [
                    {'fields': r.choice([fnames[0], fnames[-1:], fnames[:2]]), 'reference': {'resource': r.choice([''] + names), 'fields': r.choice(['a', ['a'], ['a', 'b']])}}
                    for _ in range(r.randrange(3))]
            x['schema'] = s
        if r.random() < .6:
            x['dialect'] = r_dialect(r)
        if r.random() < .4:
            x['encoding'] = r.choice(['utf-8', 'latin1'])
        res.append(x)
    known = {x['name'] for x in res if 'path' in x}
    for x in res:       # keys to inline data cannot be converted
        for s in [x.get('schema', {})]:
            if 'foreignKeys' in s:
                s['foreignKeys'] = [fk for fk in s['foreignKeys'] if (fk['reference']['resource'] or x['name']) in known]
    p = {'resources': res}
    for k in ('name', 'id', 'title', 'description', 'homepage'):
        if r.random() < .3:
            p[k] = k + ' x'
    return p, r.randrange(3)


def listed(x):
    return x if isinstance(x, list) else [x]


def f_(name='a', **kw):
    return dict(kw, name=name)


def package(*fields, **kw):
    return {'resources': [dict({'name': 'r', 'path': 'r.csv', 'scheme': 'file', 'format': 'csv', 'schema': {'fields': list(fields)}}, **kw)]}, 0


FIXED = [
    package(f_(type='string', constraints={'required': True})), package(f_(constraints={'required': True, 'maxLength': 3})), package(f_(type='number', bareNumber=True)),
    package(f_(type='integer', constraints={'minimum': 0})), package(f_(type='integer', groupChar=',', constraints={'minimum': 0, 'maximum': 5})),
    package(f_(type='array', constraints={'minLength': 1})), package(f_(type='year', constraints={'minimum': 1990})), package(f_(type='date', constraints={'pattern': '[0-9-]+'})),
    package(f_(type='boolean', constraints={'pattern': 'true|false'})), package(f_(), dialect={'header': False, 'csv': {'delimiter': ';'}}),
    package(*[f_('c{}'.format(i)) for i in range(300)]),
    ({'resources': [{'name': 'r{}'.format(i), 'path': '{}.csv'.format(i), 'scheme': 'file', 'format': 'csv', 'schema': {
        'fields': [f_()], 'foreignKeys': [{'fields': 'a', 'reference': {'resource': 'r{}'.format((i * 7) % 60) if i % 5 else '', 'fields': 'a'}}]}} for i in range(60)]}, 0),
]


def converted(spec, how):
    if how == 0:
        return DataPackage(spec).to_tablegroup()
    if how == 1:
        return DataPackage(json.dumps(spec)).to_tablegroup()
    with tmpdir() as d:
        p = pathlib.Path(d) / 'datapackage.json'
        p.write_text(json.dumps(spec), encoding='utf8')
        return TableGroup.from_frictionless_datapackage(p)


@check('data packages', fixed=FIXED, gen=gen, n=1200)
def packages(case):
    spec, how = case
    given = copy.deepcopy(spec)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        tg = converted(spec, how)
    require(not w, 'warning: {}'.format([str(x.message) for x in w]))
    require(spec == given, 'the package has been changed')
    paths = {x['name']: x['path'] for x in given['resources'] if 'path' in x}
    want = [x for x in given['resources'] if 'path' in x and x['format'] == 'csv' and x['scheme'] == 'file' and x.get('schema')]
    require([str(t.url) for t in tg.tables] == [x['path'] for x in want], 'tables: {}'.format([str(t.url) for t in tg.tables]))
    for x, t in zip(want, tg.tables):
        s, schema = x['schema'], t.tableSchema
        where = x['name'] + ': '
        require([c.name for c in schema.columns] == [f['name'] for f in s['fields']], where + 'columns {}'.format([c.name for c in schema.columns]))
        for f, c in zip(s['fields'], schema.columns):
            column(where + f['name'], f, c)
        require(schema.primaryKey == (listed(s['primaryKey']) if 'primaryKey' in s else None), where + 'primary key {}'.format(schema.primaryKey))
        require(schema.null == s.get('missingValues', ['']), where + 'null {}'.format(schema.null))
        for c in schema.columns:
            require(c.inherit_null() == s.get('missingValues', ['']), where + 'null of a column {}'.format(c.inherit_null()))
        fks = [(fk.columnReference, str(fk.reference.resource), fk.reference.columnReference) for fk in schema.foreignKeys]
        wanted = [(listed(k['fields']), paths[k['reference']['resource'] or x['name']], listed(k['reference']['fields'])) for k in s.get('foreignKeys', [])]
        require(fks == wanted, where + 'foreign keys {} instead of {}'.format(fks, wanted))
        dialect(where, x, t.dialect)


def column(where, f, c):
    t = f.get('type', 'string')
    base = {'binary': 'binary', 'uri': 'anyURI'}.get(f.get('format'), 'string') if t == 'string' and 'type' in f else TYPES[t]
    d, con = c.datatype, f.get('constraints', {})
    require(d.base == base, '{}: {} becomes {}'.format(where, t, d.base))
    require(bool(c.required) == bool(con.get('required')), '{}: required {}'.format(where, c.required))
    for p in ('minLength', 'maxLength'):
        require(getattr(d, p) == (con.get(p) if base in ('string', 'anyURI', 'binary') else None), '{}: {} {}'.format(where, p, getattr(d, p)))
    for p in ('minimum', 'maximum'):
        v = con.get(p) if base in ('number', 'integer', 'date', 'time', 'datetime') else None
        got = getattr(d, p)
        if base in ('date', 'datetime') and v is not None:
            require(str(got).replace(' ', 'T').startswith(v), '{}: {} {}'.format(where, p, got))
        elif base == 'time' and v is not None:
            require(str(got.time()) == v, '{}: {} {}'.format(where, p, got))
        else:
            require(got == v, '{}: {} {}'.format(where, p, got))
    if t == 'boolean' and f.get('trueValues') and f.get('falseValues'):
        require(c.read(f['trueValues'][0]) is True and c.read(f['falseValues'][0]) is False, '{}: tokens {}'.format(where, d.format))
    if t in ('number', 'integer'):
        chars = {p: f[p] for p in ('decimalChar', 'groupChar') if f.get(p)}
        require((d.format or {}) == chars, '{}: format {}'.format(where, d.format))
    if 'title' in f and f['title']:
        require(c.titles.getfirst() == f['title'], '{}: titles {}'.format(where, c.titles))
    if 'rdfType' in f:
        require(str(c.propertyUrl) == f['rdfType'], '{}: propertyUrl'.format(where))


def dialect(where, x, d):
    given = dict(x.get('dialect', {}))
    given.update(given.pop('csv', {}))
    for p, q, default in [('delimiter', 'delimiter', ','), ('quoteChar', 'quoteChar', '"'), ('doubleQuote', 'doubleQuote', True), ('skipInitialSpace', 'skipInitialSpace', False),
                          ('header', 'header', True), ('commentChar', 'commentPrefix', None)]:
        require(getattr(d, q) == given.get(p, default), '{}dialect: {} {!r}'.format(where, q, getattr(d, q)))
    require(d.encoding == x.get('encoding', 'utf-8'), where + 'encoding')
