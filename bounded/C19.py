"""C19, bounded: tables converted to JSON, against the facts their cells state."""
import csv
import io
import json
import pathlib
import warnings

from csvw.metadata import CSVW
from bounded.lib import Registry, require, same, tmpdir

check = Registry()


def convert(tables, group=None, plain=False):
    """tables: [(description, text of the CSV file)]; gives the standard and the minimal result, as read from JSON"""
    with tmpdir() as tmp, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        d = pathlib.Path(str(tmp))
        for desc, text in tables:
            (d / desc['url']).write_bytes(text.encode('utf8'))
        if plain:
            url = str(d / tables[0][0]['url'])
            c, c2 = CSVW(url), CSVW(url)
        else:
            md = dict({'@context': 'http://www.w3.org/ns/csvw'}, **(dict(group or {}, tables=[t for t, _ in tables]) if len(tables) > 1 or group is not None else tables[0][0]))
            (d / 'md.json').write_text(json.dumps(md), encoding='utf8')
            url = str(d / 'md.json')
            c, c2 = CSVW(url, md_url=url), CSVW(url, md_url=url)
        std = c.to_json()
        again = c.to_json()
        minimal = c2.to_json(minimal=True)
        std, again, minimal = [json.loads(json.dumps(x)) for x in (std, again, minimal)]
        same(again, std, 'the result of converting again')
        same(std['tables'] and minimal, [o for t in std['tables'] for r in t['row'] for o in r['describes']] if std['tables'] else [], 'minimal mode')
        return std, str(d)


def text_of(rows, **kw):
    out = io.StringIO()
    w = csv.writer(out, lineterminator='\n', **kw)
    w.writerows(rows)
    return out.getvalue()


# ------------------------------------------------------------------ values
D = '2019-02-01'
FORMS = [
    ('string', 'x', 'x'), ('string', 'true', 'true'), ('string', '1', '1'), ('string', '\xe9 "\u4e2d', '\xe9 "\u4e2d'), ('string', 'http://x.org/y', 'http://x.org/y'),
    ('integer', '5', 5), ('integer', '-12', -12), ('integer', '0', 0), ('integer', '123456789012345678901234567890', 123456789012345678901234567890), ('int', '7', 7), ('unsignedByte', '255', 255),
    ('boolean', 'true', True), ('boolean', '0', False), ('decimal', '1.50', 1.5), ('decimal', '-3', -3.0), ('decimal', '0', 0.0), ('double', '1e3', 1000.0), ('double', '0.1', 0.1), ('double', 'NaN', 'NaN'), ('double', 'INF', 'INF'),
    ('double', '-INF', '-INF'), ('float', '2.5', 2.5), ('number', '3', 3.0),
    ('date', D, D), ('date', D + 'Z', D + 'Z'), ('date', D + '+01:00', D + '+01:00'), ('date', D + '-10:30', D + '-10:30'),
    ('time', '10:00:00', '10:00:00'), ('time', '10:20:30', '10:20:30'), ('dateTime', D + 'T10:00:00', D + 'T10:00:00'), ('dateTime', D + 'T10:20:30.500', D + 'T10:20:30.5'), ('dateTime', D + 'T10:20:30.000', D + 'T10:20:30'),
    ('dateTime', D + 'T10:20:30.102030', D + 'T10:20:30.10203'), ('dateTime', D + 'T10:20:30Z', D + 'T10:20:30Z'), ('dateTime', D + 'T10:20:30.25Z', D + 'T10:20:30.25Z'),
    ('dateTime', D + 'T10:20:30.5+01:00', D + 'T10:20:30.5+01:00'), ('dateTime', D + 'T10:20:30.050-10:00', D + 'T10:20:30.05-10:00'), ('dateTime', D + 'T10:20:30+10:00', D + 'T10:20:30+10:00'),
    ('dateTime', D + 'T10:20:30.101101', D + 'T10:20:30.101101'), ('dateTime', D + 'T10:20:30.001Z', D + 'T10:20:30.001Z'), ('dateTime', D + 'T10:20:30.100100-10:00', D + 'T10:20:30.1001-10:00'), ('dateTime', D + 'T00:00:00.000001', D + 'T00:00:00.000001'),
    ('dateTimeStamp', D + 'T10:20:30.1Z', D + 'T10:20:30.1Z'), ('datetime', D + 'T00:00:00', D + 'T00:00:00'),
    ('duration', 'P1DT2H', 'P1DT2H'), ('duration', 'P1Y2M', 'P1Y2M'), ('dayTimeDuration', 'PT5S', 'PT5S'), ('hexBinary', '00ff', '00FF'), ('base64Binary', 'YWJj', 'YWJj'),
    ('anyURI', 'http://x.org/a?b#c', 'http://x.org/a?b#c'), ('anyURI', 'rel/x', 'rel/x'), ('gYear', '1990', '1990'), ('NMTOKEN', 'a.b', 'a.b'), ('any', 'x', 'x'),
    ('json', '{"a": [1, null, {"b": "c"}]}', {'a': [1, None, {'b': 'c'}]}), ('json', '[1, "a", 2.5]', [1, 'a', 2.5]), ('json', '"s"', 's'), ('json', '1.5', 1.5), ('json', 'false', False), ('json', '{}', {}), ('json', '[]', []), ('json', '""', ''), ('json', 'true', True), ('json', '0', 0),
]


def g_values(r):
    t = r.choice([f[0] for f in FORMS])
    idx = [i for i, f in enumerate(FORMS) if f[0] == t]
    sep = None if t == 'json' else r.choice([None, '|'])
    return [r.choice(idx) for _ in range(r.choice([1, 2, 3]) if sep else 1)], sep, r.randrange(4), r.randrange(3)


@check('values', fixed=[([i], s, where, subj) for i in range(len(FORMS)) for where in range(3) for subj in range(3) for s in (None, '|') if not (s and FORMS[i][0] == 'json')], gen=g_values, n=300)
def values(case):
    """one cell in JSON form; the datatype is one of the column, the schema, the table or group; the subject none, one of the row, one of the cell"""
    idx, sep, where, subj = case
    base = FORMS[idx[0]][0]
    col, schema, table, group = {'name': 'a'}, {}, {'url': 'x.csv'}, {}
    place = [col, schema, table, group][where]
    place['datatype'] = base
    if sep:
        place['separator'] = sep
    if subj == 1:
        schema['aboutUrl'] = 'http://s.org/{_row}'
    elif subj == 2:
        col['aboutUrl'] = 'http://s.org/{_row}'
    schema['columns'] = [col]
    table['tableSchema'] = schema
    res, _ = convert([(table, text_of([['a'], [(sep or '').join(FORMS[i][1] for i in idx)]]))], group=group if where == 3 else None)
    o, = res['tables'][0]['row'][0]['describes']
    want = {'a': [FORMS[i][2] for i in idx] if sep else FORMS[idx[0]][2]}
    if subj:
        want['@id'] = 'http://s.org/1'
    require(repr(sorted(o.items())) == repr(sorted(want.items())), 'got {!r}, expected {!r}'.format(o, want))


# ------------------------------------------------------------------ rows
ABOUT = [None, None, None, 'http://s.org/1', 'http://s.org/2', 'http://s.org/{id}', 'http://s.org/r{_row}', 'http://s.org/{_name}']
PROPS = [None, None, None, 'http://p.org/x', 'http://p.org/{_name}', 'schema:name', 'schema:{_name}', 'http://schema.org/{_name}', 'rdf:type']
VALUE = [None] * 8 + ['http://s.org/1', 'http://s.org/2', 'http://v.org/{_name}/{id}', 'http://s.org/r{_row}', 'schema:Thing']
CELLS = ['x', 'y', '', 'NA', 'x;y', 'http://s.org/1', 'http://s.org/2', '0', 'http://s.org/r1', 'x;x;y', ';', 'true']


def expand(t, row, rownum, name):
    t = t.replace('{id}', row[0]).replace('{_row}', str(rownum)).replace('{_name}', name)
    return t.replace('schema:', 'http://schema.org/') if t.startswith('schema:') else t


def facts(cols, about, row, rownum):
    """(subject, property, value) of all cells"""
    res = []
    for (name, c), text in zip(cols, row + [None] * len(cols)):
        if c.get('suppressOutput'):
            continue
        if c.get('virtual'):
            if 'valueUrl' not in c:
                continue
            v = None
        else:
            null = c.get('null', '')
            if 'separator' in c:
                v = [None if i == null else i for i in text.split(c['separator'])] if text not in ('', null) else None
            else:
                v = None if text == null else text
            if v is None:
                continue
        if 'valueUrl' in c:
            v = expand(c['valueUrl'], row, rownum, name)
        p = c.get('propertyUrl')
        p = (p if p == 'rdf:type' else expand(p, row, rownum, name).replace('http://schema.org/', 'schema:')) if p else name
        if p == 'rdf:type' and 'valueUrl' in c:
            v = v.replace('http://schema.org/', 'schema:')
        s = c.get('aboutUrl')
        res.append((expand(s, row, rownum, name) if s else about and expand(about, row, rownum, ''), p, v))
    return res


def flat(v):
    return [x for i in v for x in flat(i)] if isinstance(v, list) else [v]


def judge(objects, want, rowid):
    """the objects state these facts, each once"""
    got, ids = {}, []

    def walk(o, outer=None):
        s = o.get('@id')
        if s is not None:
            require(s not in ids, '{} is described twice: {}'.format(s, objects))
            ids.append(s)
        for k, v in o.items():
            if k == '@id':
                continue
            both = '@type' in o and 'rdf:type' in o     # the type may be given under both names
            k = 'rdf:type' if k == '@type' else k
            require((s, k) not in got or (both and k == 'rdf:type'), 'property {} of {} is given twice'.format(k, s))
            vals = []
            for x in v if isinstance(v, list) else [v]:
                if isinstance(x, dict):
                    require('@id' in x, 'object {}'.format(x))
                    walk(x)
                    x = x['@id']
                vals.append(x)
            if (s, k) in got:
                vals, v = vals + (got[s, k] if isinstance(got[s, k], list) else [got[s, k]]), []
            got[s, k] = vals if isinstance(v, list) else vals[0]
    for o in objects:
        walk(o)
    refs = {(s, p, v) for s, p, v in want if s is not None and isinstance(v, str)}
    none = [f for f in want if f[0] is None]
    subjects = {f[0] for f in want if f[0] is not None}
    if none and len(objects) == 1 and objects[0].get('@id') is not None:
        want = [(objects[0]['@id'] if s is None else s, p, v) for s, p, v in want]
    if rowid:
        require(rowid in ids, '{} is described'.format(rowid))
    require(set(ids) == subjects | ({rowid} if rowid else set()), 'subjects: {} instead of {}'.format(ids, subjects))
    # objects which a single property of a single subject refers to are nested there, but not in circles
    refs = {f for f in refs if f[2] in ids}

    def tree(o):
        return ([o['@id']] if '@id' in o else []) + [i for k, v in o.items() for x in (v if isinstance(v, list) else [v]) if isinstance(x, dict) for i in tree(x)]
    for o in objects:
        t = tree(o)
        for s in t['@id' in o:]:
            require(len([1 for r in refs if r[2] == s]) == 1, '{} is nested, but referred to from {}'.format(s, refs))
        if '@id' in o:
            to = [r for r in refs if r[2] == o['@id']]
            require(len(to) != 1 or to[0][0] in t, '{} is not nested, but referred to from {}'.format(o['@id'], to))
    exp = {}
    for s, p, v in want:
        exp.setdefault((s, p), []).append(v)
    same(sorted(got, key=repr), sorted(exp, key=repr), 'properties')
    for k, vs in exp.items():
        g = got[k]
        if len(vs) == 1:
            require(g == vs[0], '{}: {!r} instead of {!r}'.format(k, g, vs[0]))
            continue
        key = lambda x: (x is not None, str(x))     # noqa: E731
        once = [v for i, v in enumerate(vs) if v not in vs[:i]]     # RDF is a set
        require(sorted(flat(g), key=key) in [sorted(flat(x), key=key) for x in ([vs, once] if k[0] else [vs])], '{}: {!r} instead of {!r}'.format(k, g, vs))


def g_rows(r):
    cols = [('id', {})]
    subjects = r.random() < .6
    for i in range(r.choice([1, 2, 3, 4])):
        c = {}
        if r.random() < .2:
            c['suppressOutput'] = True
        for k, vs, p in [('aboutUrl', ABOUT, .8 * subjects), ('propertyUrl', PROPS, .5), ('valueUrl', VALUE, .5)]:
            v = r.choice(vs)
            if v and r.random() < p:
                c[k] = v
        if r.random() < .25:
            c['separator'] = ';'
        if r.random() < .2:
            c['null'] = 'NA'
        cols.append(('c%d' % i, c))
    for i in range(r.choice([0, 0, 1, 2])):
        c = {'virtual': True}
        for k, vs, p in [('aboutUrl', ABOUT, .8 * subjects), ('propertyUrl', PROPS, .8), ('valueUrl', VALUE, 1)]:
            v = r.choice(vs)
            if v and r.random() < p:
                c[k] = v
        if r.random() < .2:
            c['suppressOutput'] = True
        cols.append(('v%d' % i, c))
    n = len([1 for _, c in cols if 'virtual' not in c])
    rows = [[r.choice(['a', 'b', 'c1'])] + [r.choice(CELLS) for _ in range(n - 1)] for _ in range(r.choice([0, 1, 2, 4]))]
    return cols, r.choice(ABOUT), rows, r.random() < .3, r.choice([0, 0, 1, 3])


S1, S2 = {'aboutUrl': 'http://s.org/1'}, {'aboutUrl': 'http://s.org/2'}


@check('rows', fixed=[
    ([('id', {}), ('a', S1), ('b', S2)], None, [['a', 'x', 'y']], False, 0), ([('id', {}), ('a', S1)], None, [['a', 'http://s.org/1']], False, 0),
    ([('id', {}), ('a', S1), ('b', S2)], None, [['a', 'http://s.org/2', 'http://s.org/1']], False, 0), ([('id', {}), ('a', S1), ('b', S2)], 'http://s.org/1', [['a', 'http://s.org/2', 'z']], False, 0),
    ([('id', {}), ('a', dict(S1, separator=';', propertyUrl='http://p.org/x')), ('b', dict(S2, separator=';', propertyUrl='http://p.org/x'))], None, [['a', 'x;y', 'z']], False, 0),
    ([('id', {}), ('a', dict(separator=';', propertyUrl='http://p.org/x')), ('b', dict(propertyUrl='http://p.org/x')), ('c', dict(S2, propertyUrl='http://p.org/x')), ('d', dict(S2, separator=';', propertyUrl='http://p.org/x'))], 'http://s.org/1', [['a', 'x;y', 'z', 'u', 'v;w'], ['a', 'x', 'x', 'x', 'x']], False, 0),
    ([('id', {}), ('a', {'separator': ';'})], None, [['a', '']], True, 0), ([('id', {}), ('v', {'virtual': True, 'suppressOutput': True, 'valueUrl': 'http://s.org/1'})], None, [['a']], False, 0),
    ([('id', {}), ('v', {'virtual': True})], None, [['a']], False, 0), ([('id', {'propertyUrl': 'http://p.org/x'}), ('a', dict(S1, propertyUrl='http://p.org/x'))], None, [['a', 'y']], False, 0),
    ([('id', {}), ('a', {'null': 'NA'})], None, [['a', ''], ['b', 'NA']], False, 0), ([('id', {})], None, [['r%d' % i] for i in range(1500)], False, 1)], gen=g_rows, n=900)
def rows_(case):
    cols, about, rows, inherit, comments = case
    descs = [dict(c, name=n) for n, c in cols]
    schema = {'columns': descs}
    if about:
        schema['aboutUrl'] = about
    if inherit:     # what all columns have is inherited instead
        for k in ('separator', 'propertyUrl', 'null'):
            if len({repr(c.get(k)) for _, c in cols[1:] if 'virtual' not in c}) == 1 and not any('virtual' in c for _, c in cols) and k in cols[-1][1] and k not in cols[0][1]:
                if k == 'separator' or k == 'null':
                    schema[k] = cols[-1][1][k]
                    cols = [(n, dict(c, **{k: schema[k]})) for n, c in cols]
                    for c in descs:
                        c.pop(k, None)
    table = {'url': 'x.csv', 'tableSchema': schema}
    lines = [[n for n, c in cols if 'virtual' not in c]] + rows
    text = text_of(lines)
    if comments:
        table['dialect'] = {'commentPrefix': '#', 'skipRows': 0}
        parts = text.split('\n')
        text = '\n'.join(parts[:1] + ['#c'] * comments + parts[1:])
    res, base = convert([(table, text)])
    t, = res['tables']
    same(len(t['row']), len(rows), 'number of rows')
    for i, (row, o) in enumerate(zip(rows, t['row']), start=1):
        same(o['rownum'], i, 'row number')
        same(o['url'], '{}/x.csv#row={}'.format(base, i + 1 + comments), 'URL')
        judge(o['describes'], facts(cols, about, row, i), expand(about, row, i, '') if about else None)


# ------------------------------------------------------------------ tables
def g_tables(r):
    return [(r.random() < .3, r.randrange(4), r.choice([0, 1, 2])) for _ in range(r.choice([1, 2, 3, 4]))], r.random() < .5


@check('tables', fixed=[([(False, 2, 0), (True, 1, 0), (False, 3, 0)], False), ([(True, 2, 0)], True)], gen=g_tables, n=120)
def tables(case):
    """tables with rows; suppressed ones; with columns that are not described"""
    specs, about = case
    ts = []
    for i, (suppress, n, more) in enumerate(specs):
        t = {'url': 't%d.csv' % i, 'tableSchema': {'columns': [{'name': 'a'}]}}
        if about:
            t['tableSchema']['aboutUrl'] = 'http://s.org/{a}'
        if suppress:
            t['suppressOutput'] = True
        rows = [['r%d-%d' % (i, j)] + ['m%d' % k for k in range(more)] for j in range(n)]
        ts.append((t, text_of([['a'] + ['c%d' % k for k in range(more)]] + rows)))
    res, base = convert(ts, group={})
    same([t['url'] for t in res['tables']], ['{}/t{}.csv'.format(base, i) for i, s in enumerate(specs) if not s[0]], 'tables')
    for t, (i, (_, n, more)) in zip(res['tables'], [(i, s) for i, s in enumerate(specs) if not s[0]]):
        want = []
        for j in range(n):
            o = {'a': 'r%d-%d' % (i, j)}
            if about:
                o['@id'] = 'http://s.org/' + o['a']
            o.update({'_col.%d' % (k + 2): 'm%d' % k for k in range(more)})
            want.append([o])
        same([r['describes'] for r in t['row']], want, 'rows of table {}'.format(i))


@check('plain files', fixed=[(['a', 'b'], [['1', '2'], ['', 'x'], ['', '']]), (['x y', 'a'], [])], gen=lambda r: (r.sample(['a', 'b', 'c d', 'e'], 3), [[r.choice(CELLS) for _ in range(3)] for _ in range(r.randrange(5))]), n=80)
def plain(case):
    header, rows = case
    res, base = convert([({'url': 'x.csv'}, text_of([header] + rows))], plain=True)
    t, = res['tables']
    same([r['describes'] for r in t['row']], [[{h: v for h, v in zip(header, row) if v}] for row in rows], 'rows')
    same([r['rownum'] for r in t['row']], list(range(1, len(rows) + 1)), 'numbers')


@check('columns without description', fixed=[(3, [['1', '', '3'], ['', '', 'x'], ['', 'y', '']], None), (2, [['', 'a']], 'http://s.org/{_row}'), (3, [], None)],
       gen=lambda r: (3, [[r.choice(CELLS) for _ in range(3)] for _ in range(r.randrange(4))], r.choice([None, 'http://s.org/{_row}'])), n=60)
def undescribed(case):
    """without columns in the metadata, properties are named by the position of the cell"""
    n, rows, about = case
    schema = {'columns': []}
    if about:
        schema['aboutUrl'] = about
    res, _ = convert([({'url': 'x.csv', 'tableSchema': schema}, text_of([['abc'[i] for i in range(n)]] + rows))])
    t, = res['tables']
    want = [[dict({'_col.%d' % i: v for i, v in enumerate(row, start=1) if v}, **({'@id': 'http://s.org/%d' % k} if about else {}))] for k, row in enumerate(rows, start=1)]
    same([r['describes'] for r in t['row']], want, 'rows')


# ------------------------------------------------------------------ details
NAMES = ['a', 'self', 'var_dict', 'row', 'name', 'tmpl', 'uri', 'qname', 'kwargs', 'link', 'template', 'cls', 'class', 'x.y', 'x_y', 'A']


@check('names in templates', fixed=[(n, k) for n in NAMES for k in range(4)], gen=lambda r: (r.choice(NAMES), r.randrange(4)), n=10)
def names(case):
    """a template refers to a column of any name"""
    n, k = case
    cols = [{'name': 'id'}, {'name': n}]
    schema = {'columns': cols}
    if k == 0:
        schema['aboutUrl'] = 'http://s.org/{%s}' % n
    else:
        cols[0][['', 'aboutUrl', 'propertyUrl', 'valueUrl'][k]] = 'http://s.org/{%s}' % n
    res, _ = convert([({'url': 'x.csv', 'tableSchema': schema}, text_of([['id', n], ['i', 'v']]))])
    v = 'http://s.org/v'
    want = [[{'@id': v, 'id': 'i', n: 'v'}], [{'@id': v, 'id': 'i', n: 'v'}], [{v: 'i', n: 'v'}], [{'id': v, n: 'v'}]][k]
    key = lambda o: sorted(o.items())       # noqa: E731
    same(sorted(res['tables'][0]['row'][0]['describes'], key=key), sorted(want, key=key), 'objects')


JS = ['""', '"NA"', '"x"', 'null', '[]', '{}', '0', 'false', '[null]', '{"a": null}', '[""]', '["NA"]', 'NA', '']


@check('JSON cells and null values', fixed=[(t, null) for t in JS for null in (None, 'NA', ['NA', 'x'])], gen=lambda r: (r.choice(JS), r.choice([None, 'NA', ['NA', '']])), n=10)
def json_cells(case):
    """a JSON value is only null when its text is"""
    text, null = case
    nulls = [''] if null is None else null if isinstance(null, list) else [null]
    if text == 'null' or (text in ('NA', '') and text not in nulls):
        return      # null or an error
    col = {'name': 'j', 'datatype': 'json'}
    if null is not None:
        col['null'] = null
    res, _ = convert([({'url': 'x.csv', 'tableSchema': {'columns': [{'name': 'id'}, col]}}, text_of([['id', 'j'], ['i', text]]))])
    want = {'id': 'i'}
    if text not in nulls:
        want['j'] = json.loads(text)
    same(res['tables'][0]['row'][0]['describes'], [want], 'objects')


URLS = ['http://schema.org/', 'http://xmlns.com/foaf/0.1/', 'http://www.w3.org/ns/csvw#', 'http://www.w3.org/1999/02/22-rdf-syntax-ns#']
PREFIX = ['schema', 'foaf', 'csvw', 'rdf']


@check('abbreviated properties', fixed=[(i, local) for i in range(4) for local in ['x', 'r?u=http://schema.org/x', 'a:b', 'x/y', 'http://xmlns.com/foaf/0.1/z', 'schema:x']], gen=lambda r: (r.randrange(4), ''.join(r.choice(['a', '/', ':', 'http://schema.org/', '#', '?u=']) for _ in range(4)) + 'x'), n=40)
def abbreviated(case):
    i, local = case
    res, _ = convert([({'url': 'x.csv', 'tableSchema': {'columns': [{'name': 'a', 'propertyUrl': URLS[i] + local}]}}, text_of([['a'], ['v']]))])
    o, = res['tables'][0]['row'][0]['describes']
    (k, v), = o.items()
    require(v == 'v' and k in (PREFIX[i] + ':' + local, URLS[i] + local), 'got {}'.format(o))


# ------------------------------------------------------------------ annotations
NOTES = ['x', 5, True, ['a', 'b'], {'@value': 'v', '@language': 'en'}, {'@id': 'http://x.org/1'}, {'dc:x': 'y', 'dc:z': {'@value': 1, '@type': 'xsd:integer'}},
         [{'@value': 'p', '@language': 'de'}, 'q'], {'@id': 'http://x.org/2', 'dc:x': ['a', {'@id': 'http://x.org/3'}]}]


def simplified(x):
    if isinstance(x, dict):
        return x['@value'] if '@value' in x else x['@id'] if set(x) == {'@id'} else {k: simplified(v) for k, v in x.items()}
    return [simplified(v) for v in x] if isinstance(x, list) else x


def gen_notes(r):
    props = lambda: {k: r.choice(NOTES) for k in r.sample(['dc:title', 'dc:creator', 'schema:name', 'http://x.org/p'], r.choice([0, 1, 2]))}  # noqa: E731
    return (r.random() < 0.6, props(), [(props(), r.choice([None, None, 'http://x.org/t']), r.choice([None, None, [{'dc:x': 'n'}], ['a', {'@value': 'b'}]]),
                                         r.choice([[], ['a'], ['a', 'b'], ['b', 'a']]), r.choice([0, 0, 1, 2]),
                                         [[r.choice(['x', 'y', '']), r.choice(['u', '', 'v w'])] for _ in range(r.choice([1, 2, 3]))])
                                        for _ in range(r.choice([1, 1, 2]))])


@check('annotations', gen=gen_notes, n=150, fixed=[
    (True, {'dc:title': 'g', 'dc:creator': ['a', 'b']}, [({'dc:title': 't'}, 'http://x.org/t', ['n'], ['a'], 1, [['x', 'y'], ['', 'z']]), ({}, None, None, ['a', 'b'], 0, [['x', 'y'], ['x', ''], ['', '']])]),
    (False, {}, [({'dc:title': {'@value': 't', '@language': 'en'}}, 'http://x.org/t', [{'@value': 'n'}], ['b'], 2, [['x', 'y']])])])
def annotations(case):
    """annotations of groups, tables and rows"""
    grouped, gprops, specs = case
    grouped = grouped or len(specs) > 1
    ts = []
    for i, (props, id_, notes, titles, ncomm, rows) in enumerate(specs):
        t = dict({'url': 't%d.csv' % i, 'tableSchema': {'columns': [{'name': 'a'}, {'name': 'b'}]}}, **props)
        if id_:
            t['@id'] = id_
        if notes:
            t['notes'] = notes
        if titles:
            t['tableSchema']['rowTitles'] = titles
        if ncomm:
            t['dialect'] = {'commentPrefix': '#'}
        ts.append((t, ''.join('#comment %d\n' % k for k in range(ncomm)) + text_of([['a', 'b']] + rows)))
    res, base = convert(ts, group=gprops if grouped else None)
    same({k: v for k, v in res.items() if k != 'tables'}, {k: simplified(v) for k, v in gprops.items()} if grouped else {}, 'annotations of the group')
    for i, (t, (props, id_, notes, titles, ncomm, rows)) in enumerate(zip(res['tables'], specs)):
        want = dict({'url': '{}/t{}.csv'.format(base, i)}, **{k: simplified(v) for k, v in props.items()})
        if id_:
            want['@id'] = id_
        if notes:
            want['notes'] = simplified(notes)
        got = {k: v for k, v in t.items() if k != 'row'}
        comments = got.pop('rdfs:comment', [])
        same(got, want, 'annotations of table {}'.format(i))
        same([c.strip() for c in comments], ['comment %d' % k for k in range(ncomm)], 'comments')
        for r, cells in zip(t['row'], rows):
            names = [x for x in (dict(zip('ab', cells))[n] for n in titles) if x]
            if len(names) == 1:
                same(r['titles'], names[0], 'the title of a row')
            elif names:
                same(r['titles'], names, 'the titles of a row')
            else:
                require(not r.get('titles'), 'a row has a title: {}', r)
