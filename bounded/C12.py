"""C12, bounded: Table.write with generated schemas, dialects and items, the file read back with the csv module."""
import csv
import io
import os
import pathlib

from csvw import TableGroup
from bounded.lib import Registry, require, same, tmpdir
from bounded.tables import outcome, table

check = Registry()
VALUES = {'string': ['x', '', 'a b', 'ä', '1', 'a"b', 'l1\nl2', 'a,b;c', None, "'"], 'integer': [1, 0, -5, None, 10**20],
          'boolean': [True, False, None], 'list': [[], ['x'], ['x', None, 'y'], None, ['', 'z']]}


def text(kind, v, null):
    if kind == 'list':
        return '~'.join(null if x is None else x for x in (v or []))
    if v is None:
        return null
    return {'boolean': lambda: 'true' if v else 'false'}.get(kind, lambda: str(v))()


def gen(r):
    cols = []
    for n in ['a', 'b', 'c', 'd'][:r.randint(1, 4)]:
        kind = r.choice(['string', 'string', 'integer', 'boolean', 'list'])
        null = r.choice(['', '', 'NA', '-'])
        cols.append((n, kind, null, r.random() < 0.2))
    r.shuffle(cols)
    dialect = {'header': r.random() < 0.75}
    if r.random() < 0.4:
        dialect['delimiter'] = r.choice(['\t', ';', '|'])
    if r.random() < 0.3:
        dialect['quoteChar'] = "'"
    if r.random() < 0.2:
        dialect['lineTerminators'] = '\n'
    if r.random() < 0.2:
        dialect['encoding'] = r.choice(['latin-1', 'utf-16'])
    items = []
    for _ in range(r.choice([0, 1, 2, 3, 6])):
        vals = {n: r.choice(VALUES[k]) for n, k, _, _ in cols}
        kind = r.random()
        if kind < 0.3:
            items.append([vals[n] for n, _, _, _ in cols])
        elif kind < 0.4:
            items.append(tuple(vals[n] for n, _, _, _ in cols))
        else:
            names = [n for n in vals if r.random() < 0.85]
            r.shuffle(names)
            d = {n: vals[n] for n in names}
            if r.random() < 0.1:
                d['zz'] = 1
            items.append(d)
    return cols, r.randint(0, 2), dialect, items, r.random() < 0.4, r.choice(['default', 'base', 'path', 'str', 'memory', 'zip']), r.random() < 0.5


@check('Table.write', gen=gen, n=1200)
def write(x):
    cols, nvirt, dialect, items, strict, target, iterator = x
    schema = {'columns': [dict({'name': n, 'null': null}, **({'separator': '~'} if k == 'list' else {} if k == 'string' else {'datatype': k}),
                               **({'titles': 'The ' + n} if titled else {})) for n, k, null, titled in cols] + [
        {'name': 'v%d' % k, 'virtual': True, 'valueUrl': 'http://example.org'} for k in range(nvirt)]}
    with tmpdir() as d:
        t = table(d, schema, None, dialect=dialect)
        os.mkdir(os.path.join(d, 'sub'))
        kw = {'strict': True} if strict else {}
        path = os.path.join(d, 't.csv')
        if target == 'base':
            kw['base'] = os.path.join(d, 'sub')
            path = os.path.join(d, 'sub', 't.csv')
        elif target in ('path', 'str'):
            path = os.path.join(d, 'other.csv')
            kw['fname'] = pathlib.Path(path) if target == 'path' else path
        elif target == 'memory':
            kw['fname'] = None
        elif target == 'zip':
            kw['_zipped'] = True
        got = outcome(t.write, iter(items) if iterator else items, **kw)
        if strict and any(isinstance(i, dict) and 'zz' in i for i in items):
            same(got[0], 'ValueError', 'outcome with an unknown key')
            return
        same(got[0], 'ok', 'outcome')
        enc = dialect.get('encoding', 'utf-8')
        if target == 'memory':
            content = got[1].decode('utf-8')
        else:
            same(got[1], len(items), 'returned number of rows')
            if target != 'zip':
                with open(path, encoding=enc, newline='') as f:
                    content = f.read()
        expected = [[n for n, _, _, _ in cols]] if dialect['header'] else []
        for i in items:
            expected.append([text(k, i.get(n) if isinstance(i, dict) else i[j], null) for j, (n, k, null, _) in enumerate(cols)])
        if target == 'zip':
            require(os.path.exists(path + '.zip') and not os.path.exists(path), 'the file is not zipped')
            zipped = outcome(lambda: list(t.iterdicts(strict=False)))
            same(t.write(items) if not iterator else t.write(iter(items)), len(items), 'number of rows')
            os.remove(path + '.zip')
            same(zipped[:2], outcome(lambda: list(t.iterdicts(strict=False)))[:2], 'rows read from the zipped and the plain file')
            with open(path, encoding=enc, newline='') as f:
                content = f.read()
        rows = list(csv.reader(io.StringIO(content, newline=''), delimiter=dialect.get('delimiter', ','), quotechar=dialect.get('quoteChar', '"')))
        same(rows, expected, 'rows in the file')


def gen_group(r):
    tables = []
    for i in range(r.choice([1, 2, 3])):
        cols = ['c%d' % k for k in range(r.choice([1, 2, 3]))]
        tables.append((r.choice(['t%d.csv', 'x%d', 'dir.%d.txt']) % i, cols,
                       [[r.choice(['x', 'a b', 'ä', '1', 'a,"b', '-']) for _ in cols] for _ in range(r.choice([0, 1, 2, 30]))]))
    return tables, r.random() < 0.5, r.random() < 0.5, r.random() < 0.3, r.random() < 0.3


@check('TableGroup.write', gen=gen_group, n=150)
def group(x):
    tables, zipped, dicts, some, strict = x
    written = tables[:1] if some else tables
    with tmpdir() as d:
        tg = TableGroup.fromvalue({'@context': 'http://www.w3.org/ns/csvw', 'tables': [
            {'url': u, 'tableSchema': {'columns': [{'name': c} for c in cols]}} for u, cols, _ in tables]})
        md = os.path.join(d, 'md.json')
        last = tg.tables.pop()      # a group that was used before its last table was added
        require(last.local_name not in tg.tabledict, 'removed table')
        tg.tables.append(last)
        tg.write(md, **dict({'_zipped': True} if zipped else {}, **({'strict': True} if strict else {}), **{
            u: [dict(zip(cols, r)) for r in rows] if dicts else rows for u, cols, rows in written}))
        same(sorted(os.listdir(d)), sorted(['md.json'] + [u + '.zip' * zipped for u, _, _ in written]), 'files')
        got = TableGroup.from_file(md)
        same(list(got.tabledict), [u for u, _, _ in tables], 'tables')
        for u, cols, rows in written:
            same([dict(r) for r in got.tabledict[u]], [dict(zip(cols, r)) for r in rows], 'rows of ' + u)
        if strict and dicts and written[0][2]:
            same(outcome(lambda: tg.write(md, strict=True, **{tables[0][0]: [{'zz': '1'}]}))[0], 'ValueError', 'unknown key')
