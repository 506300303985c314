"""C18, bounded: rows written to SQLite, in memory or a file, are read again."""
import pathlib
import sqlite3
import warnings

from csvw.db import Database
from csvw.metadata import TableGroup, Datatype
from bounded.lib import Registry, require, same, tmpdir

check = Registry()

# texts of cells, by datatype
TEXTS = {
    'string': ['a', 'b c', "it's", '\xe9\u4e2d\U0001F600', '0', ' x', 'NULL', 'a`b', '"', '1.0', '--', '\n', 'a\tb'],
    'integer': ['0', '1', '-5', '9007199254740993', '9223372036854775807', '-9223372036854775808'],
    'boolean': ['true', 'false'],
    'decimal': ['0', '1', '0.1', '-2.50', '123456789.123456', '1000000', '0.000001', '0.3', '1e2'.replace('e', '')],
    'hexBinary': ['', 'ab', '00ff10', 'DEADBEEF'],
    'base64Binary': ['YWJj', 'AA==', 'YWJj' * 40],
    'date': ['2018-12-10', '0999-01-02', '9999-12-31'],
    'datetime': ['2018-12-10T20:20:20', '2018-12-10T20:20:20.000001', '2018-12-10T20:20:20+02:00', '2018-12-10T00:00:00Z'],
    'dateTime': ['2018-12-10T20:20:20', '2018-12-10T20:20:20.25-05:30'],
    'dateTimeStamp': ['2018-12-10T20:20:20Z', '2018-12-10T20:20:20.123+01:00'],
    'time': ['20:20:20', '00:00:00', '23:59:59'],
    'double': ['0', '0.1', '-1e-300', '1e22', '3.141592653589793', 'INF', '-INF'],
    'float': ['0.1', '123456789.125'], 'number': ['1', '0.5'],
    'int': ['0', '-7', '2147483647'], 'long': ['9223372036854775807'], 'unsignedLong': ['18446744073709551615', '0'], 'nonNegativeInteger': ['5', '123456789012345678901234567890'],
    'duration': ['P3Y6M4DT12H30M5S', 'PT0S', 'P1D'], 'dayTimeDuration': ['PT5S', 'P2DT1H'], 'yearMonthDuration': ['P1Y2M'],
    'json': ['{}', '[]', '[1, "a", null]', '"x"', '1', 'false', '{"a": {"b": [1.5]}}', '""', '0'],
    'anyURI': ['http://example.org/a?b#c', 'a', '../x', ''], 'NMTOKEN': ['ab.c', 'X-1'], 'normalizedString': ['a b'], 'QName': ['a:b'], 'gYear': ['1990'], 'xml': ['<a/>'],
    'any': ['x', '1'],
}
SEPS = [';', ' ', '||', ',', '|', 'json']


def value(base, t):
    return Datatype.fromvalue(base).parse(t)


def r_cell(r, base, sep):
    """None, or a text, or a list of texts"""
    if r.random() < .15:
        return None
    if sep:
        ts = [t for t in TEXTS[base] if base != 'string' or sep not in t]
        res = [r.choice(ts) for _ in range(r.randrange(4))]
        return [] if base == 'string' and res == [''] else res
    return r.choice(TEXTS[base])


def cell(base, x):
    return None if x is None else [value(base, t) for t in x] if isinstance(x, list) else value(base, x)


def translators(how):
    if how == 0:
        return None
    if how == 1:
        return lambda t, c=None: 'c`' + c if c else 't ' + t
    return lambda t, c=None: '{}__{}'.format(t, c) if c else t.upper()


# ------------------------------------------------------------------ cells
def g_cells(r):
    cols = []
    for i in range(r.choice([1, 2, 3, 5])):
        base = r.choice(list(TEXTS))
        cols.append((['a', 'b c', 'c_d', 'E`', 'group'][i], base, r.choice(SEPS) if r.random() < .35 else None))
    rows = []
    for _ in range(r.choice([0, 1, 2, 3, 8])):
        row = [(n, r_cell(r, b, s)) for n, b, s in cols if r.random() < .9]
        r.shuffle(row)
        rows.append(row)
    return cols, rows, r.randrange(3), r.random() < .2, r.random() < .3


@check('cells', fixed=[([('a', b, s)], [[('a', t)] for t in ts] if not s else [[('a', [t for t in ts if b != 'string' or s not in t])], [('a', [])], [('a', None)]], 0, False, False)
                       for b, ts in TEXTS.items() for s in (None, ';', '|')] + [
    ([('a', 'string', None), ('b', 'integer', None)], [[('a', 'x'), ('b', '1')], [('b', '2'), ('a', 'y')], [('b', '3')], [('a', 'z')]], 0, False, False),
    ([('a', 'string', None), ('b', 'integer', None)], [[('a', str(i)), ('b', str(-i))] if i % 2 else [('b', str(-i)), ('a', str(i))] for i in range(2500)], 0, True, False)],
    gen=g_cells, n=600)
def cells(case):
    cols, rows, how, infile, inherit = case
    descs = []
    for n, b, s in cols:
        d = {'name': n, 'datatype': b} if n.isidentifier() else {'titles': n, 'datatype': b}
        if s:
            d['separator'] = s
        descs.append(d)
    table = {'url': 't', 'tableSchema': {'columns': descs}}
    if inherit and len({(b, s) for _, b, s in cols}) == 1:
        for d in descs:
            for k in ('datatype', 'separator'):
                if k in d:
                    table['tableSchema'][k] = d.pop(k)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tg = TableGroup.fromvalue({'tables': [table]})
        data = [{n: cell(dict((c[0], c[1]) for c in cols)[n], x) for n, x in row} for row in rows]
        tr = translators(how) or Database.name_translator
        with tmpdir() as tmp:
            db = Database(tg, fname=pathlib.Path(str(tmp)) / 'x.sqlite' if infile else None, translate=translators(how))
            try:
                db.write(t=data)
                got = db.read()
            finally:
                if db._connection:
                    db._connection.close()
    want = [{tr('t', n): row.get(n) for n, _, _ in cols} for row in data]
    require(set(got) <= {tr('t')}, 'tables: {}'.format(list(got)))
    got = [dict(row) for row in got.get(tr('t'), [])]
    same(len(got), len(want), 'number of rows')
    for g, w in zip(got, want):
        same(list(g), [tr('t', n) for n, _, _ in cols], 'columns')
        for k in w:
            require(g[k] == w[k] and type(g[k]) is type(w[k]), '{!r}: {!r} became {!r}'.format(k, w[k], g[k]))


# ------------------------------------------------------------------ keys
KEYS = {'string': ['a', 'b', 'a b', '', "x'y", '||', '1', 'x|y'], 'integer': ['0', '1', '7', '-3', '12'], 'decimal': ['0.1', '1', '2.5', '10'], 'boolean': ['true', 'false'],
        'anyURI': ['http://example.org/a', 'b'], 'date': ['2018-12-10', '2019-01-01'], 'int': ['0', '5', '10'], 'hexBinary': ['ab', '00']}


def g_keys(r):
    bp, bq = r.choice(list(KEYS)), r.choice(list(KEYS))
    p = r.sample(KEYS[bp], r.randrange(1, len(KEYS[bp]) + 1))
    q = r.sample(KEYS[bq], r.randrange(1, len(KEYS[bq]) + 1))
    refs = [(k, r.choice(p + [None]), [r.choice(p) for _ in range(r.randrange(4))], [r.choice(p) for _ in range(r.randrange(3))], [r.choice(q) for _ in range(r.randrange(3))]) for k in q]
    return bp, bq, p, refs, r.randrange(3), r.random() < .2, r.random() < .5


@check('keys', fixed=[
    ('integer', 'string', ['0', '1', '7'], [('a b', '1', ['7', '1', '7'], [], ['']), ('', None, [], ['0'], ['a b'])], h, False, False) for h in range(3)] + [
    ('string', 'integer', ['a b', 'c', '||'], [('0', 'c', ['c', 'a b'], ['||', 'c'], ['5']), ('5', 'a b', ['||'], [], ['0', '5'])], h, True, True) for h in range(3)] + [
    ('string', 'string', ['k{}'.format(i) for i in range(40)], [('r{}'.format(i), 'k1', ['k{}'.format((i * j) % 40) for j in range(12)], ['k2', 'k0'], []) for i in range(60)], 0, False, False)],
    gen=g_keys, n=600)
def keys(case):
    """a table, and one that references it by a single key and two lists of keys; and itself by a list"""
    bp, bq, p, refs, how, infile, swapped = case
    fk = lambda c, t: {'columnReference': c, 'reference': {'resource': t, 'columnReference': 'id'}}     # noqa: E731
    tp = {'url': 'p', 'tableSchema': {'columns': [{'name': 'id', 'datatype': bp}], 'primaryKey': 'id'}}
    tq = {'url': 'q', 'tableSchema': {
        'columns': [{'name': 'id', 'datatype': bq}, {'name': 'one', 'datatype': bp}, {'name': 'l1', 'datatype': bp, 'separator': ' '}, {'name': 'l2', 'datatype': bp, 'separator': ';'},
                    {'name': 'me', 'datatype': bq, 'separator': ';'}],
        'primaryKey': 'id', 'foreignKeys': [fk('one', 'p'), fk('l1', 'p'), fk('l2', 'p'), fk('me', 'q')]}}
    tr = translators(how) or Database.name_translator
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tg = TableGroup.fromvalue({'tables': [tq, tp] if swapped else [tp, tq]})
        P = [{'id': value(bp, k)} for k in p]
        Q = [{'id': value(bq, k), 'one': cell(bp, o), 'l1': cell(bp, a), 'l2': cell(bp, b), 'me': cell(bq, m)} for k, o, a, b, m in refs]
        with tmpdir() as tmp:
            db = Database(tg, fname=pathlib.Path(str(tmp)) / 'x.sqlite' if infile else None, translate=translators(how))
            try:
                db.write(p=P, q=[dict(reversed(list(x.items()))) for x in Q] if swapped else Q)
                got = db.read()
            finally:
                if db._connection:
                    db._connection.close()
    for name, want, base in [('p', P, bp), ('q', Q, bq)]:
        g = [dict(x) for x in got[tr(name)]]
        want = [{tr(name, k): v for k, v in x.items()} for x in want]
        if base in ('integer', 'boolean'):   # the order of rows is the one of an integer key
            want = sorted(want, key=lambda x: x[tr(name, 'id')])
        same(g, want, 'rows of ' + name)


# ------------------------------------------------------------------ files, unknown columns
def g_files(r):
    return r.random() < .5, r.random() < .5, r.random() < .5, r.randrange(3)


@check('files and unknown columns', fixed=[(a, b, c, n) for a in (False, True) for b in (False, True) for c in (False, True) for n in range(4)], gen=g_files, n=8)
def files(case):
    exists, force, extra, where = case
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        tg = TableGroup.fromvalue({'tables': [{'url': 't', 'tableSchema': {'columns': [{'name': 'a'}]}}]})
        rows = [{'a': str(i)} for i in range(3)]
        if where < 3:
            rows[where] = (dict({'other': 'x'}, **rows[where]) if where != 1 else dict(rows[where], other='x')) if extra else rows[where]
        with tmpdir() as tmp:
            f = pathlib.Path(str(tmp)) / 'x.sqlite'
            if exists:
                f.write_bytes(b'something')
            try:
                Database(tg, fname=f).write(t=rows, force=force)
                done = True
            except ValueError:
                done = False
            if exists and not force:
                require(not done and f.read_bytes() == b'something', 'an existing file is kept')
                return
            require(done == (where == 3 or not extra), 'unknown columns are refused')
            db = Database(tg, fname=f)
            db.write(t=rows, force=True, _skip_extra=True)
            same([dict(x) for x in db.read()['t']], [{'a': str(i)} for i in range(3)], 'rows')
            conn = sqlite3.connect(str(f))
            same(conn.execute('select count(*) from t').fetchone()[0], 3, 'number of rows')
            conn.close()
