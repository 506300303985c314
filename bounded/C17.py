"""C17, bounded: the SQL schema of table groups, as SQLite understands it."""
import sqlite3
import warnings

from csvw.db import Database, schema
from csvw.metadata import TableGroup
from bounded.lib import Registry, require, same

check = Registry()

NAMES = ['a', 'b', 'c_d', 'E']
TITLES = ['x y', "it's", 'a`b', 'select', '"q"', '\xe9']


def tables_of(edges, n, extra=None):
    """n tables t0.. with id and a column for each of the edges (i, j, kind): kind 0 plain, 1 list-valued"""
    ts = [{'url': 't{}'.format(i), 'tableSchema': {'columns': [{'name': 'id'}], 'primaryKey': 'id', 'foreignKeys': []}} for i in range(n)]
    for k, (i, j, kind) in enumerate(edges):
        c = {'name': 'r{}'.format(k)}
        if kind:
            c['separator'] = ';'
        ts[i]['tableSchema']['columns'].append(c)
        ts[i]['tableSchema']['foreignKeys'].append({'columnReference': c['name'], 'reference': {'resource': 't{}'.format(j), 'columnReference': 'id'}})
    return ts


def cyclic(edges, n):
    """is there a cycle, other than a table which references itself?"""
    out = {i: {j for a, j, kind in edges if a == i and not kind and j != i} for i in range(n)}
    state = {}

    def visit(i):
        stack = [(i, iter(out[i]))]
        state[i] = 1
        while stack:
            k, it = stack[-1]
            for j in it:
                if state.get(j) == 1:
                    return True
                if j not in state:
                    state[j] = 1
                    stack.append((j, iter(out[j])))
                    break
            else:
                state[k] = 2
                stack.pop()
        return False
    return any(visit(i) for i in range(n) if i not in state)


def g_order(r):
    n = r.choice([1, 2, 3, 4, 5, 8]) if r.random() < .97 else 130
    perm = list(range(n))
    r.shuffle(perm)
    edges = []
    for _ in range(r.randrange(2 * n + 1)):
        i, j = r.randrange(n), r.randrange(n)
        if r.random() < .85 and perm[i] < perm[j]:
            i, j = j, i
        edges.append((i, j, int(r.random() < .2)))
    return edges, n, r.random() < .5


@check('order of tables', fixed=[
    ([(i + 1, i, 0) for i in range(149)], 150, True), ([(i, i + 1, 0) for i in range(119)], 120, True), ([(0, 1, 0), (1, 0, 0)], 2, True), ([(0, 0, 0)], 1, False), ([], 300, True),
    ([(0, 1, 1), (1, 0, 1)], 2, True), ([(i, 0, 1) for i in range(1, 80)], 80, False), ([(i, (i + 1) % 101, 0) for i in range(101)], 101, True)], gen=g_order, n=600)
def order(case):
    edges, n, drop = case
    tg = TableGroup.fromvalue({'tables': tables_of(edges, n)})
    if cyclic(edges, n):
        try:
            schema(tg, drop_self_referential_fks=drop)
        except ValueError:
            return
        require(False, 'a cycle is refused')
    specs = schema(tg, drop_self_referential_fks=drop)
    names = [s.name for s in specs]
    want = {'t{}'.format(i) for i in range(n)} | {'t{}_t{}'.format(i, j) for i, j, kind in edges if kind}
    require(sorted(names) == sorted(want), 'every table once: {} {}'.format(names, want))
    seen = set()
    for s in specs:
        refs = {ref for _, ref, _ in s.foreign_keys}
        seen.add(s.name)
        require(refs <= seen, '{} is created before {}'.format(s.name, refs - seen))
    for i in range(n):
        s = [x for x in specs if x.name == 't{}'.format(i)][0]
        fks = [(['r{}'.format(k)], 't{}'.format(j), ['id']) for k, (a, j, kind) in enumerate(edges) if a == i and not kind and not (drop and j == i)]
        same(sorted(map(repr, [(list(a), b, list(c)) for a, b, c in s.foreign_keys])), sorted(map(repr, fks)), 'foreign keys of {}'.format(i))


# ------------------------------------------------------------------ statements
def translators(how):
    if how == 0:
        return None
    if how == 1:
        return lambda t, c=None: 'c`' + c if c else 't ' + t
    return lambda t, c=None: '{}__{}'.format(t, c) if c else t.upper() + '!'


def g_statements(r):
    """a table with keys, one with foreign keys to it"""
    cols = []
    for i in range(r.choice([2, 3, 4])):
        c = {'name': NAMES[i]} if r.random() < .8 else {'titles': TITLES[i] if r.random() < .5 else r.choice(TITLES[i:i + 1])}
        if r.random() < .5:
            c['required'] = r.random() < .6
        if r.random() < .5:
            c['datatype'] = r.choice(['string', 'integer', 'decimal', 'hexBinary', 'boolean', 'date', 'anyURI', 'double', 'time'])
        cols.append(c)
    names = [c['name'] for c in cols if 'name' in c]
    pk = r.sample(names, min(len(names), r.choice([1, 1, 2, 3]))) if names and r.random() < .8 else None
    fcols = [{'name': 'f{}'.format(i)} for i in range(5)]
    fks = []
    if pk:
        for _ in range(r.randrange(3)):
            to = list(pk)
            r.shuffle(to)
            fks.append({'columnReference': r.sample(['f0', 'f1', 'f2', 'f3', 'f4'], len(to)), 'reference': {'resource': 'p', 'columnReference': to}})
        if len(pk) == 1 and r.random() < .5:
            where = r.randrange(3)
            sep = {'separator': ' '}
            ts = {'columns': fcols, 'primaryKey': 'f0'}
            c = {'name': 'l'}
            if where == 0:
                c.update(sep)
            fcols.append(c)
            if where:
                fks = []
            fks.append({'columnReference': 'l', 'reference': {'resource': 'p', 'columnReference': pk[0]}})
            return {'cols': cols, 'pk': pk, 'fcols': fcols, 'fks': fks, 'inherit': where, 'how': r.randrange(3), 'fpk': 'f0' if where else r.choice(['f0', 'f1']), 'req': r.choice([None, None, None, 'p', 'q', 'group'])}
    return {'cols': cols, 'pk': pk, 'fcols': fcols, 'fks': fks, 'inherit': 0, 'how': r.randrange(3), 'fpk': r.choice([None, 'f0', ['f1', 'f0']]), 'req': r.choice([None, None, None, 'p', 'q', 'group'])}


def case_(cols, pk, fcols, fks, fpk=None, inherit=0, how=0, req=None):
    return {'req': req, 'cols': cols, 'pk': pk, 'fcols': fcols, 'fks': fks, 'inherit': inherit, 'how': how, 'fpk': fpk}


@check('statements', fixed=[
    case_([{'name': 'a'}, {'name': 'b'}], ['a', 'b'], [{'name': 'y'}, {'name': 'x'}], [{'columnReference': ['y', 'x'], 'reference': {'resource': 'p', 'columnReference': ['a', 'b']}}], how=h) for h in range(3)] + [
    case_([{'name': 'a', 'datatype': 'integer'}], ['a'], [{'name': 'y'}, {'name': 'x', 'separator': ' '}], [{'columnReference': 'x', 'reference': {'resource': 'p', 'columnReference': 'a'}}], 'y', how=h, req=q) for h, q in enumerate(['p', 'q', 'group'])] + [
    case_([{'name': 'a_b'}], ['a_b'], [{'name': 'y'}, {'name': 'x', 'separator': ' '}], [{'columnReference': 'x', 'reference': {'resource': 'p', 'columnReference': 'a_b'}}], 'y')],
    gen=g_statements, n=700)
def statements(case):
    p = {'url': 'p', 'tableSchema': {'columns': case['cols']}}
    if case['pk']:
        p['tableSchema']['primaryKey'] = case['pk']
    q = {'url': 'q', 'tableSchema': {'columns': case['fcols'], 'foreignKeys': case['fks']}}
    if case['fpk']:
        q['tableSchema']['primaryKey'] = case['fpk']
    inh = case['inherit'] and any(c['name'] == 'l' for c in case['fcols'])
    if inh:     # all columns of the table inherit
        (q if case['inherit'] == 1 else q['tableSchema'])['separator'] = ' '
    lists = {c['name'] for c in case['fcols'] if inh or 'separator' in c}
    tr = translators(case['how']) or Database.name_translator
    group = {'tables': [q, p]}
    req = case.get('req')
    if req:     # all columns inherit
        {'p': p, 'q': q['tableSchema'], 'group': group}[req]['required'] = True
    tg = TableGroup.fromvalue(group)
    db = Database(tg, translate=translators(case['how']))
    conn = sqlite3.connect(':memory:')
    try:
        for t in db.tables:
            conn.execute(t.sql(translate=db.translate))
        listed = lambda x: [x] if isinstance(x, str) else x     # noqa: E731
        made = sorted(n for n, in conn.execute("select name from sqlite_master where type = 'table'"))
        m2m = [fk for fk in case['fks'] if len(listed(fk['columnReference'])) == 1 and listed(fk['columnReference'])[0] in lists]
        want = {tr('p'), tr('q')} | ({tr('q_p')} if m2m else set())
        same(made, sorted(want), 'tables')
        for name, cols, pk in [('p', case['cols'], case['pk']), ('q', case['fcols'], case['fpk'])]:
            info = conn.execute('pragma table_info(`{}`)'.format(tr(name).replace('`', '``'))).fetchall()
            kept = [c for c in cols if name == 'p' or c['name'] not in [listed(fk['columnReference'])[0] for fk in m2m]]
            heads = [c.get('name') or c['titles'] for c in kept]
            same([i[1] for i in info], [tr(name, h) for h in heads], 'columns of ' + name)
            for i, c in zip(info, kept):
                require(bool(i[3]) == bool(c.get('required', req in (name, 'group'))), 'NOT NULL of {}'.format(c))
            same([i[1] for i in sorted(info, key=lambda x: x[5]) if i[5]], [tr(name, h) for h in listed(pk or [])], 'primary key of ' + name)
        got = {}
        for i, seq, table, a, b, _, on_delete, _ in conn.execute('pragma foreign_key_list(`{}`)'.format(tr('q').replace('`', '``'))):
            got.setdefault(i, {'table': table, 'cols': {}})['cols'][seq] = (a, b)
            require(on_delete == 'CASCADE', 'delete')
        want = [
            (tr('p'), sorted((tr('q', a), tr('p', b)) for a, b in zip(listed(fk['columnReference']), listed(fk['reference']['columnReference'])))) for fk in case['fks'] if fk not in m2m]
        same(sorted((v['table'], sorted(v['cols'].values())) for v in got.values()), sorted(want), 'foreign keys')
        if m2m:
            spec = db.tdict['q_p']
            same([i[1] for i in conn.execute('pragma table_info(`{}`)'.format(tr('q_p').replace('`', '``')))], [tr('q_p', c.name) for c in spec.columns], 'columns of the association')
            refs = sorted((x[2], x[4]) for x in conn.execute('pragma foreign_key_list(`{}`)'.format(tr('q_p').replace('`', '``'))))
            same(refs, sorted([(tr('q'), tr('q', case['fpk'])), (tr('p'), tr('p', case['pk'][0]))]), 'foreign keys of the association')
    finally:
        conn.close()


# ------------------------------------------------------------------ associations
PARTS = ['a', 'b', 'a_b', 'b_a', 'a_b_a', 'b_b']


def g_associations(r):
    a, b = r.sample(PARTS, 2)
    return a, r.choice(PARTS), b, r.choice(PARTS), r.choice(['other', 'self', 'both']), r.randrange(3)


@check('associations', fixed=[('x', 'y_z', 'x_y', 'z', 'other', 0), ('t', 'a_b', 't_a', 'b', 'both', 1)], gen=g_associations, n=250)
def associations(case):
    """a has lists of keys of b, or of a"""
    a, apk, b, bpk, which, how = case
    cols, fks = [{'name': apk}], []
    to = [(b, bpk)] * (which != 'self') + [(a, apk)] * (which != 'other')
    for i, (t, k) in enumerate(to):
        cols.append({'name': 'l%d' % i, 'separator': ';'})
        fks.append({'columnReference': 'l%d' % i, 'reference': {'resource': t, 'columnReference': k}})
    tg = TableGroup.fromvalue({'tables': [
        {'url': a, 'tableSchema': {'columns': cols, 'primaryKey': apk, 'foreignKeys': fks}}, {'url': b, 'tableSchema': {'columns': [{'name': bpk}], 'primaryKey': bpk}}]})
    names = [a + '_' + t for t, _ in to]
    if set(names) & {a, b}:
        return      # the name of a table is taken
    db = Database(tg, translate=translators(how))
    tr = db.translate
    same(sorted(t.name for t in db.tables), sorted(names + [a, b]), 'tables')
    conn = sqlite3.connect(':memory:')
    try:
        for t in db.tables:
            conn.execute(t.sql(translate=tr))
        for n, (t, k) in zip(names, to):
            refs = sorted((x[2], x[4]) for x in conn.execute('pragma foreign_key_list(`{}`)'.format(tr(n).replace('`', '``'))))
            same(refs, sorted([(tr(a), tr(a, apk)), (tr(t), tr(t, k))]), 'foreign keys of the association')
    finally:
        conn.close()


@check('unknown references', fixed=[('t9', n, lst) for n in (1, 2, 3) for lst in (False, True)])
def unknown(case):
    """tables that are not described can not be referenced"""
    ref, n, lst = case
    ts = tables_of([(n - 1, 0, int(lst))], n)
    ts[-1]['tableSchema']['foreignKeys'][0]['reference']['resource'] = ref
    try:
        schema(TableGroup.fromvalue({'tables': ts}))
    except ValueError:
        return
    require(False, 'the reference is refused')


# ------------------------------------------------------------------ constraints
NUMS = ['decimal', 'integer', 'int', 'long', 'double', 'float', 'number', 'unsignedByte', 'nonNegativeInteger', 'short']
STRS = ['string', 'anyURI', 'NMTOKEN', 'normalizedString', 'QName', 'xml', 'gYear']
DATES = ['date', 'datetime', 'dateTime', 'dateTimeStamp']
BOUNDS = ['minimum', 'maximum', 'minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive']


def texts(base):
    if base in ('decimal', 'double', 'float', 'number'):
        return ['0', '1', '5', '10', '9', '100', '2.5', '0.25'] + (['-3', '-10.5'])
    if base in NUMS:
        return ['0', '1', '5', '10', '9', '100'] + ([] if base in ('unsignedByte', 'nonNegativeInteger') else ['-3', '-20'])
    if base == 'date':
        return ['2019-02-01', '2018-12-31', '2020-01-01', '2019-02-02']
    if base in DATES:
        res = ['2019-02-01T10:00:00', '2019-02-01T09:59:59', '2018-12-31T23:00:00', '2020-01-01T00:00:00']
        return [t + 'Z' for t in res] + ['2019-02-01T11:00:00+01:00'] if base == 'dateTimeStamp' else res
    if base == 'hexBinary':
        return ['', 'ab', 'abcd', '000102']
    if base in ('base64Binary', 'binary'):
        return ['YWJj', 'YQ==', 'YWJjZGVm']
    if base == 'gYear':
        return ['1990', '12345']
    if base == 'anyURI':
        return ['', 'a', 'a:b', '//x', 'http://x.org/']
    return ['', 'a', 'ab', 'abc', 'abcd'] if base == 'NMTOKEN' else ['', 'a', 'ab', 'abc', 'abcd', '\xe9\u4e2d\U0001F600'] + ['a b']



def g_constraints(r):
    k = r.random()
    d = {'base': r.choice(NUMS if k < .5 else DATES if k < .65 else STRS + ['hexBinary', 'base64Binary'])}
    if k < .65:
        for p in r.sample(BOUNDS, r.choice([1, 1, 2])):
            d[p] = r.choice(texts(d['base']))
    else:
        for p in r.sample(['length', 'minLength', 'maxLength'], r.choice([1, 1, 2])):
            d[p] = r.choice([0, 1, 2, 3, 7])
    return d, r.choice([None] * 5 + [';']), r.randrange(3)


@check('constraints', fixed=[
    ({'base': 'int', 'minimum': '5'}, None, 0), ({'base': 'string', 'maxLength': 3}, ';', 0), ({'base': 'string', 'maxLength': 0}, None, 0), ({'base': 'decimal', 'minExclusive': '0'}, None, 1),
    ({'base': 'dateTime', 'maximum': '2019-02-01T10:00:00'}, None, 0), ({'base': 'double', 'minimum': '-INF'}, None, 0), ({'base': 'integer', 'minimum': '2'}, ';', 0),
    ({'base': 'date', 'minInclusive': '2019-02-01', 'maxInclusive': '2019-02-01'}, None, 0)], gen=g_constraints, n=900)
def constraints(case):
    d, sep, how = case
    c = {'name': 'v', 'datatype': d}
    if sep:
        c['separator'] = sep
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            tg = TableGroup.fromvalue({'tables': [{'url': 't', 'tableSchema': {'columns': [c]}}]})
        except ValueError:
            return      # bounds or lengths that contradict each other
    dt = tg.tables[0].tableSchema.columns[0].datatype
    for t in texts(d['base']):
        v = dt.parse(t)
        try:
            dt.validate(v)
            ok = True
        except ValueError:
            ok = False
        if not ok and d['base'] in ('base64Binary', 'binary'):
            continue    # not carried over: the database holds the text
        if not ok and d['base'] in DATES and any(p in d and dt.validate is not None and v == getattr(dt, p) for p in ('minExclusive', 'maxExclusive')):
            continue    # the resolution of bounds is a second
        for x in [[v, v], [v]] if sep else [v]:
            if sep and (not ok or not v):
                continue    # items of lists are not constrained
            db = Database(tg, translate=translators(how))
            try:
                db.write(t=[{'v': x}, {'v': None}])
                done = True
            except sqlite3.IntegrityError:
                done = False
            finally:
                db._connection.close()
            require(done == ok, '{!r} is {}, but {}'.format(x, 'valid' if ok else 'not valid', 'stored' if done else 'refused'))
