"""C13, bounded: check_primary_key on generated files, against a pairwise oracle."""
import itertools
import re

from bounded.lib import Registry, require, same, tmpdir
from bounded.tables import table, Log, outcome, group

check = Registry()
TEXT = ['a', 'b', 'A', 'ä', 'a b', ' a', 'a,b', 'x\ny', "('a',)", 'a, b']
INTS = ['1', '01', '+1', '2', '-0', '0', '10']


def column(k):
    return {'name': k, 'datatype': 'integer'} if k.startswith('i') else {'name': k}


def value(k, t):
    return (None if t == '' else int(t)) if k.startswith('i') else (None if t == '' else t)


def valid(k, t):
    return not (k.startswith('i') and t == 'bad')


def gen(r):
    cols = r.sample(['a', 'b', 'c', 'i', 'i2'], r.randint(1, 4))
    key = r.sample(cols, r.randint(1, min(3, len(cols))))
    n = r.choice([0, 1, 2, 3, 5, 8, 20])
    small = r.random() < 0.5
    rows = []
    for _ in range(n):
        row = []
        for c in cols:
            if c.startswith('i'):
                t = r.choice(INTS[:3] if small else INTS + [str(r.randint(0, 99))])
                if r.random() < 0.08:
                    t = 'bad'
            else:
                t = r.choice(TEXT[:2] if small else TEXT)
            if r.random() < 0.07:
                t = ''
            row.append(t)
        rows.append(row)
    if len(rows) > 2 and r.random() < 0.5:
        i, j = sorted(r.sample(range(len(rows)), 2))
        for k in key:
            rows[j][cols.index(k)] = rows[i][cols.index(k)]
    return cols, key, rows, r.random() < 0.3


def fixed():
    # every pattern of two-column keys over 3 rows
    for cells in itertools.product('ab', repeat=6):
        yield ['a', 'b', 'c'], ['a', 'b'], [list(cells[i:i + 2]) + ['z'] for i in (0, 2, 4)], False
        yield ['a', 'b', 'c'], ['b'], [list(cells[i:i + 2]) + ['z'] for i in (0, 2, 4)], False
    n = 300
    for i, j in ((0, 1), (0, n - 1), (n - 2, n - 1), (100, 200)):
        rows = [['k%d' % x, 'v'] for x in range(n)]
        rows[j][0] = rows[i][0]
        yield ['a', 'b'], ['a'], rows, False
    # keys that only look alike when glued together
    yield ['a', 'b'], ['a', 'b'], [['x', 'yz'], ['xy', 'z'], ['1,2', '3'], ['1', '2,3']], False
    for sep in list(' /|-_:;.,\t#+&~!@^$%*=\\"\'') + ['', '||', '::', "', '", '\x1f', '\x00'[:0], ' - ', '--', ', ', '\n']:
        yield ['a', 'b'], ['a', 'b'], [['x' + sep + 'y', 'z'], ['x', 'y' + sep + 'z']], False
    yield ['a', 'b'], ['a'], [['x', '1'], ['X', '2'], ['x ', '3'], [' x', '4'], ['é', '5'], ['e\u0301', '6']], False
    yield ['a', 'i'], ['a', 'i'], [['1', '1'], ['1', '11'], ['11', '1']], False
    yield ['i', 'a'], ['i'], [['1', 'x'], ['01', 'y']], False
    yield ['a', 'b'], [], [['1', 'x'], ['1', 'x']], False


@check('primary key check', fixed=fixed, gen=gen, n=300)
def pk(x):
    cols, key, rows, in_group = x
    with tmpdir() as d:
        schema = {'columns': [column(c) for c in cols]}
        if key:
            schema['primaryKey'] = key if len(key) > 1 else key[0]
        if in_group:
            t = group(d, [('o.csv', {'columns': [{'name': 'x'}]}, [['x']]), ('t.csv', schema, [cols] + rows)]).tables[1]
        else:
            t = table(d, schema, [cols] + rows)
        line, dups, seen = 1, [], []
        for row in rows:
            line += 1 + sum(c.count('\n') for c in row)
            if not all(valid(c, v) for c, v in zip(cols, row)):
                continue
            k = [value(c, row[cols.index(c)]) for c in key]
            if k in seen:
                dups.append(line)
            seen.append(k)
        if not key:
            dups = []
        log = Log()
        same(t.check_primary_key(log=log), not dups, 'verdict with a log')
        got = []
        for level, m in log.messages:
            require('t.csv' in m, 'file name not in {!r}', m)
            g = re.search(r'\.csv:(\d+)', m)
            require(g, 'no line number in {!r}', m)
            got.append(int(g.group(1)))
        same(got, dups, 'reported lines')
        k, v, _ = outcome(t.check_primary_key)
        if dups:
            same(k, 'ValueError', 'outcome without a log')
        else:
            same((k, v), ('ok', True), 'outcome without a log')
