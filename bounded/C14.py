"""C14, bounded: check_referential_integrity on generated table groups, against a relational oracle."""
import collections
import itertools
import re

from bounded.lib import Registry, require, same, tmpdir
from bounded.tables import Log, outcome, group

check = Registry()
COLS = ['id', 'x', 'y', 'i', 'l']     # i: integer, l: list of texts
TYPES = {'i': 'integer', 'id': 'string', 'x': 'string'}
TEXT = ['a', 'b', 'c', 'a b', '0', "('a', 'b')"]


def parse(col, t):
    """(valid, value)"""
    if t == '':
        return True, ([] if col == 'l' else None)
    if col == 'i':
        try:
            return True, int(t)
        except ValueError:
            return False, None
    if col == 'l':
        return True, [p or None for p in t.split(';')]
    return True, t


def gen(r):
    nt = r.randint(1, 4)
    vals = TEXT[:r.choice([1, 2, 3, 6])]
    tables = []
    for _ in range(nt):
        rows = []
        for _ in range(r.choice([0, 1, 2, 3, 4, 6])):
            row = {c: r.choice(vals) for c in ('id', 'x', 'y')}
            row['i'] = r.choice(['1', '2', '01', '0', '+2', 'bad' if r.random() < 0.15 else '1'])
            row['l'] = ';'.join(r.choice(vals + ([''] if r.random() < 0.1 else [])) for _ in range(r.choice([0, 1, 1, 2, 3])))
            for c in ('id', 'x', 'y', 'i'):
                if r.random() < 0.07:
                    row[c] = ''
            rows.append([row[c] for c in COLS])
        tables.append(rows)
    fks = []
    for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
        ct, tt = r.randrange(nt), r.randrange(nt)
        n = r.choice([1, 1, 1, 2, 2, 3])
        kind = r.random()
        if kind < 0.2:
            sc, tc = ['i'], ['i']
        elif kind < 0.4:
            sc, tc = ['l'], [r.choice(['id', 'x'])]
        else:
            sc, tc = [r.sample(['id', 'x', 'y'], n) for _ in range(2)]
        if r.random() < 0.03:
            tc = tc[:-1] or tc + ['y']
        if r.random() < 0.03:
            sc = ['nope'] + sc[1:]
        if r.random() < 0.03:
            tt = 9
        if r.random() < 0.03:
            sc, tc = ['i'], [r.choice(['id', 'y'])]
        if sc != ['l'] and ('l' in sc or 'l' in tc):
            continue
        fks.append((ct, sc, tt, tc))
    if r.random() < 0.5:    # repair the references, so that groups without dangling ones are common
        for ct, sc, tt, tc in fks:
            if tt < nt and ct != tt and set(sc + tc) <= {'id', 'x', 'y'} and len(sc) == len(tc) and tables[tt]:
                for row in tables[ct]:
                    if r.random() < 0.95:
                        src = r.choice(tables[tt])
                        for a, b in zip(sc, tc):
                            row[COLS.index(a)] = src[COLS.index(b)]
    return tables, fks, r.random() < 0.3, r.random() < 0.75


def fixed():
    for cells in itertools.product(['a', 'b', ''], repeat=3):
        child = [['k', cells[2], 'c', '1', '']]
        for strict in (False, True):
            for log in (True, False):
                yield [child, [['a', cells[0], 'z', '1', ''], ['b', cells[1], 'z', '1', '']]], [(0, ['x'], 1, ['x'])], strict, log
    for l in ('', 'a', 'a;b', 'a;z', 'z;a', 'a;a', 'z;z', 'a;;b'):
        yield [[['k', 'x', 'y', '1', l]], [['a', '', '', '1', ''], ['b', '', '', '1', '']]], [(0, ['l'], 1, ['id'])], False, True
    n = 400
    big = [['k%d' % i, '', '', '1', ''] for i in range(n)]
    for miss in (None, 0, n - 1):
        yield [[['c', 'k%d' % i if i != miss else 'none', '', '1', ''] for i in range(n)], big], [(0, ['x'], 1, ['id'])], False, True


@check('check_referential_integrity', fixed=fixed, gen=gen, n=700)
def integrity(x):
    tables, fks, strict, log = x
    cols = [{'name': c, **({'datatype': TYPES[c]} if c in TYPES else {'separator': ';'} if c == 'l' else {})} for c in COLS]
    with tmpdir() as d:
        tg = group(d, [('t%d.csv' % k, {'columns': cols, 'foreignKeys': [
            {'columnReference': sc, 'reference': {'resource': 't%d.csv' % tt, 'columnReference': tc}}
            for ct, sc, tt, tc in fks if ct == k]}, [COLS] + rows) for k, rows in enumerate(tables)])
        last = tg.tables.pop()      # a group that was used before its last table was added
        require(last.local_name not in tg.tabledict, 'removed table')
        tg.tables.append(last)
        lg = Log()
        got = outcome(tg.check_referential_integrity, **({'log': lg} if log else {}), **({'strict': True} if strict else {}))
    data, bad = [], set()
    for k, rows in enumerate(tables):
        vs = []
        for n, row in enumerate(rows):
            p = [parse(c, t) for c, t in zip(COLS, row)]
            if all(ok for ok, _ in p):
                vs.append((n + 2, dict(zip(COLS, [v for _, v in p]))))
            else:
                bad.add(('t%d.csv' % k, n + 2))
        data.append(vs)
    badt = {f for f, _ in bad}
    invalid = any(tt >= len(tables) or len(sc) != len(tc) or 'nope' in sc or
                  any(a in TYPES and b in TYPES and TYPES[a] != TYPES[b] for a, b in zip(sc, tc)) for _, sc, tt, tc in fks)
    if strict:
        if any('t%d.csv' % ct in badt for ct, _, _, _ in fks) or \
                any(row.get(c) is None for ct, sc, _, _ in fks for _, row in data[ct] for c in sc):
            same(got[0], 'ValueError', 'strict check with null or invalid foreign key values')
            return
    if invalid:
        if log:
            same(got[:2], ('ok', False), 'result for invalid foreign keys')
            require(lg.messages, 'invalid foreign keys were not reported')
        else:
            same(got[0], 'ValueError', 'outcome for invalid foreign keys')
        return
    expected, repeated = collections.Counter(), False
    for ct, sc, tt, tc in fks:
        keys = [tuple(row[c] for c in tc) for _, row in data[tt]]
        repeated = repeated or len(set(keys)) < len(keys)
        for line, row in data[ct]:
            v = [row[c] for c in sc]
            if any(y is None for y in v):
                continue
            for ref in ([(y,) for y in v[0]] if isinstance(v[0], list) else [tuple(v)]):
                if ref not in keys:
                    expected['t%d.csv' % ct, line] += 1
    if not log:
        if expected or any('t%d.csv' % k in badt for ct, _, tt, _ in fks for k in (ct, tt)):
            same(got[0], 'ValueError', 'outcome with dangling references or invalid rows')
        else:
            same(got[:2], ('ok', not (strict and repeated)), 'result')
        return
    same(got[:2], ('ok', not expected and not (strict and repeated)), 'result')
    seen = collections.Counter()
    for _, m in lg.messages:
        for f, n in re.findall(r'(t\d\.csv):(\d+)\b', m):
            if (f, int(n)) not in bad:
                seen[f, int(n)] += 1
    same(dict(seen), dict(expected), 'reports per row')
