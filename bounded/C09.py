"""C09, bounded: Column.read on generated columns and cells, against an oracle that knows the raw description."""
import itertools

from csvw.metadata import TableGroup, Column
from bounded.lib import Registry, require, same
from bounded.tables import outcome

check = Registry()
NULLS = [None, '', 'NA', ['NA'], ['', 'NA'], ['NA', '-'], [], ['x'], ['0']]
CELLS = ['', 'NA', '-', 'x', '0', '1', '12', 'a', ' ', 'false', 'true', 'x;y', ';', ';x', 'x;', ';;', 'NA;x', 'x;NA;;y', '1;2', '1;;NA',
         '1;x', 'x||y', '||', '1|2', 'NA ', 'na', '12;', '-;-', '0;0', 'a b', 'x ;y']
DTS = [None, 'string', 'integer', 'boolean', {'base': 'integer', 'minimum': '2'}]
LEVELS = ['column', 'schema', 'table', 'group']


def make(levels):
    g, t, s, c = [dict(levels.get(k, {})) for k in ('group', 'table', 'schema', 'column')]
    c['name'] = 'c'
    s['columns'] = [{'name': 'o'}, c]
    t.update(url='t.csv', tableSchema=s)
    g['tables'] = [t]
    return TableGroup.fromvalue(g).tables[0].tableSchema.columns[1]


def effective(levels, prop, default, unset):
    for k in LEVELS:
        v = levels.get(k, {}).get(prop)
        v = [v] if prop == 'null' and isinstance(v, str) else v
        if v is not None and v != unset:
            return v
    return default


def parse(dt, t):
    """(ok, value) of a text with one of the datatypes used here"""
    base = dt if isinstance(dt, str) else dt and dt['base']
    if base == 'integer':
        try:
            v = int(t)
        except ValueError:
            return False, None
        return not (isinstance(dt, dict) and v < 2), v
    if base == 'boolean':
        return t in ('true', 'false', '1', '0'), t in ('true', '1')
    return True, t


def expected(levels, cell, strict):
    null = effective(levels, 'null', [''], [''])
    null = null if isinstance(null, list) else [null]
    default = effective(levels, 'default', '', '')
    sep = effective(levels, 'separator', None, '')
    dt = effective(levels, 'datatype', None, None)
    req = None
    for k in LEVELS:
        if levels.get(k, {}).get('required') is not None:
            req = levels[k]['required']
            break
    t = cell or default
    if req and t in null:
        return 'ValueError', None
    if sep:
        if t == '':
            return 'ok', []
        if t in null:
            return 'ok', None
        parts = [p or default for p in t.split(sep)]
        parts = [None if p in null else p for p in parts]
        if not dt:
            return 'ok', parts
        res = [(True, None) if p is None else parse(dt, p) for p in parts]
        if all(ok for ok, _ in res):
            return 'ok', [v for _, v in res]
        return ('ValueError', None) if strict else ('ok', parts)
    if t in null:
        return 'ok', None
    ok, v = parse(dt, t) if dt else (True, t)
    return ('ok', v) if ok else ('ValueError', None)


def gen(r):
    levels = {}
    for k in LEVELS:
        d = {}
        if r.random() < (0.6 if k == 'column' else 0.2):
            d['null'] = r.choice(NULLS[1:])
        if r.random() < (0.4 if k == 'column' else 0.12):
            d['default'] = r.choice(['', 'x', 'NA', '0', '1', '12', 'x;y', '-'])
        if r.random() < (0.5 if k == 'column' else 0.12):
            d['separator'] = r.choice([';', ';', '||', '|', ' '])
        if r.random() < (0.3 if k == 'column' else 0.1):
            d['required'] = r.choice([True, True, False])
        if r.random() < (0.6 if k == 'column' else 0.1):
            d['datatype'] = r.choice(DTS[1:])
        if d:
            levels[k] = d
    return levels, cell(r), r.random() < 0.7


def cell(r):
    x = r.random()
    if x < 0.7:
        return r.choice(CELLS)
    sep = r.choice([';', ';', '||', '|', ' '])
    parts = [r.choice(['', 'NA', '-', 'x', '0', '1', '12', 'a', 'na', ' 1', '007', 'ä', '\n', 'a"b']) for _ in range(
        r.randrange(1, 6) if x < 0.9 else r.choice([10, 30, 70, 130, 300]))]
    return sep.join(parts)


def fixed():
    for null, default, req, dt, cell in itertools.product(
            NULLS, [None, '', 'NA', '1'], [None, True, False], [None, 'integer'], ['', 'NA', '1', '-', 'x']):
        c = {k: v for k, v in dict(null=null, default=default, required=req, datatype=dt).items() if v is not None}
        yield {'column': c}, cell, True
    for null, default, req, cell in itertools.product(
            [None, 'NA', ['', 'NA']], [None, '7', 'NA'], [None, True], ['', ';', '1;', ';1', 'NA', '1;NA;2', '1;;2', 'x;1', '1;2;3']):
        for strict in (True, False):
            c = {k: v for k, v in dict(null=null, default=default, required=req, datatype='integer', separator=';').items() if v is not None}
            yield {'column': c}, cell, strict


@check('Column.read', fixed=fixed, gen=gen, n=1500)
def read(x):
    levels, cell, strict = x
    c = make(levels)
    want = expected(levels, cell, strict)
    got = outcome(c.read, cell, strict=strict)[:2]
    same(got, want)
    if got[0] == 'ok':
        require(type(got[1]) is type(want[1]), 'type {}', type(got[1]))
        if isinstance(got[1], list):
            same([type(v) for v in got[1]], [type(v) for v in want[1]], 'item types')
    if cell == '':
        same(outcome(c.read, None, strict=strict)[:2], want, 'reading None')


@check('Column.read without description', fixed=[(t,) for t in CELLS], complete=True)
def plain(x):
    same(Column(name='c').read(x[0]), x[0] or None)
