"""C11, bounded: Table.iterdicts on generated files and descriptions, against an oracle."""
import io
import itertools
import re
import zipfile

from bounded.lib import Registry, require, same, tmpdir
from bounded.tables import Log, csv_text, outcome, put, table

check = Registry()
NAMES = ['a', 'b', 'c', 'd']
CELLS = {None: ['x', 'y z', '', 'NA', 'a"b', 'l1\nl2', 'ä', '1', ' '], 'integer': ['1', '02', '-3', '', 'bad', '1', '7'],
         'boolean': ['true', '0', '', 'maybe', 'false']}


def parse(col, t, req, strict):
    """(ok, value)"""
    null = col.get('null', [''])
    null = [null] if isinstance(null, str) else null
    t = t or col.get('default', '')
    dt = col.get('datatype')

    def conv(x):
        if x in null:
            return None
        if dt == 'integer':
            return int(x)
        if dt == 'boolean':
            return {'true': True, '1': True, 'false': False, '0': False}[x]
        return x
    try:
        if req and t in null:
            return False, None
        if col.get('separator'):
            if t == '':
                return True, []
            if t in null:
                return True, None
            parts = [x or col.get('default', '') for x in t.split(col['separator'])]
            try:
                return True, [conv(x) for x in parts]
            except (ValueError, KeyError):
                if strict:
                    raise
                return True, [None if x in null else x for x in parts]
        return True, conv(t)
    except (ValueError, KeyError):
        return False, None


def gen(r):
    cols = []
    for n in NAMES[:r.randint(0, 4)]:
        c = {'name': n}
        if r.random() < 0.5:
            c['datatype'] = r.choice(['integer', 'boolean'])
        if r.random() < 0.3:
            c['titles'] = 'Title ' + n
        if r.random() < 0.25:
            c['required'] = True
        if r.random() < 0.2:
            c['null'] = r.choice(['NA', ['', 'NA']])
        if r.random() < 0.15:
            c['default'] = '1'
        if r.random() < 0.15:
            c['separator'] = ';'
        cols.append(c)
    r.shuffle(cols)
    virt = []
    for k in range(r.choice([0, 0, 0, 1, 2])):
        virt.append({'name': 'v%d' % k, 'virtual': True, 'valueUrl': 'http://example.org/%d/{a}' % k} if r.random() < 0.8
                    else {'name': 'v%d' % k, 'virtual': True, 'aboutUrl': 'http://example.org/'})
    header = [c['titles'] if 'titles' in c and r.random() < 0.5 else c['name'] for c in cols]
    strict = r.random() < 0.75
    has_header = r.random() < 0.8
    mapping = list(range(len(cols)))
    if has_header and strict:
        if r.random() < 0.5:
            r.shuffle(mapping)
        if mapping and r.random() < 0.25:
            mapping.pop()
        header = [header[k] for k in mapping]
        for _ in range(r.choice([0, 0, 0, 1, 2]) if header else r.randint(1, 3)):
            p = r.randint(0, len(header))
            mapping.insert(p, None)
            header.insert(p, 'extra%d' % len(header))
    else:
        header = [c['name'] for c in cols]
        if has_header and not header:
            has_header = False
    rows = []
    for _ in range(r.choice([0, 1, 2, 3, 5])):
        row = [] if header else ['x']
        for m in mapping:
            dt = cols[m].get('datatype') if m is not None else None
            row.append(r.choice(CELLS[dt]) if r.random() > 0.1 else r.choice(CELLS[None]))
            if m is not None and cols[m].get('separator') and r.random() < 0.6:
                row[-1] = ';'.join(r.choice(CELLS[dt]) for _ in range(r.randint(1, 3)))
        if r.random() < 0.1:
            row = row[:r.randint(0, len(row))]
        if r.random() < 0.07 and cols:
            row.append('surplus')
        if not row or (len(row) == 1 and not row[0]):
            row = ['1']
        rows.append(row)
    return cols, virt, header, mapping, rows, has_header, strict, r.random() < 0.7, r.random() < 0.3, r.random() < 0.1, r.random() < 0.15


@check('Table.iterdicts', gen=gen, n=1500)
def iterdicts(x):
    cols, virt, header, mapping, rows, has_header, strict, log, meta, zipped, inherited = x
    if not has_header and not header:
        header, mapping = None, None
    schema = {'columns': cols + virt}
    if inherited:
        schema['required'] = True
    req = {c['name'] for c in cols if c.get('required') or inherited}
    with tmpdir() as d:
        text = csv_text(([header] if has_header else []) + rows)
        t = table(d, schema, None, dialect={'header': has_header})
        if zipped:
            with zipfile.ZipFile('{}/t.csv.zip'.format(d), 'w') as z:
                z.writestr('t.csv', text)
        else:
            put(d, 't.csv', text)
        if len(text) % 3 == 0 and t.tableSchema.columns:      # a table which was used when it had fewer columns
            every, t.tableSchema.columns = t.tableSchema.columns, t.tableSchema.columns[1:]
            outcome(lambda: list(t.iterdicts(log=Log())))
            t.tableSchema.columns = every
        lg = Log()
        got = outcome(lambda: list(t.iterdicts(**dict({'log': lg} if log else {}, **({'with_metadata': True} if meta or log else {}),
                                                      **({} if strict else {'strict': False})))))
    meta = meta or log
    if mapping is not None and req - {cols[m]['name'] for m in mapping if m is not None}:
        same(got[0], 'ValueError', 'outcome without a required column')
        return
    line, res, bad = 1, [], []
    if has_header:
        line += 1 + sum(h.count('\n') for h in header)
    for row in rows:
        line += sum(c.count('\n') for c in row)
        mp, hd = mapping, header
        if mp is None:
            if not res:
                width = len(row)
            mp, hd = [None] * width, ['_col.%d' % (k + 1) for k in range(width)]
        ok, out = True, {}
        for h, m, cell in zip(hd, mp, row):
            if m is None:
                out[h] = cell or (None if header is None else cell)
            else:
                good, v = parse(cols[m], cell, cols[m]['name'] in req, strict)
                if not good and not strict:
                    good, v = True, cell
                ok = ok and good
                out[cols[m]['name']] = v
        for m in mp[len(row):]:
            if m is not None and cols[m]['name'] in req:
                ok = False
        for c in cols:
            out.setdefault(c['name'], None)
        for k, v in enumerate(virt):
            if 'valueUrl' in v:
                a = out.get('a')
                a = 'None' if a is None else a
                out[v['name']] = ANY if not isinstance(a, (int, bool)) else 'http://example.org/%d/%s' % (k, a)
        res.append((line, out)) if ok else bad.append(line)
        line += 1
    if bad and not log:
        same(got[0], 'ValueError', 'outcome with an invalid row')
        return
    same(got[0], 'ok', 'outcome')
    items = got[1]
    same(len(items), len(res), 'number of rows')
    for item, (n, out) in zip(items, res):
        if meta:
            require(str(item[0]).endswith('t.csv'), 'file name {}', item[0])
            same(item[1], n, 'line number')
            item = item[2]
        same(set(item), set(out), 'keys')
        for k in out:
            if out[k] is not ANY:
                same((type(item[k]), item[k]), (type(out[k]), out[k]), 'value of ' + k)
    if log:
        seen = {int(n) for _, m in lg.messages for n in re.findall(r't\.csv:(\d+)\b', m)}
        same(seen, set(bad), 'reported lines')


ANY = object()
