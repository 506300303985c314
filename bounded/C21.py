"""C21, bounded: validation of generated datasets, with and without problems."""
import argparse
import contextlib
import io
import json
import warnings

from csvw import CSVW
from csvw.__main__ import csvwvalidate
from bounded.lib import Registry, require, same, tmpdir
from bounded.tables import csv_text, put

check = Registry()
HEAD = ['id', 'n', 'd', 'r', 'f', 'g', 'l']


def columns(fk):
    return [{'name': 'id', 'titles': 'id'}, {'name': 'n', 'titles': 'n', 'datatype': {'base': 'integer', 'minimum': 0, 'maximum': 99}},
            {'name': 'd', 'titles': 'd', 'datatype': 'date'}, {'name': 'r', 'titles': 'r', 'required': True},
            {'name': 'f', 'titles': 'f'}, {'name': 'g', 'titles': 'g'}, {'name': 'l', 'titles': 'l', 'separator': ';', 'datatype': 'integer'}]


PROBLEMS = ['cell', 'list', 'range', 'required', 'key', 'dangling', 'null', 'extra-prop', 'wrong-prop', 'context', 'no-tables', 'schema']


def gen(r):
    nt = r.choice([1, 1, 2, 3])
    rows = [r.choice([0, 1, 2, 5, 20]) for _ in range(nt)]
    problems = []
    if r.random() < 0.65:
        for _ in range(r.choice([1, 1, 2])):
            t = r.randrange(nt)
            problems.append((r.choice(PROBLEMS), t, r.randrange(max(1, rows[t]))))
    return (nt, rows, problems, r.choice(['', 'ignore', 'error', 'always']), r.random() < 0.3, r.choice([None, 'rg', 'id']),
            r.random() < 0.5, r.randrange(1000))


def fixed():
    for p in PROBLEMS:
        for nt, t in ((1, 0), (2, 0), (2, 1), (3, 1)):
            for k in (0, 2):
                yield nt, [3] * nt, [(p, t, k)], '', False, 'id', False, 5
    for f in ('', 'ignore', 'error', 'always'):
        yield 2, [2, 2], [], f, True, 'id', False, 1
        yield 2, [2, 2], [('cell', 1, 1)], f, True, 'id', False, 1
    # problems far down in big tables
    for pk in (None, 'id'):
        for p in ('key', 'dangling'):
            yield 2, [3000, 3000], [(p, 1, 2999)], '', False, pk, False, 1
    yield 2, [3000, 3000], [], '', False, 'id', False, 1
    for p in ('cell', 'required'):
        yield 1, [3000], [(p, 0, 2999)], '', False, None, False, 1


def run_cli(md, verbose, test):
    args = argparse.Namespace(url=md, verbose=verbose)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        if test:
            ret = csvwvalidate(args, test=True)
        else:
            try:
                csvwvalidate(args)
                ret = 'no exit'
            except SystemExit as e:
                ret = e.code
    return ret, out.getvalue()


@check('validation', gen=gen, fixed=fixed, n=350)
def validation(x):
    nt, counts, problems, filt, verbose, pk, test, seed = x
    fks = nt > 1
    tables, data, md_problem, bad = [], [], None, False
    for t in range(nt):
        rows = [['i%d' % k, str((k * 7 + seed) % 100), '2020-01-%02d' % (k % 28 + 1), 'x%d' % k, '', 'y', '1;2'] for k in range(counts[t])]
        data.append(rows)
    if fks:
        for t in range(1, nt):
            for k, row in enumerate(data[t]):
                if data[t - 1]:
                    row[4] = 'i%d' % (k % len(data[t - 1]))
            if not data[t - 1]:
                del data[t][:]
    extra = [{} for _ in range(nt)]
    cols = [columns(fks) for _ in range(nt)]
    for p, t, k in problems:
        row = data[t][k] if k < len(data[t]) else None
        if p == 'extra-prop':
            extra[t]['unknownprop'], bad = 1, True
        elif p == 'wrong-prop':
            cols[t][0]['titles'], bad = 5, True
        elif p in ('context', 'no-tables', 'schema'):
            if p == 'no-tables' and nt == 1:
                p = 'context'
            md_problem = md_problem or p
        elif row is None:
            continue
        elif p == 'cell':
            row[2], bad = '2020-13-45', True
        elif p == 'list':
            row[6], bad = '1;x;2', True
        elif p == 'range':
            row[1], bad = '100', True
        elif p == 'required':
            row[3], bad = '', True
        elif p == 'key' and pk == 'id' and len(data[t]) > 1:
            row[0], bad = data[t][k - 1][0], True
        elif p == 'key' and pk == 'rg' and len(data[t]) > 1:
            row[3], bad = data[t][k - 1][3], True
        elif p == 'dangling' and fks and t > 0:
            row[4], bad = 'nowhere', True
        elif p == 'null' and fks and t > 0:
            row[4], bad = '', True
    for t in range(nt):
        s = {'columns': cols[t]}
        if pk:
            s['primaryKey'] = ['r', 'g'] if pk == 'rg' else ['id']
        if fks and t:
            s['foreignKeys'] = [{'columnReference': 'f', 'reference': {'resource': 't%d.csv' % (t - 1), 'columnReference': 'id'}}]
        tables.append(dict({'url': 't%d.csv' % t, 'tableSchema': s}, **extra[t]))
    md = {'@context': 'http://www.w3.org/ns/csvw'}
    if nt == 1:
        md.update(tables[0])
    else:
        md['tables'] = tables
    if md_problem == 'context':
        md['@context'] = 'http://example.org'
    elif md_problem == 'no-tables':
        md['tables'] = []
    elif md_problem == 'schema':
        for t in md.get('tables', [md]):
            t['tableSchema']['@type'] = 'Wrong'
    # a repeated key may break a reference and vice versa, but never repairs a problem
    with tmpdir() as d, warnings.catch_warnings():
        for t in range(nt):
            put(d, 't%d.csv' % t, csv_text([HEAD] + data[t]))
        f = put(d, 'md.json', json.dumps(md))
        warnings.resetwarnings()
        if filt:
            warnings.simplefilter(filt)
        want = 2 if md_problem else 1 if bad else 0
        if not md_problem:
            c = CSVW(f, validate=True)
            same(c.is_valid, not bad, 'verdict')
            same(c.is_valid, not bad, 'second verdict')
            require(bool(c.warnings) == bad, 'recorded warnings')
        ret, out = run_cli(f, verbose, test)
        same(ret, want, 'exit status')
        require(('OK' in out) == (want == 0) and ('FAIL' in out) == (want != 0), 'output {}', out[:100])


TAGS = ['en', 'de', 'en-US', 'und', 'fr-CA']


def gen_header(r):
    cols = []
    for i in range(r.choice([0, 1, 2, 3])):
        words = lambda: [r.choice(['A', 'B', 'Name', 'a b', 'x']) + str(i) for _ in range(r.choice([1, 1, 2]))]  # noqa: E731
        t = [r.choice(['A', 'Name']) + str(i)] if r.random() < 0.3 else words() if r.random() < 0.4 else {
            k: words() for k in r.sample(TAGS, r.choice([1, 2, 3]))}
        cols.append((r.choice([None, None, 'c%d' % i]), t))
    header = []
    for i in range(r.choice([len(cols), len(cols), len(cols), 1, 2, 4]) or 1):
        u = r.random()
        if i < len(cols) and u < 0.85:
            n, t = cols[i]
            ts = list(t) if isinstance(t, list) else [x for v in t.values() for x in v]
            header.append(r.choice(ts + [n or ts[0]]))
        else:
            header.append(r.choice(['A0', 'Name1', 'zzz', 'a', '']))
    return cols, header, r.choice(['en', 'de', 'en-GB', 'fr', None]), r.choice(['en', 'de', 'de-AT']), r.choice([0, 1])


def fixed_header():
    yield [(None, {'en': ['Name']})], ['Name'], None, 'en', 1
    yield [(None, {'de': ['Name'], 'en': ['Name']})], ['Name'], 'en', 'de', 1
    yield [(None, {'de': ['Name']})], ['Name'], 'en', 'de', 1
    yield [(None, ['Name'])], ['Nam'], 'en', 'de', 0
    yield [(None, ['Name'])], ['Name'], None, 'de', 0
    yield [(None, ['Name'])], ['Name', 'b'], None, 'de', 0
    yield [('a', ['Name']), ('b', ['B'])], ['x', 'y'], None, 'de', 1
    yield [(None, {'de': ['A']}), (None, {'de': ['B'], 'en': ['C']})], ['A', 'B'], 'de', 'de', 1
    yield [('a', ['a']), ('b', ['b'])], ['a', 'b', 'b'], None, 'de', 1
    yield [('a', ['a']), ('b', ['b'])], ['a', 'b', ''], None, 'de', 0
    yield [('a', {'de': ['Name']})], ['Name'], 'en', 'de', 1
    yield [('a', {'de': ['a']})], ['a'], 'en', 'de', 1


@check('header', gen=gen_header, fixed=fixed_header, n=250)
def header_(x):
    cols, header, lang, glang, nrows = x
    bad = bool(cols) and len(header) > len(cols)
    for (name, titles), h in zip(cols, header):
        titles = {'und': titles} if isinstance(titles, list) else titles
        tags = [k.split('-')[0] for k, v in titles.items() if h in v]
        if h == name:
            continue
        if name is None and not tags or tags and not set(tags) & {'und', (lang or glang).split('-')[0]}:
            bad = True
    t = {'url': 't.csv', 'tableSchema': {'columns': [
        dict({'titles': tt}, **({'name': n} if n else {})) for n, tt in cols]}}
    if lang:
        t['lang'] = lang
    md = {'@context': 'http://www.w3.org/ns/csvw', 'lang': glang, 'tables': [t]}
    with tmpdir() as d:
        put(d, 't.csv', csv_text([header] + [['v'] * len(header)] * nrows))
        f = put(d, 'md.json', json.dumps(md))
        c = CSVW(f, validate=True)
        same(c.is_valid, not bad, 'verdict for the header')
        same(c.is_valid, not bad, 'second verdict')


def gen_histories(r):
    return [r.choice('gggtkfh') for _ in range(r.choice([2, 3, 4]))]


CONTENT = {'g': 'id,n,r\na,1,a\nb,2,a\n', 't': 'id,n,r\na,1,a\nb,x,a\n', 'k': 'id,n,r\na,1,a\na,2,a\n', 'f': 'id,n,r\na,1,a\nb,2,c\n', 'h': 'id,n,r,x\na,1,a,\n'}


@check('data changed between evaluations', gen=gen_histories, n=40, fixed=['gt', 'gk', 'gf', 'gh', 'ggt', 'tg', 'kg', 'fg', 'hg', 'gggg'])
def histories(h):
    """the data is read anew whenever the verdict is asked for; once invalid it stays invalid"""
    with tmpdir() as d:
        md = put(d, 'm.json', json.dumps({'@context': 'http://www.w3.org/ns/csvw', 'tables': [{'url': 't.csv', 'tableSchema': {
            'columns': [{'name': 'id'}, {'name': 'n', 'datatype': 'integer'}, {'name': 'r'}], 'primaryKey': 'id',
            'foreignKeys': [{'columnReference': 'r', 'reference': {'resource': 't.csv', 'columnReference': 'id'}}]}}]}))
        c, valid = None, True
        for k in h:
            put(d, 't.csv', CONTENT[k])
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                c = c or CSVW(str(md))
                got = c.is_valid
            valid = valid and k == 'g'
            same(got, valid, 'verdict with {}'.format(k))
