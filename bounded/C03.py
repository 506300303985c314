"""C03, bounded: dict and namedtuple readers on generated files."""
import collections
import io
import os
import warnings

from csvw.dsv import UnicodeDictReader, NamedTupleReader, iterrows, reader
from csvw.dsv_dialects import Dialect
from bounded.lib import Registry, require, same, tmpdir
from bounded.tables import csv_text, put

check = Registry()
CELLS = ['', 'a', '0', ' ', 'x y', 'ä', 'q"q', 'n\nl', '1', 'None', ',']
NAMES = ['a', 'b', 'the c', 'D', '1st', 'x', 'y-z', 'class', 'long name', 'é', 'k11', 'k12']


def gen(r):
    names = r.sample(NAMES, r.choice([1, 1, 2, 3, 3, 5, 12]))
    rows = [[r.choice(CELLS) for _ in range(r.choice([0, 1, 2, 3, 3, 4, 6, len(names), len(names), len(names)]))]
            for _ in range(r.choice([0, 1, 2, 3, 6, 12, 40]))]
    given = r.random() < 0.4
    if given and r.random() < 0.3:
        rows.insert(0, [])
    opt = {}
    if r.random() < 0.4:
        opt['restkey'] = r.choice(['rest', '_'])
    if r.random() < 0.4:
        opt['restval'] = r.choice(['', '-', 'missing'])
    return names, rows, given, opt, r.choice(['list', 'file', 'path']), r.choice([False, True]), r.random() < 0.3


def fixed():
    for rows in ([], [['1']], [[], ['1'], [], [], ['2', '3', '4'], []], [['']], [['', '']], [['1', '2'], []]):
        for given in (True, False):
            for early in (True, False):
                yield ['a', 'b'], rows, given, {}, 'list', early, False


def mapping(names, row, opt):
    d = collections.OrderedDict(zip(names, row))
    if len(row) > len(names):
        d[opt.get('restkey')] = row[len(names):]
    for n in names[len(row):]:
        d[n] = opt.get('restval')
    return d


def source(d, names, rows, given, how):
    text = csv_text(([] if given else [names]) + rows)
    return put(d, 'x.csv', text) if how == 'path' else io.StringIO(text, newline='') if how == 'file' else \
        io.StringIO(text, newline='').readlines()


@check('dict readers', gen=gen, n=1500, fixed=fixed)
def dicts(x):
    names, rows, given, opt, how, early, dialect = x
    want = [mapping(names, row, opt) for row in rows if row]
    with tmpdir() as d:
        kw = dict(opt)
        if given:
            kw['fieldnames'] = list(names)
        if dialect:
            kw['dialect'] = Dialect(commentPrefix=None, header=not given)
        with UnicodeDictReader(source(d, names, rows, given, how), **kw) as rd:
            if early:
                same(list(rd.fieldnames), names, 'field names')
            got = []
            for item in rd:
                got.append(item)
                if early:
                    same(list(rd.fieldnames), names, 'field names')
            same(got, want, 'mappings')
            same([set(g) for g in got], [set(w) for w in want], 'keys')
            require(next(rd, None) is None, 'the reader goes on after its end')
        if not opt and not dialect:
            same(list(iterrows(source(d, names, rows, given, how), dicts=True, **kw)), want, 'iterrows')


@check('namedtuple readers', gen=gen, n=600, fixed=fixed)
def tuples(x):
    names, rows, given, opt, how, early, dialect = x
    norm = {'the c': 'the_c', '1st': '_1st', 'y-z': 'y_z', 'class': 'class_', 'long name': 'long_name', 'é': 'e'}
    names = [n for n in names if n != '1st']
    if not names:
        names = ['a']
    fields = [norm.get(n, n) for n in names]
    want = [[row[i] if i < len(row) else None for i in range(len(names))] for row in rows if row]
    with tmpdir() as d:
        kw = {'fieldnames': list(names)} if given else {}
        src = source(d, names, rows, given, how)
        if early:
            got = list(reader(src, namedtuples=True, **kw))
        else:
            with NamedTupleReader(src, **kw) as rd:
                got = list(rd)
        same([list(t) for t in got], want, 'tuples')
        for t in got:
            same([getattr(t, f) for f in fields], list(t), 'fields')


@check('rows', gen=gen, n=200, fixed=fixed)
def plain(x):
    names, rows, given, opt, how, early, dialect = x
    with tmpdir() as d:
        src = source(d, names, rows, given, how)
        same(list(iterrows(src)), ([] if given else [names]) + rows, 'rows')
