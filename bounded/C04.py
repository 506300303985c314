"""C04, bounded: in-place edits of real scratch files, with failures at every point."""
import os
import pathlib
import tempfile

import csvw.dsv
from csvw.dsv import UnicodeReader, UnicodeWriter, rewrite, add_rows, filter_rows_as_dict
from csvw.dsv_dialects import Dialect
from bounded.lib import Registry, require, same, tmpdir
from bounded.tables import csv_text

check = Registry()
CELLS = ['', 'a', '0', ' ', 'x y', 'ä', 'q"q', 'n\nl', '1', 'None', ',', '\t', "'"]


class Boom(Exception):
    pass


def rows_of(r, least=0):
    w = r.choice([1, 2, 3, 5])
    return [[r.choice(CELLS) for _ in range(r.choice([w, w, w, w, max(1, w - 1), w + 1]))]
            for _ in range(r.choice([least, 1, 2, 3, 6, 12, 40]))]


class Scratch:
    """a scratch directory that also takes the temporary files"""

    def __enter__(self):
        self.cm = tmpdir()
        self.d = pathlib.Path(self.cm.__enter__())
        self.old = tempfile.tempdir
        tempfile.tempdir = str(self.d)
        return self.d

    def __exit__(self, *a):
        tempfile.tempdir = self.old
        return self.cm.__exit__(*a)


PARAMS = [{}, {'delimiter': '\t'}, {'encoding': 'utf-16'}, {'dialect': 'excel-tab'}, {'delimiter': ';', 'encoding': 'latin-1'}]


def params(k):
    if k == len(PARAMS):
        return {'dialect': Dialect(delimiter='|', commentPrefix=None)}
    return PARAMS[k]


def fill(p, rows, kw):
    with UnicodeWriter(p, **kw) as w:
        for row in rows:
            w.writerow(row)


def content(p, kw):
    with UnicodeReader(p, **kw) as rd:
        return list(rd)


class Visitor:
    def __init__(self, keep, change, fail):
        self.keep, self.change, self.fail, self.seen, self.want = keep, change, fail, [], []

    def __call__(self, i, row):
        self.seen.append((i, list(row)))
        k = len(self.seen) - 1
        if k == self.fail:
            raise Boom
        if not self.keep[k % len(self.keep)]:
            return None
        how = self.change[k % len(self.change)]
        if how == 1:
            row = row + ['new']
        elif how == 2:
            row = [c * 2 for c in row] + ['x']
        elif how == 3:
            row = tuple(row)
        self.want.append(list(row))
        return row


def gen_rewrite(r):
    rows = rows_of(r)
    keep = [r.random() < 0.7 for _ in range(r.choice([1, 2, 5, 7]))]
    change = [r.choice([0, 0, 1, 2, 3]) for _ in range(r.choice([1, 3]))]
    return rows, keep, change, r.choice([None, None, None, 0, 1, 3, len(rows) - 1]), r.choice(range(6)), r.random() < 0.5


@check('rewrite', gen=gen_rewrite, n=400)
def rewriting(x):
    rows, keep, change, fail, kw, aspath = x
    kw = params(kw)
    with Scratch() as d:
        p = d / 'x.csv'
        fill(p, rows, kw)
        same(content(p, kw), rows, 'the generated file')
        before = p.read_bytes()
        v = Visitor(keep, change, fail)
        try:
            rewrite(p if aspath else str(p), v, **kw)
            ok = True
        except Boom:
            ok = False
        want = list(enumerate(rows))
        if fail is not None and 0 <= fail < len(rows):
            require(not ok, 'the failure of the visitor is lost')
            want = want[:fail + 1]
        same(v.seen, want, 'rows shown to the visitor')
        if not ok:
            same(p.read_bytes(), before, 'the original after a failure')
        else:
            same(content(p, kw), v.want, 'rewritten rows')


class Failing:
    """makes the n-th call of a method fail, before or after it has run"""

    def __init__(self, cls, name, n, after):
        self.cls, self.name, self.n, self.after = cls, name, n, after

    def __enter__(self):
        orig, self.count, me = getattr(self.cls, self.name), 0, self
        self.orig = orig

        def f(*a, **kw):
            me.count += 1
            if me.count == me.n and not me.after:
                raise Boom
            r = orig(*a, **kw)
            if me.count == me.n:
                raise Boom
            return r
        setattr(self.cls, self.name, f)
        return self

    def __exit__(self, *a):
        setattr(self.cls, self.name, self.orig)


def gen_fault(r):
    return (rows_of(r, 1), r.choice(['rewrite', 'filter', 'add']), r.choice(['read', 'write', 'enter', 'open']),
            r.choice([1, 2, 3, 5]), r.random() < 0.5)


@check('failures', gen=gen_fault, n=300)
def failing(x):
    rows, what, where, n, after = x
    cls, name = {'read': (UnicodeReader, '__next__'), 'write': (UnicodeWriter, 'writerow'),
                 'enter': (UnicodeWriter, '__enter__'), 'open': (UnicodeReader, '__enter__')}[where]
    with Scratch() as d:
        p = d / 'x.csv'
        fill(p, rows, {})
        before = p.read_bytes()
        with Failing(cls, name, n, after) as f:
            try:
                if what == 'rewrite':
                    rewrite(p, lambda i, row: row)
                elif what == 'filter':
                    filter_rows_as_dict(p, lambda item: True)
                else:
                    add_rows(p, ['1'], ['2'])
                ok = True
            except (Boom, StopIteration):
                ok = False
            hit = f.count >= n
        if hit and not (where == 'read' and n > len(rows)):
            require(not ok, 'the failure is lost')
        if not ok:
            same(p.read_bytes(), before, 'the original after a failure')


@check('undecodable', gen=lambda r: (rows_of(r, 1), r.choice(['rewrite', 'filter', 'add'])), n=60)
def undecodable(x):
    """a file whose last bytes cannot be decoded"""
    rows, what = x
    with Scratch() as d:
        p = d / 'x.csv'
        before = csv_text(rows).encode('utf8') * 40 + b'a,\xff\xfe\r\n'
        p.write_bytes(before)
        try:
            if what == 'rewrite':
                rewrite(p, lambda i, row: row)
            elif what == 'filter':
                filter_rows_as_dict(p, lambda item: True)
            else:
                add_rows(p, ['1'])
            require(False, 'undecodable bytes are not reported')
        except UnicodeDecodeError:
            pass
        same(p.read_bytes(), before, 'the original after a failure')


@check('add rows', gen=lambda r: (rows_of(r), rows_of(r), r.random() < 0.2, r.random() < 0.5), n=250)
def adding(x):
    old, new, missing, aspath = x
    with Scratch() as d:
        p = d / 'x.csv'
        if not missing:
            fill(p, old, {})
        add_rows(p if aspath else str(p), *new)
        same(content(p, {}), ([] if missing else old) + new, 'rows after adding')
        add_rows(p, *old)
        same(content(p, {}), ([] if missing else old) + new + old, 'rows after adding twice')


def gen_filter(r):
    names = r.sample(['a', 'b', 'c c', 'd'], r.choice([1, 2, 3]))
    body = [[r.choice(['a', '', '0', 'x', 'ä', 'n\nl']) for _ in range(
        r.choice([len(names)] * 5 + [max(1, len(names) - 1), len(names) + 1]))] for _ in range(r.choice([0, 1, 2, 5, 12, 40]))]
    return names, body, r.choice(['a', '', '0', 'x']), r.choice(range(6)), r.choice([None, None, None, 0, 2]), r.random() < 0.5


@check('filter rows', gen=gen_filter, n=300)
def filtering(x):
    names, body, bad, kw, fail, truthy = x
    kw = params(kw)
    want = [row for row in body if row[0] != bad]
    seen = []

    def keep(item):
        if len(seen) == fail:
            raise Boom
        seen.append(dict(item))
        return (item[names[0]] != bad) if truthy else (1 if item[names[0]] != bad else None)
    with Scratch() as d:
        p = d / 'x.csv'
        fill(p, [names] + body, kw)
        before = p.read_bytes()
        try:
            n = filter_rows_as_dict(p, keep, **kw)
        except Boom:
            same(p.read_bytes(), before, 'the original after a failure')
            return
        require(fail is None or fail >= len(body), 'the failure of the filter is lost')
        same(seen, [dict(zip(names, row)) for row in body], 'rows shown to the filter')
        same(content(p, kw), [names] + want, 'rows kept')
        same(n, len(body) - len(want), 'number of rows removed')
