"""C12: table writing puts every value into its column."""
from pv.h import *
import csvw.metadata as M

HARNESSES, harness = registry()

ASSUMPTIONS = [
    'contract of UnicodeWriter (decided by C01): writerow appends one row, read returns the text of all rows',
    'contract of Column.write (decided by C10): a text determined by column and value',
    'list items have a value for every non-virtual column',
]
WRITE = uf('write', INT, V, INT)


class Holder:
    pass


H = Holder()


class Ghost:
    def __init__(self):
        self.pending = False
        self.header = False
        self.index, self.count = -1, 0
        self.closed = False


class Writer:
    __pv_model__ = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        H.case.g.closed = True

    def writerow(self, row):
        H.case.written(row)

    def read(self):
        H.case.ctx.prove('the content is taken before the writer is closed', BoolVal(H.case.g.closed is False))
        H.content = fresh_str('content')
        return H.content


class Case:
    def __init__(self, ctx, cols, header, extra, strict):
        self.ctx, self.cols, self.header, self.extra, self.strict = ctx, cols, header, extra, strict
        self.plain = [k for k, c in enumerate(cols) if not c.get('virtual')]
        self.g = Ghost()
        self.g.header = header
        ctx.roots['g'] = self.g
        n = Int('items')
        ctx.assume(n >= 0)
        self.n = n
        seq = SSeq(n, self.item, 'list')
        seq.hooks = (self.next_item,)
        self.stream = seq if ctx.choose(2) else Stream(seq, seq.hooks)     # a list or an iterator
        H.kinds = {}

    def value(self, i, k):
        return uf('value%d' % k, INT, V)(i)

    def item(self, i):
        ctx, p = self.ctx, self.plain
        kind = ctx.choose(4)
        vals = [SVal(self.value(i, k)) for k in p]
        if kind == 0:
            r = (list(vals), None)
        elif kind == 1:
            r = (tuple(vals), None)
        else:
            keys = p if kind == 2 else [k for k in p if ctx.choose(2)]
            d = VDict()
            for k in reversed(keys):
                RT.dset(d, self.cols[k]['name'], SVal(self.value(i, k)))
            if self.extra and ctx.choose(2):
                RT.dset(d, 'unknown', fresh_val('extra'))
                keys = list(keys) + [-1]
            r = (d, keys)
        H.kinds[i.get_id()] = (r[1], i)
        return r[0]

    def next_item(self, v, st):
        self.settle()
        i = z3.simplify(it(st.pos) - 1)
        self.g.pending, self.g.index = True, SInt.of(i)
        self.g.count = SInt.of(it(self.g.count) + 1)

    def settle(self):
        self.ctx.prove('the header is written first', BoolVal(self.g.header is False))
        self.ctx.prove('every item is written', Not(bt(self.g.pending)))

    def written(self, row):
        ctx, g = self.ctx, self.g
        ctx.prove('rows are written before the writer is closed', BoolVal(g.closed is False))
        row = list(row)
        if g.header:
            ctx.cover('header')
            ctx.prove('the header has the names of the columns', BoolVal(row == [self.cols[k]['name'] for k in self.plain]))
            g.header = False
            return
        ctx.cover('row')
        ctx.prove('every item is written once', bt(g.pending))
        g.pending = False
        i = it(g.index)
        keys = next((k for k, x in H.kinds.values() if x.eq(i)), None)
        ctx.prove('an unknown key is refused if strict', BoolVal(not (self.strict and keys and -1 in keys)))
        ctx.prove('one cell per column', BoolVal(len(row) == len(self.plain)))
        for cell, k in zip(row, self.plain):
            v = self.value(i, k) if keys is None or k in keys else V.none
            ctx.prove('cell of column {}'.format(k), lift(cell) == V.S(WRITE(k, v)))


def writer(f=None, dialect=None, **kw):
    cs = H.case
    cs.ctx.prove('target and dialect are passed on', BoolVal(
        (f is None if cs.target is None else str(f) == cs.target) and dialect is cs.dialect and not kw))
    return Writer()


def write(self, v):
    return SVal(V.S(WRITE([k for k, c in enumerate(H.case.columns) if c is self][0], lift(v))))


C = {'csvw.dsv.UnicodeWriter': writer, 'csvw.metadata.Column.write': write}
a, b, c = {'name': 'a'}, {'name': 'b', 'titles': 'The B'}, {'name': 'c'}
v = {'name': 'v', 'virtual': True, 'valueUrl': 'http://example.org'}
SHAPES = {'three columns': [a, b, c], 'virtual columns': [b, a, v, dict(v, name='w')], 'one column': [b], 'no column': []}


for _name, _cols in SHAPES.items():
    for _header in (True, False):
        for _target in ('default', 'x.csv', None):
            def _mk(name, cols, header, target):
                @harness('Table.write ({}, {}, to {})'.format(name, 'header' if header else 'no header', target or 'memory'),
                         contracts=C, kind='shape', bound='the given columns; any number of items with any values')
                def h(ctx):
                    ctx.expect_cover(*(['row', 'header'] if header else ['row']))
                    strict = bool(ctx.choose(2))
                    t = M.Table.fromvalue({'@context': 'http://www.w3.org/ns/csvw', 'url': 't.csv',
                                           'tableSchema': {'columns': cols}, 'dialect': {'header': header}})
                    cs = H.case = Case(ctx, cols, header, name == 'three columns', strict)
                    cs.dialect, cs.columns = t.dialect, t.tableSchema.columns
                    cs.target = 't.csv' if target == 'default' else target
                    kw = {} if target == 'default' else {'fname': target}
                    if strict:
                        kw['strict'] = True
                    k, r = meth(t, 'write', cs.stream, **kw)
                    if k == 'exc':
                        i = it(cs.g.index)
                        keys = next((k for k, x in H.kinds.values() if x.eq(i)), None) or []
                        ctx.prove('only a strictly forbidden key raises', BoolVal(
                            strict and isinstance(r, ValueError) and -1 in keys), repr(r))
                        return
                    cs.settle()
                    ctx.prove('all items are written', it(cs.g.count) == cs.n)
                    if target is None:
                        ctx.prove('the content is returned', BoolVal(r is H.content))
                    else:
                        ctx.prove('the number of items is returned', it(r) == cs.n)
            _mk(_name, _cols, _header, _target)


# ---------------------------------------------------------------- zipped files
class Zip:
    """contract of zipfile.ZipFile: a new archive with the files written to it before it is closed"""
    __pv_model__ = True

    def __init__(self, path, mode='r', compression=0, **kw):
        cs = H.case
        cs.ctx.prove('one new archive next to the file', BoolVal(str(path) == cs.target + '.zip' and mode in 'wx' and not H.archives))
        H.archives.append(self)
        self.members, self.closed = {}, False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True

    def write(self, filename, arcname=None, *a, **kw):
        cs = H.case
        cs.settle()
        cs.ctx.prove('the finished file is put into the archive', BoolVal(str(filename) == cs.target and cs.g.closed is True and not H.gone and not self.closed))
        self.members[str(filename) if arcname is None else str(arcname)] = str(filename)


def unlink(self, *a, **kw):
    cs = H.case
    cs.ctx.prove('the file is removed once it is in the archive', BoolVal(
        str(self) == cs.target and not H.gone and len(H.archives) == 1 and H.archives[0].closed and bool(H.archives[0].members)))
    H.gone = True


ZIP = dict(C, **{'zipfile.ZipFile': Zip, 'pathlib.Path.unlink': unlink})


@harness('Table.write (zipped)', contracts=ZIP, kind='shape', bound='the given column and file names; any number of items with any values')
def zipped(ctx):
    ctx.expect_cover('row', 'header', 'zipped', 'not zipped')
    t = M.Table.fromvalue({'@context': 'http://www.w3.org/ns/csvw', 'url': 't.csv', 'tableSchema': {'columns': [b]}, 'dialect': {'header': True}})
    cs = H.case = Case(ctx, [b], True, False, False)
    cs.dialect, cs.columns = t.dialect, t.tableSchema.columns
    H.archives, H.gone = [], False
    want = ctx.choose(2) == 1
    kw, cs.target = [({}, 't.csv'), ({'fname': 'd/x.y.csv'}, 'd/x.y.csv'), ({'base': 'some/md.json'}, 'some/t.csv')][ctx.choose(3)]
    k, r = meth(t, 'write', cs.stream, _zipped=want, **kw)
    ctx.prove('the items are written', BoolVal(k == 'ok'), repr(r))
    cs.settle()
    ctx.prove('all items are written', it(cs.g.count) == cs.n)
    ctx.prove('the number of items is returned', it(r) == cs.n)
    ctx.cover('zipped' if want else 'not zipped')
    if want:
        ctx.prove('the archive holds the file under its name', BoolVal(
            len(H.archives) == 1 and H.archives[0].closed and list(H.archives[0].members) == [cs.target.split('/')[-1]]))
        ctx.prove('only the archive is left', BoolVal(H.gone))
    else:
        ctx.prove('the file is kept as it is', BoolVal(not H.archives and not H.gone))


# ---------------------------------------------------------------- table groups
def group_write(self, items, fname='unset', base=None, strict=False, _zipped=False, **kw):
    H.calls.append((self, items, fname, base, strict, _zipped))
    ctx = H.ctx
    if ctx.choose(2):
        raise ValueError('contract: rows')
    return fresh_int('rows')


def group_to_file(self, fname, *a, **kw):
    H.saved.append((self, str(fname)))
    return fname


GROUP = {'csvw.metadata.Table.write': group_write, 'csvw.metadata.TableLike.to_file': group_to_file}


@harness('TableGroup.write', contracts=GROUP, kind='shape', bound='a group of three tables')
def group(ctx):
    ctx.expect_cover('written', 'rows refused', 'unknown table')
    H.ctx, H.calls, H.saved = ctx, [], []
    tg = M.TableGroup.fromvalue({'@context': 'http://www.w3.org/ns/csvw', 'tables': [
        {'url': u, 'tableSchema': {'columns': [{'name': 'a'}]}} for u in ('t.csv', 'sub/u.csv', 'v')]})
    names = [['t.csv', 'sub/u.csv', 'v'], ['v', 't.csv'], [], ['sub/u.csv', 'zz']][ctx.choose(4)]
    rows = {n: SSeq(Int('n%d' % i), lambda i: {}, 'list') for i, n in enumerate(names)}
    kw = {}
    strict, zipped = ctx.choose(2) == 1, ctx.choose(2) == 1
    if strict:
        kw['strict'] = True
    if zipped:
        kw['_zipped'] = True
    k, r = meth(tg, 'write', 'some/dir/md.json', **kw, **rows)
    tables = {'t.csv': tg.tables[0], 'sub/u.csv': tg.tables[1], 'v': tg.tables[2]}
    for n, (t, items, fname, base, s, z) in zip(names, H.calls):
        ctx.prove('rows are written to the table of that name', BoolVal(t is tables.get(n) and items is rows[n]))
        ctx.prove('at its place next to the metadata', BoolVal(
            str(base) == 'some/dir' and fname in ('unset', M.DEFAULT) or str(fname) == 'some/dir/' + n), repr((base, fname)))
        ctx.prove('strictness and compression are passed on', BoolVal(bool(s) == strict and bool(z) == zipped))
    if k == 'exc':
        ctx.cover('rows refused' if from_contract((k, r)) else 'unknown table')
        ctx.prove('only refused rows and unknown tables raise', BoolVal(from_contract((k, r)) or 'zz' in names), repr(r))
        return
    ctx.cover('written')
    ctx.prove('every table is written, once', BoolVal(len(H.calls) == len(names) and 'zz' not in names))
    ctx.prove('the metadata is written, once', BoolVal(H.saved == [(tg, 'some/dir/md.json')]))
