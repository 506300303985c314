"""C04: in-place file edits are exact and all-or-nothing."""
import pathlib
from pv.h import *
import csvw.dsv as D

HARNESSES, harness = registry()

ASSUMPTIONS = [
    'contracts of UnicodeReader (C02) and UnicodeWriter (C01): rows are read and written in order; both may raise anywhere',
    'moving the finished temporary file over the original either happens or not (shutil.move, os.replace)',
]
CELL = uf('cell', V, INT, INT)
ROW, KEEP, NEW = uf('row', INT, V), uf('keep', INT, BOOL), uf('new_row', INT, V)


def make_row(t):
    c = Ctx.cur
    c.fact(V.is_L(t))
    c.fact(slen(t) >= 0)
    c.fact((slen(t) == 0) == (V.l(t) == V.nil))
    s = SSeq(slen(t), lambda j: SVal(V.S(CELL(t, z3.simplify(j)))), 'list', key=t)
    s.remake = lambda nm: make_row(z3.Const(nm, V))
    return s


class Boom(Exception):
    pass


class Ghost:
    def __init__(self):
        self.todo = False      # the last row has not been shown to the visitor
        self.unwritten = False   # the row returned by the visitor has not been written
        self.index = -1
        self.moved = False
        self.extra = 0         # rows added


class H:
    pass


def may_raise(what):
    if H.faults and H.ctx.choose(2):
        H.ctx.cover(what + ' fails')
        raise Boom('contract: ' + what)


class Temp:
    __pv_model__ = True
    name = '/scratch/tmp'

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def tempfile_(*a, **kw):
    H.ctx.prove('the temporary file is kept', BoolVal(kw.get('delete') is False))
    return Temp()


class Reader(Stream):
    entered, left = False, False

    def __enter__(self):
        self.entered = True
        return self

    def __exit__(self, *a):
        self.left = True


class Writer:
    __pv_model__ = True
    left = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.left = True

    def writerow(self, row):
        ctx, g = H.ctx, H.g
        may_raise('writing')
        ctx.prove('written before the writer is closed', BoolVal(not self.left))
        H.written(row)

    def writerows(self, rows):
        RT.call(D.UnicodeWriter.writerows, self, rows)


def reader_(f, *a, **kw):
    H.ctx.prove('the file is read once, with the given parameters', BoolVal(
        H.reader is None and str(f) == H.fname and not a and kw == H.kw), repr(kw))
    n = Int('rows')
    H.ctx.assume(n >= 0)
    H.n = n
    H.reader = Reader(SSeq(n, lambda i: VList(base=make_row(ROW(i))), 'iter'), [next_row])
    return H.reader


def writer_(f=None, *a, **kw):
    H.ctx.prove('a temporary file is written, with the given parameters', BoolVal(
        H.writer is None and str(f) == Temp.name and not a and kw == H.kw), repr(kw))
    H.writer = Writer()
    return H.writer


def settle():
    H.ctx.prove('every row is shown to the visitor', Not(bt(H.g.todo)))
    H.ctx.prove('every row to keep is written', Not(bt(H.g.unwritten)))


def next_row(v, st):
    settle()
    may_raise('reading')
    H.g.index = SInt.of(z3.simplify(it(st.pos) - 1))
    H.shown(v)


def move(src, dst, *a, **kw):
    ctx, g = H.ctx, H.g
    ctx.prove('the temporary file replaces the original', BoolVal(str(src) == Temp.name and str(dst) == H.fname))
    ctx.prove('only once', BoolVal(g.moved is False))
    ctx.prove('the original is not replaced before all rows are written', BoolVal(H.writer is not None and H.writer.left))
    ctx.prove('and not while it is read', BoolVal(H.reader is None or H.reader.left))
    if H.reader is not None:
        ctx.prove('nor before all rows are read', it(H.reader.pos) == H.n)
    settle()
    H.finished()
    g.moved = True


def forbidden(*a, **kw):
    H.ctx.prove('the original is not touched otherwise', BoolVal(False))


def is_file(p):
    H.ctx.prove('the file is looked at', BoolVal(str(p) == H.fname))
    return True


def exists(p):
    return H.exists


C = {'csvw.dsv.UnicodeReader': reader_, 'csvw.dsv.UnicodeWriter': writer_, 'tempfile.NamedTemporaryFile': tempfile_,
     'shutil.move': move, 'os.replace': move, 'posix.replace': move, 'pathlib.Path.replace': move, 'pathlib.Path.is_file': is_file,
     'pathlib.Path.exists': exists, '_io.open': forbidden, 'pathlib.Path.open': forbidden, 'pathlib.Path.unlink': forbidden,
     'posix.remove': forbidden, 'pathlib.Path.write_text': forbidden, 'pathlib.Path.write_bytes': forbidden,
     'shutil.copyfile': forbidden, 'shutil.copy': forbidden}


def setup(ctx, faults, kw):
    H.ctx, H.g, H.faults, H.kw = ctx, Ghost(), faults, kw
    H.fname, H.reader, H.writer, H.n, H.exists = 'dir/x.csv', None, None, None, True
    H.finished = lambda: None
    ctx.roots['g'] = H.g


def outcome(k, r):
    """True if the call succeeded; on failure the original must be untouched"""
    ctx = H.ctx
    if k == 'exc':
        ctx.prove('only failures of reading, the visitor or writing are raised', BoolVal(from_contract((k, r))), repr(r))
        ctx.prove('the original file is left untouched', BoolVal(H.g.moved is False))
        return False
    ctx.cover('done')
    ctx.prove('the original file is replaced', BoolVal(H.g.moved is True))
    return True


def src():
    return [H.fname, pathlib.Path(H.fname)][H.ctx.choose(2)]


for _faults in (False, True):
    def _mk(faults):
        @harness('rewrite' + (' (failures anywhere)' if faults else ''), contracts=C)
        def rewrite(ctx):
            ctx.expect_cover('done', 'visited', *(['reading fails', 'visitor fails', 'writing fails'] if faults else []))
            setup(ctx, faults, [{}, {'delimiter': '\t', 'encoding': 'utf-16'}][ctx.choose(2)])
            g = H.g

            def shown(v):
                g.todo = True
                H.row = v

            def written(row):
                i = it(g.index)
                ctx.prove('only what the visitor returned is written, once', bt(g.unwritten))
                ctx.prove('the row the visitor returned', lift(row) == NEW(i))
                g.unwritten = False

            def visitor(i, row):
                ctx.cover('visited')
                may_raise('visitor')
                ctx.prove('every row is shown once', bt(g.todo))
                k = it(g.index)
                ctx.prove('with its 0-based index', it(i) == k)
                ctx.prove('as it is', eq(row, VList(base=make_row(ROW(k)))))
                g.todo = False
                if ctx.branch(KEEP(k)):
                    g.unwritten = True
                    ctx.fact(V.is_L(NEW(k)))
                    return VList(base=make_row(NEW(k)))
                return None
            H.shown, H.written = shown, written
            outcome(*run(D.rewrite, src(), visitor, **H.kw))

        @harness('add_rows' + (' (failures anywhere)' if faults else ''), contracts=C, kind='shape',
                 bound='0 to 3 added rows; any number of existing rows')
        def add_rows(ctx):
            ctx.expect_cover('done', *(['reading fails', 'writing fails'] if faults else []))
            setup(ctx, faults, {})
            H.exists = bool(ctx.choose(2))
            g = H.g
            rows = [VList([fresh_str('a')]), VList(base=fresh_str_seq('b')), VList([])][:ctx.choose(4)]

            def shown(v):
                g.unwritten = True

            def written(row):
                if H.exists and ctx.branch(bt(g.unwritten)):
                    ctx.prove('existing rows are kept as they are', eq(row, VList(base=make_row(ROW(it(g.index))))))
                    g.unwritten = False
                    return
                if H.exists:
                    ctx.prove('all existing rows come first', it(H.reader.pos) == H.n if H.reader is not None else BoolVal(False))
                ctx.prove('as many rows are added as are given', BoolVal(isinstance(g.extra, int) and g.extra < len(rows)))
                if g.extra < len(rows):
                    ctx.prove('the rows are added in order', eq(row, rows[g.extra]))
                g.extra += 1

            def finished():
                ctx.prove('all rows are added', BoolVal(g.extra == len(rows)))
                ctx.prove('an existing file is read', BoolVal((H.reader is not None) == H.exists))
            H.shown, H.written, H.finished = shown, written, finished
            outcome(*run(D.add_rows, src(), *rows))
    _mk(_faults)


# ---------------------------------------------------------------- filtering
HEADERS = [['a'], ['a', 'b'], ['x', 'y', 'z']]


class Filter:
    """accepts or rejects; called once per non-empty row, with the mapping of that row"""
    __pv_model__ = True

    def __init__(self, ctx, header):
        self.ctx, self.header, self.calls = ctx, header, []

    def expect(self, cells, n):
        self.cells, self.n = cells, n

    def __call__(self, item):
        ctx = self.ctx
        ctx.prove('the filter sees every row once', BoolVal(self.cells is not None))
        keys = list(values.dkeys(item))
        ctx.prove('as a mapping of the header to the cells', BoolVal(keys == self.header[:self.n]), repr(keys))
        for k, c in zip(self.header, self.cells or ()):
            ctx.prove('with the value of the field', eq(RT.dget(item, k), c) if k in keys else BoolVal(False))
        self.cells = None
        self.calls.append(bool(ctx.choose(2)))
        return self.calls[-1]


def split_row(ctx, name, k):
    """(row, cells to be seen, number of fields to be seen) for a row of any length"""
    s = make_row(z3.Const(name, V))
    for m in range(k + 1):
        if ctx.branch(s.n == m):
            cells = [s.get(IntVal(j)) for j in range(m)]
            return VList(cells), cells, m
    ctx.assume(s.n > k)
    return VList(base=s), [s.get(IntVal(j)) for j in range(k)], k


def visit(ctx, f, visitor, name, i):
    """shows one data row to the visitor of a filter; the number of rows rejected"""
    row, cells, m = split_row(ctx, name, len(f.header))
    f.expect(cells, m)
    k, r = run(visitor, i, row)
    ctx.prove('filtering raises nothing', BoolVal(k == 'ok'), repr(r))
    if m == 0:
        ctx.prove('an empty row is not filtered', BoolVal(f.cells is not None))
        ctx.prove('but dropped', BoolVal(r is None))
        return 0
    ctx.prove('every row is filtered', BoolVal(f.cells is None))
    if f.calls and f.calls[-1]:
        ctx.cover('accepted')
        ctx.prove('an accepted row is kept as it is', BoolVal(False) if r is None else eq(r, row))
        return 0
    ctx.cover('rejected')
    ctx.prove('a rejected row is dropped', BoolVal(r is None))
    return 1


@harness('filter_rows_as_dict', contracts={'csvw.dsv.rewrite': lambda *a, **kw: H.rewrite(*a, **kw)}, kind='shape',
         bound='headers of 1 to 3 fields, up to two data rows of any length')
def filtering(ctx):
    ctx.expect_cover('accepted', 'rejected')
    header = HEADERS[ctx.choose(3)]
    f = Filter(ctx, header)
    kw = [{}, {'delimiter': ';'}][ctx.choose(2)]
    n = ctx.choose(3) if len(header) < 3 else 1
    st = {'rejected': 0, 'calls': 0}

    def rewrite(fname, visitor, **k):
        ctx.prove('the given file is rewritten, with the given parameters', BoolVal(fname == 'x.csv' and k == kw))
        st['calls'] += 1
        f.cells = None
        kind, r = run(visitor, 0, VList(header))
        ctx.prove('the header is kept, and not filtered', BoolVal(kind == 'ok' and list(r) == header and not f.calls))
        for i in range(n):
            st['rejected'] += visit(ctx, f, visitor, 'row%d' % i, i + 1)
    H.rewrite = rewrite
    k, r = run(D.filter_rows_as_dict, 'x.csv', f, **kw)
    ctx.prove('filtering succeeds', BoolVal(k == 'ok'), repr(r))
    ctx.prove('the file is rewritten once', BoolVal(st['calls'] == 1))
    ctx.prove('the number of rejected rows is returned', eq(r, st['rejected']))


if hasattr(D, 'DictFilter'):
    for _h in HEADERS + [['p', 'q', 'r', 's', 't']]:
        def _mk2(header):
            @harness('DictFilter.__call__ ({} fields)'.format(len(header)), kind='shape',
                     bound='the given header; any row, after any number of rows')
            def one(ctx):
                ctx.expect_cover('accepted', 'rejected')
                f = Filter(ctx, header)
                k, v = run(D.DictFilter, f)
                ctx.prove('nothing has been rejected', eq(v.removed, 0))
                k, r = run(v, 0, VList(header))
                ctx.prove('the header is kept', BoolVal(k == 'ok' and list(r) == header))
                before = it(v.removed)
                ctx.prove('the header is not rejected', before == 0)
                n, i = Int('rejected'), Int('i')
                ctx.assume(And(n >= 0, i >= 1))
                v.removed = SInt(n)
                m = visit(ctx, f, v, 'row', SInt(i))
                ctx.prove('rejected rows are counted', it(v.removed) == n + m)
        _mk2(_h)
