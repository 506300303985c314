"""C01: DSV text written by the writer reads back as the same rows."""
import codecs
import csv
import pathlib
from pv.h import *
import csvw.dsv as D
from csvw.dsv_dialects import Dialect

HARNESSES, harness = registry()

ASSUMPTIONS = [
    'contract of the csv module (library, Python 3.12): text written by csv.writer with some format parameters is read '
    'back as the same rows by csv.reader with the same parameters, whatever the line terminator, if the delimiter, '
    'the quote and the escape character differ and skipinitialspace drops no cell content',
    'contract of io.open and io.StringIO with newline="": text is written and read without newline translation',
    'the codecs are inverse on the text they manage to encode',
]
CELL = uf('cell', V, INT, INT)
ROW = uf('row', INT, V)
DEFAULTS = dict(delimiter=',', quotechar='"', doublequote=True, escapechar=None, skipinitialspace=False, quoting=None,
                dialect=None)


def make_row(t):
    c = Ctx.cur
    c.fact(V.is_L(t))
    c.fact(slen(t) >= 0)
    c.fact((slen(t) == 0) == (V.l(t) == V.nil))
    s = SSeq(slen(t), lambda j: SVal(V.S(CELL(t, z3.simplify(j)))), 'list', key=t)
    s.remake = lambda nm: make_row(z3.Const(nm, V))
    return s


class H:
    pass


class Ghost:
    pass


class File:
    __pv_model__ = True

    def __init__(self, content=None):
        self.closed, self.content, self.at_start, self.written = False, content, False, []

    def close(self):
        self.closed = True

    def seek(self, pos, *a):
        H.ctx.prove('seeking the start', BoolVal(pos == 0 and (not a or a == (0,))))
        self.at_start = True

    def tell(self):
        return 0

    def read(self):
        H.ctx.prove('everything that was written is read', BoolVal(self.at_start))
        self.at_start = False
        return self.content

    def getvalue(self):
        return self.content


class CsvWriter:
    __pv_model__ = True

    def writerow(self, row):
        H.written(row)


def open_(f, mode='r', encoding=None, newline=None, **kw):
    H.ctx.prove('no other parameters', BoolVal(not kw), repr(kw))
    r = File()
    H.opened.append((str(f), ''.join(sorted(mode.replace('t', ''))), encoding, newline, r))
    return r


def stringio(*a, newline='\n'):
    H.ctx.prove('the buffer starts empty and translates no line ends', BoolVal(not any(a[:1]) and (a[1:] or (newline,))[0] == ''))
    r = File(H.content)
    H.buffers.append(r)
    return r


def writer_(f, *a, **kw):
    H.writers.append((f, a, kw))
    return CsvWriter()


def reader_(f, *a, **kw):
    H.readers.append((f, a, kw))
    return Stream(SSeq(IntVal(0), lambda i: None, 'iter'))


C = {'_io.open': open_, '_csv.reader': reader_, '_csv.writer': writer_, '_io.StringIO': stringio}


def setup(ctx):
    H.ctx, H.opened, H.buffers, H.writers, H.readers = ctx, [], [], [], []
    H.content = 'x,\xe4\r\n'
    H.written = None


def same_codec(a, b):
    return codecs.lookup(a).name == codecs.lookup(b).name


def readable(written, read):
    """text encoded with one is decoded by the other, except for a leading byte order mark"""
    return same_codec(written, read) or (
        codecs.lookup(read).name == 'utf-8-sig' and codecs.lookup(written).name in ('utf-8', 'utf-8-sig'))


def param(kw, k):
    if kw.get('dialect') is not None and k not in kw:
        return None
    return kw.get(k, DEFAULTS[k])


def same_term(a, b):
    if is_sym_(a) or is_sym_(b):
        return lift(a) == lift(b)
    return BoolVal(type(a) is type(b) and a == b)


def is_sym_(x):
    return isinstance(x, (SVal, SBool, SInt))


def formats(given, terminator):
    """the csv writer and the csv reader of the pair were given the same format"""
    ctx = H.ctx
    ctx.prove('one csv writer and one csv reader', BoolVal(len(H.writers) == len(H.readers) == 1))
    (fw, aw, w), (fr, ar, r) = H.writers[0], H.readers[0]
    ctx.prove('no positional parameters', BoolVal(not aw and not ar))
    for k in DEFAULTS:
        ctx.prove('same {} for writing and reading'.format(k), same_term(param(w, k), param(r, k)))
        if k in given:
            ctx.prove('the declared {}'.format(k), same_term(param(w, k), given[k]))
    unknown = set(w) | set(r)
    unknown -= set(DEFAULTS) | {'strict', 'lineterminator'}
    ctx.prove('no other format parameters', BoolVal(not unknown), repr(unknown))
    ctx.prove('the declared line terminator', same_term(w.get('lineterminator', '\r\n'), terminator))


def both(target, source, given):
    """opens a writer and a reader; returns both"""
    ctx = H.ctx
    k, w = run(D.UnicodeWriter, target, **given)
    ctx.prove('a writer is created', BoolVal(k == 'ok'), repr(w))
    k, r = meth(w, '__enter__')
    ctx.prove('the writer opens', BoolVal(k == 'ok' and r is w), repr(r))
    k, rd = run(D.UnicodeReader, source, **given)
    ctx.prove('a reader is created', BoolVal(k == 'ok'), repr(rd))
    k, r = meth(rd, '__enter__')
    ctx.prove('the reader opens', BoolVal(k == 'ok' and r is rd), repr(r))
    return w, rd


def paths(encoding, terminator):
    """what is known about the two files that were opened"""
    ctx = H.ctx
    ctx.prove('the target is opened for writing and the source for reading', BoolVal(
        [(p, m) for p, m, *_ in H.opened] == [('dir/x.csv', 'w'), ('dir/x.csv', 'r')]), repr(H.opened))
    (_, _, ew, nw, fw), (_, _, er, nr, fr) = H.opened
    ctx.prove('the declared encoding is written', BoolVal(same_codec(ew, encoding)), repr(ew))
    ctx.prove('and read', BoolVal(readable(ew, er)), '%r %r' % (ew, er))
    ctx.prove('line ends are written as they are', BoolVal(nw == ''))
    ctx.prove('and read as they are', BoolVal(nr == '' or (not is_sym_(terminator) and nr == terminator)), repr(nr))
    ctx.prove('the csv writer and reader work on these files', BoolVal(H.writers[0][0] is fw and H.readers[0][0] is fr))
    return fw, fr


def leave(w, fw, opened):
    ctx = H.ctx
    k, r = meth(w, '__exit__', None, None, None)
    ctx.prove('leaving raises nothing and swallows nothing', BoolVal(k == 'ok' and not r))
    ctx.prove('an opened file is closed, a given one is left open', BoolVal(fw.closed is opened))


def src(ctx):
    return ['dir/x.csv', pathlib.Path('dir/x.csv')][ctx.choose(2)]


CODECS = {None: 'utf-8', 'utf-8': 'utf-8', 'UTF-8': 'utf-8', 'utf8': 'utf-8', 'latin-1': 'latin-1', 'UTF-8-BOM': 'utf-8-sig',
          'utf-16': 'utf-16', 'utf-8-sig': 'utf-8-sig', 'cp1252': 'cp1252'}


def dialect(ctx, encoding=None):
    """a dialect with any format attributes, constructed by the real code"""
    double, skip = ctx.choose(2) == 1, ctx.choose(2) == 1
    quote = optional('q', lambda _: fresh_str('quoteChar'))
    delim = fresh_str('delimiter')
    term = fresh_str('terminator')
    lt_ = [[term], [term, '\n']][ctx.choose(2)]
    kw = dict(delimiter=delim, doubleQuote=double, quoteChar=quote, skipInitialSpace=skip, lineTerminators=lt_)
    if encoding:
        kw['encoding'] = encoding
    k, d = run(Dialect, **kw)
    ctx.prove('any dialect can be described', BoolVal(k == 'ok'), repr(d))
    want = dict(delimiter=delim, doublequote=double, quotechar=quote, skipinitialspace=skip)
    esc = None
    if quote is not None:
        esc = None if double else '\\'
    want['escapechar'] = esc
    return d, want, term


@harness('writer and reader of a dialect', contracts=C)
def by_dialect(ctx):
    ctx.expect_cover('opened')
    setup(ctx)
    enc = [None, 'latin-1', 'utf-16', 'UTF-8-BOM'][ctx.choose(4)]
    d, want, term = dialect(ctx, enc)
    given = dict(dialect=d)
    if ctx.choose(2):
        given['delimiter'] = want['delimiter'] = fresh_str('delimiter2')
    w, rd = both(src(ctx), src(ctx), given)
    formats(want, term)
    fw, fr = paths(CODECS[enc], term)
    leave(w, fw, True)
    ctx.cover('opened')


@harness('writer and reader of a dialect (encodings)', contracts=C, kind='shape', bound='the encodings listed')
def by_encoding(ctx):
    ctx.expect_cover('opened')
    setup(ctx)
    enc = sorted(CODECS, key=str)[ctx.choose(len(CODECS))]
    given = dict(dialect=Dialect(**({'encoding': enc} if enc else {}))) if ctx.choose(2) else {'encoding': enc} if enc else {}
    if 'encoding' in given and enc == 'UTF-8-BOM':
        return
    w, rd = both(src(ctx), src(ctx), given)
    paths(CODECS[enc], '\r\n')
    ctx.cover('opened')


@harness('writer and reader with format parameters', contracts=C)
def by_params(ctx):
    ctx.expect_cover('opened')
    setup(ctx)
    given = {}
    for k, make in (('delimiter', fresh_str), ('quotechar', fresh_str), ('doublequote', fresh_bool),
                    ('escapechar', fresh_str), ('skipinitialspace', fresh_bool)):
        given[k] = make(k)
        if k == 'escapechar':
            ctx.assume(V.s(lift(given[k])) != 0)
    for k in list(given):
        # one parameter is not given
        if ctx.choose(2):
            del given[k]
            break
    q = ctx.choose(5)
    if q:
        given['quoting'] = q - 1
    term = '\r\n'
    if ctx.choose(2):
        term = given['lineterminator'] = ['\n', '\r\n'][ctx.choose(2)]
    if ctx.choose(2):
        given['dialect'] = 'excel-tab'
        w, rd = both(src(ctx), src(ctx), dict(given))
    else:
        w, rd = both(src(ctx), src(ctx), dict(given))
    formats(given, term)
    paths('utf-8', term)
    ctx.cover('opened')


@harness('in-memory and given targets', contracts=C)
def memory(ctx):
    ctx.expect_cover('buffer', 'file')
    setup(ctx)
    given = {} if ctx.choose(2) else dict(dialect=dialect(ctx)[0])
    f = None if ctx.choose(2) else File(H.content)
    k, w = run(D.UnicodeWriter, f, **given)
    ctx.prove('a writer is created', BoolVal(k == 'ok'), repr(w))
    k, r = meth(w, '__enter__')
    ctx.prove('the writer opens', BoolVal(k == 'ok' and r is w), repr(r))
    ctx.prove('no file is opened', BoolVal(not H.opened))
    if f is None:
        ctx.prove('one buffer is created', BoolVal(len(H.buffers) == 1))
        ctx.cover('buffer')
        k, r = meth(w, 'read')
        ctx.prove('the whole text is returned as UTF-8', BoolVal(k == 'ok' and r == H.content.encode('utf-8')), repr(r))
    else:
        ctx.prove('no buffer is created', BoolVal(not H.buffers))
        ctx.cover('file')
    target = f or H.buffers[0]
    ctx.prove('the csv writer works on it', BoolVal(len(H.writers) == 1 and H.writers[0][0] is target))
    leave(w, target, False)


# ---------------------------------------------------------------- rows
def configured(ctx):
    """a writer with any format"""
    how = ctx.choose(4)
    if how == 0:
        given = {}
    elif how == 1:
        given = dict(dialect=dialect(ctx)[0])
    elif how == 2:
        given = dict(escapechar=fresh_str('escapechar'), doublequote=fresh_bool('doublequote'))
        ctx.assume(V.s(lift(given['escapechar'])) != 0)
    else:
        given = dict(escapechar='\\', quoting=[csv.QUOTE_ALL, csv.QUOTE_NONE, csv.QUOTE_NONNUMERIC][ctx.choose(3)])
    k, w = run(D.UnicodeWriter, **given)
    ctx.prove('a writer is created', BoolVal(k == 'ok'), repr(w))
    k, r = meth(w, '__enter__')
    ctx.prove('the writer opens', BoolVal(k == 'ok' and r is w), repr(r))
    return w


@harness('UnicodeWriter.writerow', contracts=C)
def writerow(ctx):
    ctx.expect_cover('written')
    setup(ctx)
    w = configured(ctx)
    row = make_row(z3.Const('row', V))
    count = []

    def written(got):
        count.append(1)
        s = seq_of(got)
        ctx.prove('all cells are written', s.n == row.n)
        j = it(fresh_int('j'))
        ctx.assume(And(j >= 0, j < row.n))
        ctx.prove('cells are written as they are', lift(s.get(j)) == lift(row.get(j)))
    H.written = written
    k, r = meth(w, 'writerow', VList(base=row))
    ctx.prove('rows are written without error', BoolVal(k == 'ok'), repr(r))
    ctx.prove('once', BoolVal(len(count) == 1))
    ctx.cover('written')


class FirstTemplate:
    """before the first row nothing has changed"""

    def instances(self, kinds):
        return [(p,) for p, k in kinds.items() if k == 'int' and p != 'G:g.index' and 'G:g.index' in kinds]

    def formula(self, entry, now, p):
        return Implies(it(now['G:g.index']) == it(entry['G:g.index']), it(now[p]) == it(entry[p]))


class GrowTemplate(FirstTemplate):
    """every row is counted"""

    def formula(self, entry, now, p):
        return it(now[p]) - it(entry[p]) >= it(now['G:g.index']) - it(entry['G:g.index'])


KEYS = [('a', 'b'), ('b', 'a'), ('a',), ()]


@harness('UnicodeWriter.writerows', contracts=C, kind='shape', bound='dicts with up to 2 keys; any number of rows and dicts')
def writerows(ctx):
    ctx.expect_cover('done', 'list', 'dict')
    setup(ctx)
    k, w = run(D.UnicodeWriter)
    k, r = meth(w, '__enter__')
    ctx.prove('the writer opens', BoolVal(k == 'ok' and r is w), repr(r))
    g = Ghost()
    g.todo = g.header = False     # the row / the header row has not been written
    g.index = -1
    n = Int('rows')
    ctx.assume(n >= 0)
    ctx.roots['g'] = g
    before = ctx.choose(2)
    ctx.templates.extend([FirstTemplate(), GrowTemplate()])
    cur = []

    def item(i):
        if ctx.choose(2):
            return VList(base=make_row(ROW(i)))
        keys = KEYS[ctx.choose(len(KEYS))]
        d = VDict()
        for k in keys:
            RT.dset(d, k, SVal(V.S(CELL(ROW(i), IntVal(KEYS[0].index(k))))))
        return d

    def next_row(v, st):
        ctx.prove('every row is written', Not(Or(bt(g.todo), bt(g.header))))
        g.todo = True
        g.index = SInt.of(z3.simplify(it(st.pos) - 1))
        isd = isinstance(v, VDict)
        ctx.cover('dict' if isd else 'list')
        g.header = sbool(it(g.index) == 0) if isd and not before else False
        cur[:] = [v]

    def written(got):
        if before == 1 and not cur:
            return
        v = cur[0]
        s = seq_of(got)
        if isinstance(v, VDict):
            keys = [str(k) for k in rt.dkeys(v)]
            if ctx.branch(bt(g.header)):
                ctx.prove('the header has one cell per key', s.n == len(keys))
                for j, k in enumerate(keys):
                    ctx.prove('header cell', lift(s.get(IntVal(j))) == lift(k))
                g.header = False
                return
            ctx.prove('a row is written once', bt(g.todo))
            ctx.prove('one cell per value', s.n == len(keys))
            for j, k in enumerate(keys):
                ctx.prove('values in order', lift(s.get(IntVal(j))) == lift(RT.getitem(v, k)))
        else:
            ctx.prove('a row is written once', bt(g.todo))
            ctx.prove('all cells are written', s.n == v.base.n)
            j = it(fresh_int('j'))
            ctx.assume(And(j >= 0, j < s.n))
            ctx.prove('cells are written as they are', lift(s.get(j)) == lift(v.base.get(j)))
        g.todo = False
    H.written = written
    if before:
        k, r = meth(w, 'writerow', ['x'])
        ctx.prove('rows are written without error', BoolVal(k == 'ok'), repr(r))
    seq = SSeq(n, item, 'list')
    seq.hooks = (next_row,)
    st = Stream(seq, seq.hooks)
    k, r = meth(w, 'writerows', seq if ctx.choose(2) else st)
    ctx.prove('rows are written without error', BoolVal(k == 'ok'), repr(r))
    ctx.prove('the last row is written', Not(Or(bt(g.todo), bt(g.header))))
    ctx.prove('all rows are taken', it(g.index) == n - 1)
    ctx.cover('done')


@harness('UnicodeReader.__next__')
def cells(ctx):
    ctx.expect_cover('row')
    rd = D.UnicodeReader([])
    if ctx.choose(2):
        d = rd.dialect = Dialect(commentPrefix=None)
        d.delimiter, d.quoteChar = fresh_str('delimiter'), fresh_str('quoteChar')
        d.doubleQuote = fresh_bool('doubleQuote')
    n = Int('rows')
    p = Int('consumed')
    ctx.assume(And(n >= 0, p >= 0, p <= n))
    rd.reader = st = Stream(SSeq(n, lambda i: make_row(ROW(i)), 'iter'))
    st.pos = SInt.of(p)
    rd.lineno = fresh_int('line')

    def total(s, start):
        r = fresh_int('line_breaks')
        ctx.assume(it(r) >= 0)
        return r
    ctx.sum_summary = total
    ctx.assume(it(rd.lineno) >= -1)
    k, r = meth(rd, '__next__')
    if k == 'exc':
        ctx.prove('only the end of the data ends the iteration', BoolVal(type(r) is StopIteration), repr(r))
        ctx.prove('after the last row', p == n)
        return
    ctx.cover('row')
    ctx.prove('one row is taken', it(st.pos) == p + 1)
    s, want = seq_of(r), make_row(ROW(p))
    ctx.prove('all cells', s.n == want.n)
    j = it(fresh_int('j'))
    ctx.assume(And(j >= 0, j < s.n))
    ctx.prove('cells as they are', lift(s.get(j)) == lift(want.get(j)))
