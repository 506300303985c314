"""C02: dialect flags decide exactly which rows, columns and comments a reader yields."""
import codecs
from pv.h import *
import csvw.dsv as D
from csvw.dsv_dialects import Dialect

HARNESSES, harness = registry()

ASSUMPTIONS = [
    'contract of csv.reader (library): it yields lists of text cells, or StopIteration at the end',
    'text lines end in a line feed (a lone carriage return inside a cell does not count as a line break)',
    'str methods are uninterpreted functions; removing a prefix repeatedly is axiomatised by one step',
]
CELL = uf('cell', V, INT, INT)
PS = uf('line_breaks_before', V, INT, INT)   # in the first cells of a row
NL = uf('line_breaks', V, INT)                # of all cells of a row
_unp = uf('without_prefix', V, INT)


def UNP(x):
    return V.S(_unp(x))

#: a text without the comment prefix(es) it starts with


def row_of(t):
    s = SSeq(slen(t), lambda j: SVal(V.S(CELL(t, z3.simplify(j)))), 'list', key=t)
    s.remake = lambda nm: make_row(z3.Const(nm, V))
    return s


def make_row(t):
    c = Ctx.cur
    c.fact(V.is_L(t))
    c.fact(slen(t) >= 0)
    c.fact((slen(t) == 0) == (V.l(t) == V.nil))
    return row_of(t)


class Ghost:
    pass


class H:
    case = None


class UnprefixTemplate:
    """a text that is shortened step by step has the same rest as the text it started with"""

    def instances(self, kinds):
        return [(p,) for p, k in kinds.items() if k in ('str', 'val')]

    def formula(self, entry, now, p):
        for x in (entry[p], now[p]):
            H.case.unprefix(x)
        return UNP(lift(entry[p])) == UNP(lift(now[p]))


class CountTemplate:
    """a counter grows by the line breaks in the cells that have been seen"""

    def instances(self, kinds):
        return [(p,) for p, k in kinds.items() if k == 'int' and p != 'IT.pos' and 'IT.pos' in kinds]

    def formula(self, entry, now, p):
        r, pos = H.case.g.row.base, z3.simplify(it(now['IT.pos']))
        last = z3.simplify(pos - 1)
        c = H.case.ctx
        c.fact(PS(r.key, IntVal(0)) == 0)
        c.fact(Implies(pos > 0, PS(r.key, pos) == PS(r.key, last) + it(RT.meth(r.get(last), 'count', '\n'))))
        c.fact(NL(r.key) == PS(r.key, r.n))
        return it(now[p]) - it(entry[p]) == PS(r.key, pos)


class Case:
    def __init__(self, ctx, cls=D.UnicodeReader, dialect=True, how=2, blank=False, trim='true'):
        self.ctx = ctx
        self.g = g = Ghost()
        self.rd = cls([])
        n = Int('rows')
        p = Int('consumed')
        ctx.assume(And(n >= 0, p >= 0, p <= n))
        self.n = n
        row = uf('row', INT, V)
        self.seq = SSeq(n, lambda i: make_row(row(i)), 'iter')
        self.stream = self.rd.reader = Stream(self.seq, [self.next_row])
        self.stream.pos = SInt.of(p)
        L = Int('line')
        ctx.assume(L >= -1)
        g.line = self.rd.lineno = SInt(L)
        g.first = True          # no row has been read by this call
        g.row = VList(base=make_row(z3.Const('norow', V)))
        self.expected, self.rd.comments = VList(), VList()
        ctx.roots.update(g=g, expected=self.expected)
        self.dialect = self.prefix = None
        self.skip_rows = self.skip_cols = IntVal(0)
        self.skip_blank = False
        if dialect:
            self.dialect = d = self.rd.dialect = Dialect()
            self.prefix = [None, '', None][how] if how < 2 else fresh_str('prefix')
            if how == 2:
                ctx.assume(V.s(lift(self.prefix)) != 0)
            d.commentPrefix = self.prefix
            d.delimiter = fresh_str('delimiter')
            sr, sc = Int('skipRows'), Int('skipColumns')
            ctx.assume(And(sr >= 0, sc >= 0))
            d.skipRows, d.skipColumns = SInt(sr), SInt(sc)
            self.skip_rows, self.skip_cols = sr, sc
            d.skipBlankRows = self.skip_blank = blank
            d.trim = self.trim = trim
        ctx.templates += [UnprefixTemplate(), CountTemplate()]
        ctx.sum_summary = self.sum

    def sum(self, s, start):
        """contract of the sum over the line breaks in the cells of the row just read"""
        r = self.g.row.base
        self.ctx.prove('the line breaks of all cells are counted', s.n == r.n)
        j = fresh_int('cell')
        jt = it(j)
        self.ctx.assume(And(jt >= 0, jt < r.n))
        self.ctx.prove('line breaks of a cell', it(s.get(jt)) == it(RT.meth(r.get(jt), 'count', '\n')))
        return SInt.of(NL(r.key) + it(start))

    # -- specification
    def unprefix(self, x):
        """one step of removing the prefix"""
        if not isinstance(self.prefix, SVal):
            return
        x, pl = lift(x), lift(self.prefix)
        sw = uf('str_startswith1', V, V, BOOL)
        cut = V.S(uf('str_slice', V, V, V, V, INT)(x, V.I(slen(pl)), V.none, V.none))
        self.ctx.fact(UNP(x) == If(sw(x, pl), UNP(cut), x))
        self.ctx.fact(Implies(sw(x, pl), V.S(uf('str_removeprefix1', V, V, INT)(x, pl)) == cut))

    def drop(self):
        """the row read last must not be returned"""
        r = self.g.row.base
        if not self.dialect:
            return bt(self.g.first)
        return Or(bt(self.g.first), self.comment(r), self.blank(r), it(self.g.line) < self.skip_rows)

    def comment(self, r):
        if not isinstance(self.prefix, SVal):
            return BoolVal(False)
        return And(r.n > 0, bt(RT.meth(r.get(IntVal(0)), 'startswith', self.prefix)))

    def blank(self, r):
        if not self.skip_blank:
            return BoolVal(False)
        j = Int('blank.j')
        return ForAll([j], Implies(And(j >= 0, j < r.n), CELL(r.key, j) == 0))

    def next_row(self, v, st):
        ctx, g, r = self.ctx, self.g, v
        ctx.fact(it(RT.meth(RT.join('', r), 'count', '\n')) == NL(r.key))
        ctx.prove('a row that is not to be dropped is returned', self.drop())
        self.record()
        g.first = False
        g.line = SInt.of(it(g.line) + 1 + NL(r.key))
        g.row = VList(base=r)

    def record(self):
        """the entry for the row read last, once it is known to be dropped"""
        ctx, g, r = self.ctx, self.g, self.g.row.base
        if not self.dialect or ctx.branch(bt(g.first)):
            return
        if ctx.branch(Or(self.comment(r), And(r.n > 0, it(g.line) < self.skip_rows))):
            text = RT.join(self.dialect.delimiter, r)
            if isinstance(self.prefix, SVal):
                self.unprefix(text)
                text = SVal(UNP(text.t))
            list.append(self.expected, (g.line, RT.meth(text, 'strip')))

    def recorded(self):
        self.record()
        self.ctx.prove('exactly the dropped comments and skipped rows are recorded, in order',
                       eq(self.rd.comments, self.expected))

    def trimmed(self, s):
        return s if self.trim == 'false' else RT.meth(s, {'true': 'strip', 'start': 'lstrip', 'end': 'rstrip'}[self.trim])

    def check_row(self, got):
        ctx, g, r = self.ctx, self.g, self.g.row.base
        ctx.prove('a row is returned that is not to be dropped', Not(self.drop()))
        ctx.prove('the line number is kept', it(self.rd.lineno) == it(g.line))
        s = seq_of(got)
        ctx.prove('the number of cells', s.n == If(r.n > self.skip_cols, r.n - self.skip_cols, 0))
        j = it(fresh_int('j'))
        ctx.assume(And(j >= 0, j < s.n))
        want = r.get(j + self.skip_cols)
        ctx.prove('cells in order, trimmed', lift(s.get(j)) == lift(self.trimmed(want) if self.dialect else want))
        self.recorded()


def step(cls, dialect=True, **kw):
    def h(ctx):
        ctx.expect_cover('row', 'end')
        cs = H.case = Case(ctx, cls, dialect, **kw)
        k, r = meth(cs.rd, '__next__')
        if k == 'exc':
            ctx.cover('end')
            ctx.prove('only the end of the data ends the iteration', BoolVal(type(r) is StopIteration), repr(r))
            ctx.prove('all rows have been read', it(cs.stream.pos) == cs.n)
            ctx.prove('no row is lost at the end', cs.drop())
            cs.recorded()
            return
        ctx.cover('row')
        if cls is D.UnicodeReaderWithLineNumber:
            ctx.prove('the 1-based line number comes with the row', it(r[0]) == it(cs.g.line) + 1)
            r = r[1]
        cs.check_row(r)
    return h


PREFIX = ['no comment prefix', 'empty comment prefix', 'comment prefix']
for _how in range(3):
    for _blank in (False, True):
        harness('UnicodeReader.__next__ ({}, {} blank rows)'.format(PREFIX[_how], 'skip' if _blank else 'keep'))(
            step(D.UnicodeReader, how=_how, blank=_blank))
for _trim in ('true', 'false', 'start', 'end'):
    harness('UnicodeReader.__next__ (trim: {})'.format(_trim))(step(D.UnicodeReader, how=0, trim=_trim))
harness('UnicodeReader.__next__ (no dialect)')(step(D.UnicodeReader, False))
harness('UnicodeReaderWithLineNumber.__next__')(step(D.UnicodeReaderWithLineNumber, how=2, blank=False))


# ---------------------------------------------------------------- opening
class File:
    __pv_model__ = True

    def __init__(self):
        self.closed = False

    def read(self):
        return ''

    def close(self):
        self.closed = True


def open_(f, mode='r', encoding=None, newline=None):
    c = H.case
    c['ctx'].prove('the file is opened once, for reading text', BoolVal(c['file'] is None and mode in ('r', 'rt')))
    c['ctx'].prove('the given file is opened', BoolVal(str(f) == c['path']))
    c['ctx'].prove('line ends are left alone', BoolVal(newline == c['newline']))
    c['ctx'].prove('with the declared encoding, ignoring a byte order mark', BoolVal(codecs.lookup(encoding or 'utf-8').name == codecs.lookup(c['encoding']).name), repr(encoding))
    c['file'] = File()
    return c['file']


def reader_(f, *a, **kw):
    c = H.case
    c['ctx'].prove('the csv reader gets the parameters of the dialect', BoolVal(not a and kw == c['kw']), repr(kw))
    c['ctx'].prove('one csv reader is created', BoolVal(c['reader'] is None))
    c['source'], c['reader'] = f, Stream(SSeq(IntVal(0), lambda i: None, 'iter'))
    return c['reader']


OPEN = {'_io.open': open_, '_csv.reader': reader_}
ENC = {None: 'utf-8-sig', 'utf-8': 'utf-8-sig', 'UTF-8': 'utf-8-sig', 'latin-1': 'iso8859-1', 'UTF-8-BOM': 'utf-8-sig', 'utf-16': 'utf-16'}


def params(spec, **kw):
    double, quote = spec.get('doubleQuote', True), spec.get('quoteChar', '"')
    r = dict(delimiter=spec.get('delimiter', ','), doublequote=double, escapechar=None if double or quote is None else '\\',
             lineterminator=(['\r\n', '\n'] if 'lineTerminators' not in spec else spec['lineTerminators'])[0],
             quotechar=quote, skipinitialspace=spec.get('skipInitialSpace', False), strict=True)
    r.update(kw)
    return r


SPECS = [dict({'delimiter': d, 'doubleQuote': dq, 'quoteChar': q, 'skipInitialSpace': s})
         for d in (',', '\t') for dq in (True, False) for q in ('"', "'", None) for s in (True, False)] + [
    {}, {'lineTerminators': ['\n']}, {'encoding': 'UTF-8'}, {'encoding': 'latin-1'}, {'encoding': 'UTF-8-BOM'}, {'encoding': 'utf-16'}]
SOURCES = ['str', 'path', 'file', 'lines']


@harness('UnicodeReader.__enter__ (dialect)', contracts=OPEN, kind='shape', bound='the dialects of SPECS')
def opening(ctx):
    ctx.expect_cover('opened')
    import pathlib
    spec = SPECS[ctx.choose(len(SPECS))]
    src = SOURCES[ctx.choose(2) if spec else ctx.choose(4)]
    extra = {'delimiter': '|'} if ctx.choose(2) else {}
    d = Dialect(**spec)
    opened(ctx, src, dict(dialect=d, **extra), ENC[spec.get('encoding')], params(spec, **extra), '')


@harness('UnicodeReader.__enter__ (parameters)', contracts=OPEN, kind='shape', bound='the parameters of the harness')
def opening_kw(ctx):
    ctx.expect_cover('opened')
    kw = [{}, {'delimiter': '\t'}, {'dialect': 'excel-tab'}, {'quotechar': "'", 'doublequote': False, 'escapechar': '\\'}, {'strict': True}][ctx.choose(5)]
    enc = sorted(ENC, key=str)[ctx.choose(len(ENC))]
    if enc == 'UTF-8-BOM':
        return
    term = [None, '\n', '\r\n'][ctx.choose(3)]
    given = dict(kw, **({'encoding': enc} if enc else {}))
    if term:
        given['lineterminator'] = term
    opened(ctx, ['str', 'path'][ctx.choose(2)], given, ENC[enc], kw, term or '')


def opened(ctx, src, given, encoding, kw, newline):
    import pathlib
    c = H.case = dict(ctx=ctx, file=None, reader=None, source=None, path='dir/x.csv', encoding=encoding, kw=kw, newline=newline)
    expected = VList()
    f = 'dir/x.csv'
    if src == 'path':
        f = pathlib.Path(f)
    elif src == 'file':
        f = File()
    elif src == 'lines':
        f = fresh_str_seq('lines')
        f.hooks = (lambda v, st: list.append(expected, v),)
        ctx.roots['expected'] = expected
    k, rd = run(D.UnicodeReader, f, **given)
    ctx.prove('a reader is created', BoolVal(k == 'ok'), repr(rd))
    k, r = meth(rd, '__enter__')
    ctx.prove('opening succeeds', BoolVal(k == 'ok'), repr(r))
    ctx.cover('opened')
    ctx.prove('the reader itself is the context', BoolVal(r is rd))
    ctx.prove('the csv reader is used', BoolVal(rd.reader is c['reader'] is not None))
    ctx.prove('nothing has been read', BoolVal(rd.lineno == -1 and rd.comments == []))
    if src == 'lines':
        ctx.prove('all lines are read', eq(c['source'], expected))
    else:
        ctx.prove('the file is read', BoolVal(c['source'] is (f if src == 'file' else c['file'])))
    k, r = meth(rd, '__exit__', None, None, None)
    ctx.prove('leaving raises nothing and swallows nothing', BoolVal(k == 'ok' and not r))
    if src in ('str', 'path'):
        ctx.prove('an opened file is closed', BoolVal(c['file'].closed))
    if src == 'file':
        ctx.prove('a given file is left open', BoolVal(not f.closed))


# ------------------------------------------------------------------ dialects made from others
FIELDS = ['encoding', 'lineTerminators', 'quoteChar', 'doubleQuote', 'skipRows', 'commentPrefix', 'header', 'headerRowCount', 'delimiter', 'skipColumns',
          'skipBlankRows', 'skipInitialSpace']


def _updated(p, q):
    @harness('Dialect.updated ({}, {})'.format(p, q), kind='shape', bound='the properties named, of any value')
    def h(ctx):
        old = Dialect(**OTHER)
        if ctx.choose(2):       # the old dialect has been used
            old.trimmer('x'), old.escape_character, old.line_terminators, old.as_python_formatting_parameters()
        kw = {k: inp(k, fresh_val(k)) for k in (p, q)}
        trim = ['true', 'false', 'start', 'end'][ctx.choose(4)]
        k, d = run(Dialect.updated, old, trim=trim, **kw)
        ctx.prove('a dialect is made', BoolVal(k == 'ok' and isinstance(d, Dialect) and d is not old), repr(d))
        if k != 'ok':
            return
        for f in FIELDS:
            ctx.prove('the value of ' + f, eq(getattr(d, f), kw[f] if f in kw else getattr(Dialect(**OTHER), f)))
            ctx.prove('the old value of ' + f, eq(getattr(old, f), getattr(Dialect(**OTHER), f)))
        ctx.prove('cells are trimmed as the new dialect says', BoolVal([d.trimmer(x) for x in (' a ', 'a ', ' a')] == [
            {'true': str.strip, 'false': str, 'start': str.lstrip, 'end': str.rstrip}[trim](x) for x in (' a ', 'a ', ' a')]))
        if p == 'quoteChar' or q == 'quoteChar':
            return
        dq = kw['doubleQuote'] if 'doubleQuote' in kw else SVal(lift(OTHER['doubleQuote']))
        if ctx.branch(dq.t == lift(True)):
            ctx.prove('the escape character', BoolVal(d.escape_character == '"'))
        elif ctx.branch(dq.t == lift(False)):
            ctx.prove('the escape character', BoolVal(d.escape_character == '\\'))


OTHER = {'trim': 'start', 'doubleQuote': False, 'lineTerminators': ['\n'], 'skipRows': 3, 'commentPrefix': '//', 'delimiter': ';', 'skipBlankRows': True}
for _i, _p in enumerate(FIELDS):
    _updated(_p, FIELDS[(_i + 5) % len(FIELDS)])
