"""C03: dict and namedtuple readers map every cell to its field."""
from pv.h import *
import csvw.dsv as D

HARNESSES, harness = registry()

ASSUMPTIONS = [
    'contract of UnicodeReader.__next__ (decided by C02): the next row of text cells, or StopIteration at the end',
    'csv.reader.line_num (library) is 0 before the first row is read and positive afterwards',
    'field names are pairwise different',
]
CELL = uf('cell', V, INT, INT)
ROW = uf('row', INT, V)


def make_row(t):
    c = Ctx.cur
    c.fact(V.is_L(t))
    c.fact(slen(t) >= 0)
    c.fact((slen(t) == 0) == (V.l(t) == V.nil))
    s = SSeq(slen(t), lambda j: SVal(V.S(CELL(t, z3.simplify(j)))), 'list', key=t)
    s.remake = lambda nm: make_row(z3.Const(nm, V))
    return s


class Ghost:
    pass


class H:
    case = None


class CsvReader:
    __pv_model__ = True

    @property
    def line_num(self):
        p = it(H.case.stream.pos)
        n = uf('line_num', INT, INT)(p)
        Ctx.cur.fact((n == 0) == (p == 0))
        Ctx.cur.fact(n >= 0)
        return SInt.of(n)


class Case:
    """a reader in any state that a sequence of uses can lead to"""

    def __init__(self, ctx, cls, names, later):
        H.case = self
        self.ctx = ctx
        g = self.g = Ghost()
        n = Int('rows')
        ctx.assume(n >= 0)
        self.n = n
        self.stream = Stream(SSeq(n, lambda i: VList(base=make_row(ROW(i))), 'iter'), [self.next_row])
        self.given = fresh_str_seq('names') if names else None
        self.rd = rd = cls([], fieldnames=self.given)
        rd.reader = CsvReader()
        g.busy = False          # a data row has been read that has not been yielded
        g.row = VList(base=make_row(z3.Const('norow', V)))
        g.start, g.header = 0, not names
        ctx.roots['g'] = g
        self.first = not names
        if later:
            p = Int('consumed')
            ctx.assume(And(p >= 1, p <= n))
            self.stream.pos = SInt.of(p)
            rd.line_num = rd.reader.line_num
            self.first = g.header = False
            if not names:
                rd._fieldnames = VList(base=make_row(ROW(IntVal(0))))
        self.items = []

    def names(self):
        return self.given if self.given is not None else make_row(ROW(IntVal(0)))

    def next_row(self, v, st):
        ctx, g = self.ctx, self.g
        if ctx.branch(bt(g.header)):
            g.header = False
            return
        ctx.prove('no non-empty row is dropped', Not(self.pending()))
        g.busy, g.row = True, v

    def pending(self):
        return And(bt(self.g.busy), length(self.g.row) > 0)

    def item(self, rd, row):
        ctx, g = self.ctx, self.g
        ctx.prove('a data row that has just been read is mapped', And(bt(g.busy), BoolVal(rd is self.rd)))
        ctx.prove('the row is mapped as it is', eq(row, g.row))
        ctx.prove('empty rows are not mapped', length(row) > 0)
        ctx.prove('no row is mapped twice', BoolVal(not self.items))
        g.busy = False
        self.items.append(SVal(V.O(IntVal(tag(object)), Int('mapping'))))
        return self.items[0]


def next_(self):
    return next(H.case.stream)


def item(self, row):
    return H.case.item(self, row)


NEXT = {'csvw.dsv.UnicodeReader.__next__': next_, 'csvw.dsv.UnicodeDictReader.item': item, 'csvw.dsv.NamedTupleReader.item': item}
for _cls in (D.UnicodeDictReader, D.NamedTupleReader):
    for _names in (True, False):
        for _later in (True, False):
            def _mk(cls, names, later):
                @harness('{}.__next__ ({}, {})'.format(cls.__name__, 'names given' if names else 'names from the first row',
                                                       'later' if later else 'first'), contracts=NEXT)
                def h(ctx):
                    ctx.expect_cover('row', 'end')
                    cs = H.case = Case(ctx, cls, names, later)
                    if not later and ctx.choose(2):
                        k, r = run(getattr, cs.rd, 'fieldnames')
                        ctx.prove('the field names can be asked for first', BoolVal(k == 'ok'))
                        if names:
                            ctx.prove('asking for given names reads nothing', it(cs.stream.pos) == 0)
                    k, r = meth(cs.rd, '__next__')
                    if k == 'exc':
                        ctx.cover('end')
                        ctx.prove('only the end of the data ends the iteration', BoolVal(type(r) is StopIteration), repr(r))
                        ctx.prove('all rows are read', it(cs.stream.pos) == cs.n)
                        ctx.prove('no row is lost at the end', Not(cs.pending()))
                        return
                    ctx.cover('row')
                    ctx.prove('the mapping of the row is returned', BoolVal(len(cs.items) == 1 and r is cs.items[0]))
                    ctx.prove('the first row is the header if no names are given', Not(bt(cs.g.header)))
                    ctx.prove('the field names', eq(RT.to_list(cs.rd._fieldnames), RT.to_list(cs.names())))
            _mk(_cls, _names, _later)


# ---------------------------------------------------------------- one row
FIELDS = [[], ['a'], ['a', 'b'], ['b', 'The A', 'c'], ['z', 'y', 'x', 'w']]


def fieldnames(self):
    return VList(H.names)


class Row:
    """a row of any length: the lengths up to the number of fields one by one"""

    def __init__(self, ctx, k):
        t = z3.Const('row0', V)
        self.base = make_row(t)
        self.k = k
        self.n = self.base.n
        self.short = None
        for m in range(k + 1):
            if ctx.branch(self.n == m):
                self.short = m
                self.value = VList([self.base.get(IntVal(j)) for j in range(m)])
                return
        ctx.assume(self.n > k)
        self.value = VList(base=self.base)

    def cell(self, j):
        return self.base.get(IntVal(j))


def item_harness(cls, names):
    def h(ctx):
        ctx.expect_cover('short', 'long') if names else ctx.expect_cover('long')
        H.names = names
        restkey, restval = [None, 'rest'][ctx.choose(2)], [None, '-', ''][ctx.choose(3)]
        if cls is D.NamedTupleReader and restval is not None:
            return
        rd = cls([], fieldnames=VList(names), restkey=restkey, restval=restval)
        rd.reader, rd.line_num = CsvReader(), 1
        st = Stream(SSeq(IntVal(5), lambda i: None, 'iter'))
        st.pos = 1
        H.case = type('S', (), {'stream': st})
        row = Row(ctx, len(names))
        k, d = meth(rd, 'item', row.value)
        ctx.prove('every row can be mapped', BoolVal(k == 'ok'), repr(d))
        if k != 'ok':
            return
        present = len(names) if row.short is None else row.short
        ctx.cover('long' if row.short is None else 'short')
        if cls is D.NamedTupleReader:
            norm = [n.replace(' ', '_') for n in names]
            ctx.prove('one field per name, normalised', BoolVal(list(type(d)._fields) == norm), repr(d))
            for j, n in enumerate(names):
                ctx.prove('value of field', eq(d[j], row.cell(j) if j < present else None))
            return
        keys = vv_keys(d)
        want = list(names) + ([restkey] if row.short is None else [])
        ctx.prove('one entry per field, and the surplus cells', BoolVal(keys == want), repr(keys))
        for j, n in enumerate(names):
            ctx.prove('value of a present field' if j < present else 'value of a missing field',
                      eq(RT.dget(d, n), row.cell(j) if j < present else restval))
        if row.short is None:
            s = seq_of(RT.dget(d, restkey))
            j = it(fresh_int('j'))
            ctx.assume(And(j >= 0, j < s.n))
            ctx.prove('the number of surplus cells', s.n == row.n - len(names))
            ctx.prove('surplus cells in order', lift(s.get(j)) == V.S(CELL(row.base.key, j + len(names))))
    return h


def vv_keys(d):
    return [k for k in values.dkeys(d)] if isinstance(d, dict) else None


for _cls in (D.UnicodeDictReader, D.NamedTupleReader):
    for _f in FIELDS:
        harness('{}.item ({})'.format(_cls.__name__, _f), kind='shape', bound='the given field names; rows of any length')(
            item_harness(_cls, _f))


# ---------------------------------------------------------------- iterrows
class Reader(Stream):
    entered = left = False

    def __enter__(self):
        self.entered = True
        return self

    def __exit__(self, *a):
        self.left = True


def factory(cls):
    def f(src, **kw):
        H.ctx.prove('one reader is used', BoolVal(H.reader is None))
        H.ctx.prove('source and parameters are passed on', BoolVal(src == 'x.csv' and kw == H.kw), repr(kw))
        H.cls = cls
        n = Int('rows')
        H.ctx.assume(n >= 0)
        H.reader = Reader(SSeq(n, lambda i: SVal(ROW(i)), 'iter'), [pending])
        return H.reader
    return f


def pending(v, st):
    H.ctx.prove('every row is yielded', Not(bt(H.g.pending)))
    H.g.pending, H.g.row = True, v


@harness('iterrows', contracts={'csvw.dsv.' + c: factory(c) for c in ('UnicodeReader', 'UnicodeDictReader', 'NamedTupleReader')})
def iterrows(ctx):
    ctx.expect_cover('row', 'end', 'refused')
    H.ctx, H.reader, H.cls, H.g = ctx, None, None, Ghost()
    H.g.pending, H.g.row = False, SVal(V.none)
    ctx.roots['g'] = H.g
    nt, dc = bool(ctx.choose(2)), bool(ctx.choose(2))
    extra = [{}, {'delimiter': '\t'}, {'encoding': 'latin-1', 'fieldnames': ['a']}][ctx.choose(3)]
    H.kw = dict({'encoding': 'utf-8'}, **extra)
    k, gen = run(D.iterrows, 'x.csv', namedtuples=nt, dicts=dc, **extra)
    ctx.prove('a generator is returned', BoolVal(k == 'ok'))
    try:
        for row in gen:
            ctx.cover('row')
            ctx.prove('the row read last is yielded, once', And(bt(H.g.pending), lift(row) == lift(H.g.row)))
            H.g.pending = False
    except ValueError:
        ctx.cover('refused')
        ctx.prove('only contradictory requests are refused', BoolVal(nt and dc))
        return
    ctx.cover('end')
    ctx.prove('contradictory requests are refused', BoolVal(not (nt and dc)))
    ctx.prove('the reader asked for', BoolVal(H.cls == ('NamedTupleReader' if nt else 'UnicodeDictReader' if dc else 'UnicodeReader')))
    ctx.prove('all rows are read', it(H.reader.pos) == H.reader.seq.n)
    ctx.prove('every row is yielded', Not(bt(H.g.pending)))
    ctx.prove('the reader is closed', BoolVal(H.reader.left))
