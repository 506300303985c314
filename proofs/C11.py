"""C11: table iteration maps cells to the right columns and drops no valid row."""
from pv.h import *
import csvw.metadata as M

HARNESSES, harness = registry()

ASSUMPTIONS = [
    'contract of the line-numbered reader (decided by C02): it yields (lineno, row) with non-repeating rows of text cells',
    'contract of Column.read (decided by C09): a value determined by column and text, or ValueError',
    'contract of Description.inherit (decided by C16)',
    'URITemplate.expand is a function of the template and the row (library)',
]
READ, VALID = uf('read', INT, V, V), uf('valid', INT, V, BOOL)
EXPAND = uf('expand', INT, V)


class Log:
    __pv_model__ = True


class Ghost:
    def __init__(self):
        self.pending = False      # the last row has not been yielded, although it is valid
        self.unreported = False   # the last row has not been reported, although it is invalid
        self.index = -1


class Reader(Stream):
    """header row (if any), then any number of rows with any number of cells"""

    def __init__(self, cs, header):
        super().__init__(cs.seq, [cs.next_row])
        self.header, self.comments = header, []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __next__(self):
        if self.header is not None:
            h, self.header = self.header, None
            return 1, h
        return super().__next__()


class Case:
    def __init__(self, ctx, table, cols, header, file_header, log, strict, mapping):
        """mapping: for every header cell the index of its column or None"""
        self.ctx, self.table, self.cols, self.header, self.file_header = ctx, table, cols, header, file_header
        self.log, self.strict, self.mapping = log, strict, mapping
        self.g = Ghost()
        ctx.roots['g'] = self.g
        n = Int('rows')
        ctx.assume(n >= 0)
        self.len, self.text, self.lineno = uf('cells', INT, INT), uf('cell', INT, INT, INT), uf('lineno', INT, INT)
        self.seq = SSeq(n, self.row, 'iter')
        self.rows = {}

    def row(self, i):
        self.ctx.assume(self.len(i) >= 0)
        return SInt(self.lineno(i)), SSeq(self.len(i), lambda j: SVal(V.S(self.text(i, z3.simplify(j)))), 'list')

    def cell(self, i, j):
        return V.S(self.text(i, IntVal(j)))

    def present(self, i, j):
        return self.len(i) > j

    # -- specification
    def ok(self, i):
        fs = []
        for j, c in enumerate(self.mapping):
            if c is None:
                continue
            if self.strict:
                fs.append(Implies(self.present(i, j), VALID(c, self.cell(i, j))))
            if self.cols[c].get('required'):
                fs.append(self.present(i, j))
        return And(*fs) if fs else BoolVal(True)

    def next_row(self, v, st):
        g = self.g
        self.settle()
        i = z3.simplify(it(st.pos) - 1)
        g.index = SInt.of(i)
        g.pending = sbool(self.ok(i))
        g.unreported = sbool(Not(self.ok(i)))

    def settle(self):
        ctx, g = self.ctx, self.g
        ctx.prove('every valid row is yielded', Not(bt(g.pending)))
        ctx.prove('every invalid row is reported', Not(bt(g.unreported)))

    def expected(self, i):
        """(key, value or None if absent) of the mapping for row i"""
        res = {}
        for j, c in enumerate(self.mapping):
            here = self.present(i, j)
            if c is None:
                res[self.header[j]] = (here, self.cell(i, j), False)
            else:
                v = READ(c, self.cell(i, j))
                if not self.strict:
                    v = If(VALID(c, self.cell(i, j)), v, self.cell(i, j))
                res[self.cols[c]['name']] = (here, v, True)
        for c, col in enumerate(self.cols):
            if not col.get('virtual') and col['name'] not in res:
                res[col['name']] = (BoolVal(False), None, True)
            elif col.get('virtual') and col.get('valueUrl'):
                res[col['name']] = (BoolVal(True), EXPAND(c), True)
        return res

    def yielded(self, item, meta):
        ctx, g = self.ctx, self.g
        ctx.cover('yielded')
        i = it(g.index)
        if meta:
            ctx.prove('a triple is yielded', BoolVal(isinstance(item, tuple) and len(item) == 3))
            fn, ln, item = item
            ctx.prove('file name', BoolVal(str(fn) == 't.csv'))
            ctx.prove('line number', it(ln) == self.lineno(i))
        ctx.prove('only valid rows are yielded, once', bt(g.pending))
        g.pending = False
        exp = self.expected(i)
        keys = {k: item[k] for k in list(item)}
        ctx.prove('no other key', BoolVal(set(keys) <= set(exp)), str(set(keys) - set(exp)))
        for k, (here, v, always) in exp.items():
            if k in keys:
                val = lift(keys[k])
                ctx.prove('value of {}'.format(k), If(here, val == v, V.is_none(val)) if v is not None else V.is_none(val))
                if not always:
                    ctx.prove('absent cells of undescribed columns add no key', here)
            else:
                ctx.prove('key {} is missing only without a cell'.format(k), And(BoolVal(not always), Not(here)))


class Holder:
    pass


H = Holder()


def reader(f, fieldnames=None, dialect=None, **kw):
    cs = H.case
    cs.ctx.prove('the file is read with the dialect', BoolVal(str(f) == 't.csv' and dialect is cs.dialect and not kw))
    cs.reader = Reader(cs, list(cs.header) if cs.file_header else None)
    return cs.reader


def read(self, v, strict=True):
    cs, ctx = H.case, Ctx.cur
    ctx.prove('strictness is passed on', BoolVal(strict is cs.strict))
    c = [k for k, x in enumerate(cs.columns) if x is self]
    ctx.prove('the column is described or numbered', BoolVal(bool(c)))
    t = lift(v)
    if not ctx.branch(VALID(c[0], t)):
        raise ValueError('contract: invalid')
    return SVal(READ(c[0], t))


def log_or_raise(msg, log=None, level='warning', exception_cls=ValueError):
    cs, ctx, g = H.case, Ctx.cur, H.case.g
    ctx.cover('report')
    i = it(g.index)
    pieces = RT.concats.get(msg.t.get_id(), (None, [msg]))[1] if isinstance(msg, SVal) else [msg]
    ids = [lift(p) for p in pieces]
    ln = lift(RT.as_str(SInt(cs.lineno(i))))
    ctx.prove('the report names the file', BoolVal(any(isinstance(p, str) and 't.csv:' in p for p in pieces)), repr(pieces))
    ctx.prove('the report names the line of the row', Or(*[x == ln for x in ids]))
    ctx.prove('only invalid rows are reported', Not(cs.ok(i)))
    g.unreported = False
    if log is None:
        raise exception_cls('contract: invalid row')
    ctx.prove('the given log is used', BoolVal(log is cs.log))


def expand(self, var_dict=None, **kw):
    cs = H.case
    return SVal(EXPAND([k for k, c in enumerate(cs.columns) if c.valueUrl is self][0]))


C = {'csvw.dsv.UnicodeReaderWithLineNumber': reader, 'csvw.metadata.Column.read': read,
     'csvw.metadata.log_or_raise': log_or_raise, 'uritemplate.template.URITemplate.expand': expand,
     'csvw.metadata.URITemplate.expand': expand}


def check(ctx, cols, header, mapping, file_header=True, log=None, strict=True, meta=False, missing=False):
    t = M.Table.fromvalue({'@context': 'http://www.w3.org/ns/csvw', 'url': 't.csv', 'tableSchema': {'columns': cols},
                           'dialect': {'header': file_header}})
    cs = H.case = Case(ctx, t, cols, header, file_header, log, strict, mapping)
    cs.columns, cs.dialect = list(t.tableSchema.columns), t.dialect
    kw = {}
    if log:
        kw['log'] = log
    if not strict:
        kw['strict'] = False
    if meta:
        kw['with_metadata'] = True
    k, gen = meth(t, 'iterdicts', **kw)
    ctx.prove('a generator is returned', BoolVal(k == 'ok'))
    try:
        for item in gen:
            cs.yielded(item, meta)
    except ValueError as e:
        ctx.cover('raised')
        if missing:
            ctx.prove('a missing required column raises before any row', BoolVal(not from_contract(('exc', e)) and it(cs.reader.pos).eq(IntVal(0))), repr(e))
        else:
            ctx.prove('only an invalid row raises, without a log', BoolVal(log is None and from_contract(('exc', e))), repr(e))
        return
    ctx.prove('a missing required column raises', BoolVal(not missing))
    cs.settle()
    ctx.prove('all rows are read', it(cs.reader.pos) == cs.seq.n)
    ctx.cover('finished')


a, b, c = {'name': 'a'}, {'name': 'b'}, {'name': 'c', 'titles': 'The C'}
areq, breq = dict(a, required=True), dict(b, required=True)
v1 = {'name': 'v1', 'virtual': True, 'valueUrl': 'http://example.org/{a}'}
v2 = {'name': 'v2', 'virtual': True, 'valueUrl': 'http://example.org/{_row}'}
v3 = {'name': 'v3', 'virtual': True, 'aboutUrl': 'http://example.org/x'}
purl = {'name': 'p', 'propertyUrl': 'http://example.org/p'}
SHAPES = {
    'columns as described': ([a, b, c], ['a', 'b', 'c'], [0, 1, 2], True),
    'columns in another order': ([a, b, c], ['c', 'a', 'b'], [2, 0, 1], True),
    'no header': ([a, b, c], ['a', 'b', 'c'], [0, 1, 2], False),
    'columns by title and property': ([purl, a, c], ['The C', 'http://example.org/p', 'a'], [2, 0, 1], True),
    'undescribed columns': ([a, b], ['x', 'b', 'y', 'a'], [None, 1, None, 0], True),
    'missing column': ([a, b, c], ['c', 'a'], [2, 0], True),
    'required columns': ([areq, b, breq and dict(c, required=True)], ['a', 'b', 'c'], [0, 1, 2], True),
    'required columns in another order': ([areq, breq, c], ['The C', 'b', 'a'], [2, 1, 0], True),
    'required columns by title': ([b, dict(c, required=True), a], ['The C', 'a'], [1, 2], True),
    'columns of the same title': ([dict(a, titles='T'), dict(b, titles=['T', 'B'])], ['T', 'b'], [0, 1], True),
    'virtual columns': ([a, b, v1, v2, v3], ['a', 'b'], [0, 1], True),
    'virtual columns, another order': ([areq, b, v1], ['b', 'a'], [1, 0], True),
    'required virtual column': ([a, dict(v1, required=True)], ['a'], [0], True),
    'no described columns': ([], ['x', 'y'], [None, None], True),
}
for _name, _s in SHAPES.items():
    for _how, _log, _meta in (('with a log', Log(), True), ('raising', None, False)):
        def _mk(name, s, how, log, meta):
            @harness('Table.iterdicts ({}, {})'.format(name, how), contracts=C, kind='shape',
                     bound='the given columns; any number of rows of any length and content')
            def h(ctx):
                ctx.expect_cover('yielded', 'finished', *([] if not s[0] else ['report'] if log else ['raised']))
                check(ctx, s[0], s[1], s[2], s[3], log, True, meta)
        _mk(_name, _s, _how, _log, _meta)

for _cols, _header in (([areq, b], ['b']), ([a, dict(c, required=True)], ['a', 'C']), ([areq, breq], [])):
    def _mk2(cols, header):
        @harness('Table.iterdicts (required column missing: {} of {})'.format(header, [x['name'] for x in cols]),
                 contracts=C, kind='shape', bound='the given columns')
        def h(ctx):
            ctx.expect_cover('raised')
            check(ctx, cols, header, [], True, [None, Log()][ctx.choose(2)], True, False, True)
    _mk2(_cols, _header)

LAX = {
    'columns as described': ([a, b, c], ['a', 'b', 'c'], [0, 1, 2], True),
    'other header': ([a, b, c], ['x', 'The C'], [0, 1], True),
    'no header': ([a, b], ['a', 'b'], [0, 1], False),
    'virtual column': ([a, b, v1], ['a', 'b'], [0, 1], True),
}
for _name, _s in LAX.items():
    def _mk3(name, s):
        @harness('Table.iterdicts ({}, not strict)'.format(name), contracts=C, kind='shape',
                 bound='the given columns; any number of rows of any length and content')
        def h(ctx):
            ctx.expect_cover('yielded', 'finished')
            check(ctx, s[0], s[1], s[2], s[3], [None, Log()][ctx.choose(2)], False, True)
    _mk3(_name, _s)
