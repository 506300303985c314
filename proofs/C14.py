"""C14: referential integrity fails exactly on dangling references."""
from pv.h import *
import csvw.metadata as M

HARNESSES, harness = registry()

ASSUMPTIONS = [
    'contract of Table.iterdicts (decided by C11): with a log it yields (fname, lineno, row) for the valid rows, in '
    'order, without raising; every described column is a key of every row; a column with separator holds None or a list',
    'key values are hashable; equality of key values is identity in the value model',
    'operator.itemgetter and itertools.groupby are the standard functions',
]


class Log:
    __pv_model__ = True


class Ghost:
    def __init__(self):
        self.bad = False
        self.null = False
        self.key = self.index = self.value = self.table = self.target = -1
        self.done = self.items = 0


class Case:
    """a table group of concrete shape, with any number of rows per table"""

    def __init__(self, ctx, tables, fks, lists=(), log=None, strict=False):
        self.ctx, self.log, self.strict = ctx, log, strict
        self.group = M.TableGroup.fromvalue({'@context': 'http://www.w3.org/ns/csvw', 'tables': [
            {'url': t, 'tableSchema': {
                'columns': [dict({'name': c}, **({'separator': ';'} if (t, c) in lists else {})) for c in cols],
                'foreignKeys': [{'columnReference': list(sc), 'reference': {'resource': tt, 'columnReference': list(tc)}}
                                for ct, sc, tt, tc in fks if ct == t]}}
            for t, cols in tables.items()]})
        self.tables, self.fks, self.lists = tables, fks, lists
        self.names = sorted(tables)
        self.seqs = {}
        self.items = {}
        self.fname = {t: uf('fname_' + t, INT, INT) for t in tables}
        self.lineno = {t: uf('lineno_' + t, INT, INT) for t in tables}
        self.g = Ghost()
        self.expected, self.reports = VList(), VList()
        self.sets = {(tt, tc): VSet() for _, _, tt, tc in fks}
        ctx.roots.update(g=self.g, expected=self.expected, reports=self.reports)
        for k, (key, s) in enumerate(sorted(self.sets.items())):
            ctx.roots['set%d' % k] = s
        self.begun = []
        self.reads = []

    def cell(self, t, c, i):
        f = uf('cell_{}_{}'.format(t, c), INT, V)(i)
        if (t, c) in self.lists:
            n = uf('len_{}_{}'.format(t, c), INT, INT)(i)
            if self.ctx.branch(V.is_none(f)):
                return None
            self.ctx.assume(n >= 0)
            at = uf('item_{}_{}'.format(t, c), INT, INT, V)
            s = SSeq(n, lambda j: SVal(at(i, j)), 'list')
            s.hooks = (self.item,)
            return s
        self.ctx.assume(Not(V.is_L(f)))
        return SVal(f)

    def rows(self, t):
        if t not in self.seqs:
            n = Int('rows_' + t)
            self.ctx.assume(n >= 0)

            def elem(i):
                d = VDict()
                for c in self.tables[t]:
                    RT.dset(d, c, self.cell(t, c, i))
                return (SVal(V.S(self.fname[t](i))), SInt(self.lineno[t](i)), d)
            self.seqs[t] = SSeq(n, elem, 'iter')
        return self.seqs[t]

    # -- specification --------------------------------------------------
    def target_row(self, t, v):
        """the referenced keys of one more row"""
        for (tt, tc), s in sorted(self.sets.items()):
            if tt == t:
                k = self.key(v, tc)
                if self.strict and self.ctx.branch(Select(s.arr, k)):
                    self.g.bad = True
                s.arr, s.elems = Store(s.arr, k, True), None

    @staticmethod
    def key(row, cols):
        vals = [RT.getitem(row, c) for c in cols]
        return lift(tuple(vals)) if len(cols) > 1 else lift(vals[0])

    def dangling(self, value):
        """the referenced key `value` of foreign key `current` is missing"""
        tt, tc = self.current
        if not self.ctx.branch(Select(self.sets[(tt, tc)].arr, value)):
            self.g.bad = True
            self.g.value = SVal(value)
            list.append(self.expected, self.entry())

    def entry(self):
        return SVal(lift((self.g.key, self.g.index, self.g.value)))

    def item(self, v, stream):
        self.g.done = SInt.of(it(stream.pos))
        self.dangling(lift(v))

    def all_items(self):
        """every item of the list-valued key considered last has been considered"""
        if self.lists:
            self.ctx.prove('every item of a list-valued key is considered', it(self.g.done) == it(self.g.items))

    def child_row(self, k, v, i):
        ct, sc, tt, tc = self.fks[k]
        self.current = (tt, tc)
        g = self.g
        g.key, g.index, g.value, g.table = k, SInt.of(i), -1, self.names.index(ct)
        vals = [RT.getitem(v, c) for c in sc]
        self.all_items()
        if len(sc) == 1 and isinstance(vals[0], SSeq):
            g.done, g.items = 0, SInt.of(vals[0].n)
            return       # every item is decided when it is considered
        if any(self.ctx.branch(V.is_none(lift(x))) for x in vals):
            return
        self.dangling(self.key(v, sc))


class Holder:
    case = None


H = Holder()


def iterdicts(self, log=None, with_metadata=False, fname=None, _Row=None, strict=True):
    cs, ctx = H.case, Ctx.cur
    t = self.url.string
    ctx.prove('invalid rows are skipped', BoolVal(strict is True and fname is None))
    if cs.nullcheck:
        # the strict pass over the foreign key columns
        pend = cs.nullcheck.pop(0)
        ctx.prove('the table of the foreign key is read', BoolVal(pend[0] == t))
        if not with_metadata:
            rows = cs.rows(t)
            s = SSeq(rows.n, lambda i: rows.get(i)[2], 'iter')

            def null_row(v, st):
                if any(ctx.branch(V.is_none(lift(RT.getitem(v, c)))) for c in pend[1]):
                    cs.g.null = True
            return Stream(s, [null_row])
    ctx.prove('the log is passed on', BoolVal(log is cs.log))
    rows = cs.rows(t)
    if not with_metadata:
        ctx.prove('every referenced table is read once', BoolVal(t not in cs.begun and any(f[2] == t for f in cs.fks)))
        cs.begun.append(t)
        s = SSeq(rows.n, lambda i: rows.get(i)[2], 'iter')
        st = Stream(s, [lambda v, st: cs.target_row(t, v)])
        cs.reads.append((t, st))
        return st
    # in whatever order the foreign keys are taken
    ks = [k for k in cs.pending if cs.fks[k][0] == t and cs.fks[k][2] in cs.begun]
    ctx.prove('every foreign key is checked once, after its target has been read', BoolVal(bool(ks)))
    if not ks:
        raise PathEnd
    k = ks[0]
    cs.pending.remove(k)
    cs.all_items()
    st = Stream(rows, [lambda v, st: cs.child_row(k, v[2], z3.simplify(it(st.pos) - 1))])
    cs.reads.append((k, st))
    return st


def log_or_raise(msg, log=None, level='warning', exception_cls=ValueError):
    cs, ctx, g = H.case, Ctx.cur, H.case.g
    ctx.cover('report')
    t = cs.fks[g.key][0]
    i = it(g.index)
    pieces = RT.concats.get(msg.t.get_id(), (None, [msg]))[1] if isinstance(msg, SVal) else [msg]
    ids = [lift(p) for p in pieces]
    fn, ln = V.S(cs.fname[t](i)), lift(RT.as_str(SInt(cs.lineno[t](i))))
    ctx.prove('the report names file and line of the row', And(
        Or(*[x == fn for x in ids]), Or(*[x == ln for x in ids])))
    list.append(cs.reports, cs.entry())
    if log is None:
        ctx.prove('without a log only a dangling reference raises', And(BoolVal(cs.log is None), bt(g.bad)))
        raise exception_cls('contract: dangling')
    ctx.prove('the given log is used', BoolVal(log is cs.log))


C = {'csvw.metadata.Table.iterdicts': iterdicts, 'csvw.metadata.log_or_raise': log_or_raise}


def check(ctx, tables, fks, lists=(), log=None, strict=False):
    cs = H.case = Case(ctx, tables, fks, lists, log, strict)
    cs.pending = sorted(range(len(fks)), key=lambda k: (fks[k][2], fks[k][3], fks[k][0], k))
    cs.nullcheck = [(f[0], f[1]) for t in tables for f in fks if f[0] == t] if strict else []
    kw = {}
    if log:
        kw['log'] = log
    if strict:
        kw['strict'] = True
    k, r = meth(cs.group, 'check_referential_integrity', **kw)
    g = cs.g
    if k == 'exc':
        if from_contract((k, r)):
            ctx.prove('a report raises only without a log', BoolVal(log is None))
        else:
            ctx.prove('otherwise only a null foreign key raises', And(BoolVal(strict and isinstance(r, ValueError)), bt(g.null)), repr(r))
            ctx.cover('null rejected')
        return
    ctx.cover('returned')
    ctx.prove('no null foreign key is accepted', Not(bt(g.null)))
    cs.all_items()
    ctx.prove('every table is read', BoolVal(set(cs.begun) == {f[2] for f in fks} and not cs.pending))
    for t, st in cs.reads:
        ctx.prove('all rows are read', it(st.pos) == st.seq.n)
    ctx.prove('the check succeeds iff no reference is dangling (and, if strict, no referenced key is repeated)',
              bt(r) == Not(bt(g.bad)))
    ctx.prove('exactly the dangling references are reported, in order', eq(cs.reports, cs.expected))


T2 = {'a.csv': ['id', 'x', 'y'], 'b.csv': ['id', 'x', 'y']}
T3 = {'c.csv': ['id', 'x', 'y'], 'a.csv': ['id', 'x', 'y'], 'b.csv': ['id', 'x', 'y']}
A, B, CC = 'a.csv', 'b.csv', 'c.csv'
SHAPES = {
    'one foreign key': (T2, [(A, ('x',), B, ('id',))], ()),
    'one list-valued foreign key': (T2, [(A, ('x',), B, ('id',))], [(A, 'x')]),
    'a composite foreign key': (T2, [(A, ('x', 'y'), B, ('y', 'id'))], ()),
    'a foreign key to the table itself': (T2, [(A, ('x',), A, ('id',))], ()),
    'two tables referencing the same key': (T3, [(A, ('x',), B, ('id',)), (CC, ('y',), B, ('id',))], ()),
    'two foreign keys of a table to the same key': (T3, [(A, ('x',), B, ('id',)), (A, ('y',), B, ('id',))], ()),
    'two keys of the same table': (T3, [(CC, ('x',), B, ('y',)), (A, ('x',), B, ('id',))], ()),
    'single and composite keys of the same table': (T3, [(CC, ('x', 'id'), B, ('id', 'x')), (A, ('x',), B, ('id',))], ()),
    'two target tables': (T3, [(A, ('x',), CC, ('id',)), (A, ('y',), B, ('id',))], ()),
    'a chain': (T3, [(A, ('x',), B, ('id',)), (B, ('x',), CC, ('id',))], [(B, 'x')]),
    'no foreign key': (T2, [], ()),
}
for _name, _s in SHAPES.items():
    for _how, _log, _strict in (('with a log', Log(), False), ('raising', None, False), ('strict, with a log', Log(), True),
                                ('strict, raising', None, True)):
        def _mk(name, s, how, log, strict):
            @harness('TableGroup.check_referential_integrity ({}, {})'.format(name, how), contracts=C, kind='shape',
                     bound='the given foreign keys; rows unbounded')
            def h(ctx):
                ctx.expect_cover('returned', *(['report'] if s[1] else []), *(['null rejected'] if strict and s[1] else []))
                check(ctx, s[0], s[1], s[2], log, strict)
        _mk(_name, _s, _how, _log, _strict)


# ---------------------------------------------------------------- validity of the foreign keys
class Datatype_:
    __pv_model__ = True

    def __init__(self, base):
        self.base = base


class Col:
    __pv_model__ = True

    def __init__(self, datatype):
        self.datatype = datatype


class SchemaCase:
    """any number of foreign keys with any number of columns"""

    def __init__(self, ctx):
        self.g = Ghost()
        self.wrong = False
        ctx.roots['g'] = self.g
        n = Int('fks')
        ctx.assume(n >= 0)
        self.nsrc, self.ntgt = uf('nsrc', INT, INT), uf('ntgt', INT, INT)
        self.src, self.tgt = uf('src', INT, INT, INT), uf('tgt', INT, INT, INT)
        self.has = uf('has_column', BOOL, INT, INT, BOOL)
        self.typed = uf('column_typed', BOOL, INT, INT, BOOL)
        self.base = uf('column_base', BOOL, INT, INT, INT)
        self.seq = SSeq(n, self.fk, 'list')
        self.seq.hooks = (self.next_fk,)

    def fk(self, i):
        ctx = Ctx.cur
        ctx.assume(And(self.nsrc(i) >= 0, self.ntgt(i) >= 0))
        sc = SSeq(self.nsrc(i), lambda j: SVal(V.S(self.src(i, j))), 'list')
        tc = SSeq(self.ntgt(i), lambda j: SVal(V.S(self.tgt(i, j))), 'list')
        sc.hooks = (lambda v, st: self.pair(i, z3.simplify(it(st.pos) - 1)),)
        return Tab(self, True, i), sc, Tab(self, False, i), tc

    def next_fk(self, v, st):
        i = z3.simplify(it(st.pos) - 1)
        self.g.bad = sbool(Or(bt(self.g.bad), self.nsrc(i) != self.ntgt(i)))

    def pair(self, i, j):
        s, t = self.src(i, j), self.tgt(i, j)
        ok = And(self.has(True, i, s), self.has(False, i, t), Or(
            Not(self.typed(True, i, s)), Not(self.typed(False, i, t)),
            self.base(True, i, s) == self.base(False, i, t)))
        self.g.bad = sbool(Or(bt(self.g.bad), Not(ok)))


class Tab:
    __pv_model__ = True

    def __init__(self, case, source, i):
        self.case, self.source, self.i = case, source, i
        self.tableSchema = self

    def get_column(self, spec, strict=False):
        cs, ctx = self.case, Ctx.cur
        ctx.prove('columns are looked up as declared', BoolVal(strict is False))
        c = V.s(lift(spec))
        if not ctx.branch(cs.has(self.source, self.i, c)):
            return None
        if not ctx.branch(cs.typed(self.source, self.i, c)):
            return Col(None)
        return Col(Datatype_(SVal(V.S(cs.base(self.source, self.i, c)))))


for _ok in (True, False):
    def _mk2(ok):
        def foreign_keys(self):
            if not ok:
                raise KeyError('contract: missing table')
            return H.case.seq

        @harness('TableGroup.validate_schema ({})'.format('all tables known' if ok else 'missing table'),
                 contracts={'csvw.metadata.TableGroup.foreign_keys': foreign_keys})
        def validate_schema(ctx):
            cs = H.case = SchemaCase(ctx)
            ctx.expect_cover(*(['valid', 'invalid'] if ok else ['invalid']))
            k, r = meth(M.TableGroup(), 'validate_schema')
            if k == 'exc':
                ctx.cover('invalid')
                ctx.prove('only an invalid foreign key raises a ValueError', And(
                    BoolVal(isinstance(r, ValueError)), bt(cs.g.bad) if ok else BoolVal(True)), repr(r))
            else:
                ctx.cover('valid')
                ctx.prove('only valid foreign keys are accepted', And(BoolVal(ok), Not(bt(cs.g.bad))))
    _mk2(_ok)


def invalid_schema(self, strict=False):
    raise ValueError('contract: invalid schema')


def report(msg, log=None, level='warning', exception_cls=ValueError):
    Ctx.cur.prove('the reason is reported', eq(msg, 'contract: invalid schema'))
    Ctx.cur.prove('the given log is used', BoolVal(log is H.log))
    H.count += 1
    if log is None:
        raise ValueError('contract: reported')


for _log, _how in ((Log(), 'with a log'), (None, 'raising')):
    def _mk3(log, how):
        @harness('TableGroup.check_referential_integrity (invalid foreign keys, {})'.format(how), contracts={
            'csvw.metadata.TableGroup.validate_schema': invalid_schema, 'csvw.metadata.log_or_raise': report})
        def h(ctx):
            H.log, H.count = log, 0
            k, r = meth(M.TableGroup(), 'check_referential_integrity', **({'log': log} if log else {}))
            ctx.prove('invalid foreign keys are reported', BoolVal(H.count == 1))
            ctx.prove('the check fails', BoolVal((k == 'ok' and r is False) if log else from_contract((k, r))), repr(r))
    _mk3(_log, _how)
