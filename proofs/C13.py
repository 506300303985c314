"""C13: a primary key check fails exactly when two rows share the key."""
import operator

from pv.h import *
import csvw.metadata as M

HARNESSES, harness = registry()

ASSUMPTIONS = [
    'contract of Table.iterdicts (decided by C11): with a log it yields (fname, lineno, row) for the valid rows, in '
    'order, without raising; without a log it may raise ValueError',
    'key columns have hashable values; equality of key values is identity in the value model',
    'operator.itemgetter(*names)(row) is the tuple of the named values (library)',
]


class Log:
    __pv_model__ = True


class Rows:
    """the rows of the table, unbounded in number"""

    def __init__(self, ctx, elem, key):
        self.fname = uf('fname', INT, INT)
        self.lineno = uf('lineno', INT, INT)
        self.key = key
        self.seq = fresh_seq('rows', lambda i: (
            SVal(V.S(self.fname(i))), SInt(self.lineno(i)), elem(i)), kind='iter')
        self.ghost = VSet()
        self.expected = VList()
        self.reports = VList()
        self.g = Ghost()
        ctx.roots.update(ghost=self.ghost, expected=self.expected, reports=self.reports, g=self.g)
        self.stream = Stream(self.seq, [self.step])

    def step(self, v, stream):
        """specification: one more row has been read"""
        i = z3.simplify(it(stream.pos) - 1)
        k = self.key(i)
        if bool(sbool(Select(self.ghost.arr, k))):
            self.g.dup = True
            list.append(self.expected, SInt.of(i))
        else:
            self.ghost.arr, self.ghost.elems = Store(self.ghost.arr, k, True), None
        self.g.index = SInt.of(i)


class Ghost:
    def __init__(self):
        self.dup = False
        self.index = -1


def contracts(state):
    def iterdicts(self, log=None, with_metadata=False, fname=None, _Row=None, strict=True):
        ctx = Ctx.cur
        ctx.prove('rows are read with file name and line number', BoolVal(with_metadata is True))
        ctx.prove('the table itself is read', BoolVal(fname is None and self is state.table))
        ctx.prove('invalid rows are skipped', BoolVal(log is not None and strict is True))
        return state.rows.stream

    def log_or_raise(msg, log=None, level='warning', exception_cls=ValueError):
        ctx = Ctx.cur
        g = state.rows.g
        i = it(g.index)
        pieces = RT.concats.get(msg.t.get_id(), (None, [msg]))[1] if isinstance(msg, SVal) else [msg]
        ids = [lift(p) for p in pieces]
        fn, ln = V.S(state.rows.fname(i)), lift(RT.as_str(SInt(state.rows.lineno(i))))
        ctx.prove('the report names file and line of the row', And(
            Or(*[t == fn for t in ids]), Or(*[t == ln for t in ids])))
        list.append(state.rows.reports, g.index)
        if log is None:
            ctx.cover('raised')
            ctx.prove('raised only for a row whose key equals that of an earlier row', bt(g.dup))
            raise exception_cls('contract: duplicate')
        ctx.prove('the given log is used', BoolVal(log is state.log))
    return {'csvw.metadata.Table.iterdicts': iterdicts, 'csvw.metadata.log_or_raise': log_or_raise}


class State:
    pass


STATE = State()


def check(ctx, log, pk, elem, key):
    st = STATE
    t = M.Table(url='t.csv')
    t.tableSchema.primaryKey = pk
    st.table = t
    st.rows = Rows(ctx, elem, key)
    st.log = log
    ctx.expect_cover('passed', *(['failed'] if log else ['raised']))
    k, r = meth(t, 'check_primary_key', **({'log': st.log} if st.log else {}))
    g, rows = st.rows.g, st.rows
    if k == 'exc':
        ctx.prove('only the ValueError of the report is raised', BoolVal(
            from_contract((k, r)) and isinstance(r, ValueError) and st.log is None), repr(r))
        return
    nokey = BoolVal(False)
    if isinstance(pk, SSeq):
        nokey = pk.n == 0
    ctx.prove('all rows are read', Or(nokey, it(rows.stream.pos) == rows.seq.n))
    ctx.prove('the check succeeds iff no key occurs twice', bt(r) == Or(nokey, Not(bt(g.dup))))
    ctx.prove('without a log a duplicate raises', BoolVal(True) if st.log else Or(nokey, Not(bt(g.dup))))
    ctx.prove('exactly the duplicate rows are reported, in order', eq(rows.reports, rows.expected))
    if ctx.check(bt(r)) != z3.unsat:
        ctx.cover('passed')
    if st.log and ctx.check(Not(bt(r))) != z3.unsat:
        ctx.cover('failed')


C = contracts(STATE)
PICK = uf('pick', V, INT, V)


def star_itemgetter(args, kw, symkw):
    """operator.itemgetter(*names) for a list of names of any length"""
    if len(args) != 1:
        raise Unsupported('itemgetter with mixed arguments')
    names = args[0].seq
    f = lambda row: SVal(PICK(lift(names), V.oid(lift(row))))
    f.__pv_model__ = True
    return f


rt.XMODELS[id(operator.itemgetter)] = (operator.itemgetter, star_itemgetter)


for _log, _how in ((Log(), 'with a log'), (None, 'raising')):
    def _any(log, how):
        @harness('Table.check_primary_key (any number of key columns, {})'.format(how), contracts=C)
        def any_width(ctx):
            pk = fresh_str_seq('primaryKey')
            row = uf('row', INT, INT)
            check(ctx, log, pk, lambda i: SVal(V.O(IntVal(tag(dict)), row(i))), lambda i: PICK(lift(pk), row(i)))
    _any(_log, _how)

    for _n in (1, 2, 3):
        def _mk(n, log, how):
            @harness('Table.check_primary_key ({} key columns, {})'.format(n, how), contracts=C, kind='shape',
                     bound='key of {} columns; rows unbounded'.format(n))
            def h(ctx):
                cols = ['k%d' % k for k in range(n)]
                cell = {c: uf('cell_' + c, INT, V) for c in cols + ['other']}

                def elem(i):
                    d = VDict()
                    for c in ['other'] + cols[::-1]:
                        RT.dset(d, c, SVal(cell[c](i)))
                    return d

                def key(i):
                    return lift(tuple(SVal(cell[c](i)) for c in cols)) if n > 1 else cell[cols[0]](i)
                check(ctx, log, cols, elem, key)
        _mk(_n, _log, _how)


@harness('Table.check_primary_key (no key)', contracts=C)
def no_key(ctx):
    t = M.Table(url='t.csv')
    STATE.table, STATE.rows = t, Rows(ctx, lambda i: None, lambda i: V.none)
    k, r = meth(t, 'check_primary_key')
    ctx.prove('a table without primary key passes', BoolVal(k == 'ok' and r is True))
