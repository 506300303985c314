"""C18: data written to SQLite reads back unchanged."""
import datetime
import decimal
import sqlite3

import csvw.db as D
from csvw.datatypes import DATATYPES

from pv.h import *
from pv.values import nativize
from proofs import sqltext

HARNESSES, harness = registry()

ASSUMPTIONS = [
    'SQLite stores texts, integers of 64 bits, doubles and blobs in columns of that type as they are, and SELECT gives the rows in the order they were inserted '
    '(the one of the key for tables with an integer key)',
    'to_python is the inverse of to_string without format for values of the datatype (C07, C08, C22); json.loads the one of json.dumps for JSON values',
    'decimals of up to 15 digits are the ones with the repr of their nearest double',
    'a text joined from items that do not contain the separator splits into these items (an empty list, or one empty item, giving an empty text)',
    'data satisfy the constraints of the schema (C17)',
]

FUNCS = {}
for _n, _t in DATATYPES.items():
    for _m in ('to_string', 'to_python'):
        FUNCS.setdefault(rt.qualname(getattr(_t, _m)), _m)


# ------------------------------------------------------------------ library contracts
def ser(v, *a, **kw):
    ctx = Ctx.cur
    if not isinstance(v, Proxy) and v is not None and not is_model(v):
        v = lift(v)
    t = lift(v)
    r = uf('text_of', V, INT)(t)
    ctx.fact(uf('value_of', V, V)(V.S(r)) == t)
    ctx.saved[r.get_id()] = (r, v)
    return SVal(V.S(r))


def is_model(v):
    return getattr(v, '__pv_symbolic__', False)


def deser(v, *a, **kw):
    ctx = Ctx.cur
    t = lift(v)
    for r, x in ctx.saved.values():
        if z3.is_true(z3.simplify(t == V.S(r))):
            return x
    return SVal(uf('value_of', V, V)(t))


def cls_deser(cls, v, *a, **kw):
    return deser(v)


REAL = {rt.qualname(f) for f in (DATATYPES['string'].to_python, DATATYPES['string'].to_string, DATATYPES['any'].to_python, DATATYPES['any'].to_string)}
CON = {}
for _q, _m in FUNCS.items():
    if _q not in REAL:
        CON[_q] = ser if _m == 'to_string' else deser
for _n, _t in DATATYPES.items():
    if isinstance(_t.__dict__.get('to_python'), classmethod):
        CON[rt.qualname(_t.to_python)] = cls_deser


def join_contract(sep, x):
    ctx = Ctx.cur
    s = RT.seq(x) or RT.list_seq(x)
    if not isinstance(sep, Proxy):
        return NotImplemented
    r = fresh_str('joined')
    i = Int('qj')
    ctx.prove('items of a joined text are texts', ForAll([i], Implies(And(0 <= i, i < s.n), V.is_S(lift(s.get(i))))))
    ctx.assume((r.t == lit('')) == Or(s.n == 0, And(s.n == 1, lift(s.get(IntVal(0))) == lit(''))))
    ctx.joined.append((r, sep, s))
    return r


def split_contract(t, sep=None, *a):
    ctx = Ctx.cur
    for r, sp, s in ctx.joined:
        if z3.is_true(z3.simplify(lift(t) == lift(r))):
            ctx.prove('a text is split at the separator it was joined with', lift(sep) == lift(sp) if sep is not None else BoolVal(False))
            if ctx.branch(lift(t) == lit('')):
                return VList([''])
            return VList(base=s)
    return NotImplemented


def dumps(x, **kw):
    ctx = Ctx.cur
    if kw:
        raise Unsupported('json.dumps with options')
    r = fresh_str('json')
    ctx.assume(r.t != lit(''))
    if isinstance(x, VList):
        s = RT.seq(x) or RT.list_seq(x)
        i = Int('qd')
        e = lift(s.get(i))
        ctx.prove('items have a JSON form', ForAll([i], Implies(And(0 <= i, i < s.n), Or(V.is_S(e), V.is_I(e), V.is_B(e), V.is_none(e), is_float(e), is_json(e)))))
    ctx.dumped.append((r, x))
    ctx.saved[('json', len(ctx.dumped))] = (z3.simplify(V.s(r.t)), x)
    return r


def loads(t, **kw):
    for r, x in Ctx.cur.dumped:
        if z3.is_true(z3.simplify(lift(t) == lift(r))):
            return x if not isinstance(x, VList) else VList(list(x) if x.base is None else [], x.base)
    raise Unsupported('json.loads of another text')


def is_float(t):
    return And(V.is_O(t), V.otag(t) == tag(float))


def is_json(t):
    return uf('json_value', V, BOOL)(t)


def to_float(x):
    ctx = Ctx.cur
    f = fresh_obj(float, 'float')
    ctx.floats.append((f, x))
    return f


def repr_con(x):
    for f, d in Ctx.cur.floats:
        if x is f:
            r = fresh_str('repr')
            Ctx.cur.reprs.append((r, d))
            return r
    return NotImplemented


def to_decimal(x):
    for r, d in Ctx.cur.reprs:
        if x is r:
            return d
    Ctx.cur.prove('a decimal is read from the text of the double', BoolVal(False), repr(x))
    return SVal(uf('decimal_of', V, V)(lift(x)))


def connect(name, *a, **k):
    Ctx.cur.prove('the database is the file, or in memory', BoolVal(name == ('/scratch/db' if Ctx.cur.file else ':memory:')), repr(name))
    Ctx.cur.conn.opened += 1
    return Ctx.cur.conn


def nmtoken(v, *a, **kw):
    return v        # of valid values


CON.update({
    rt.qualname(DATATYPES['NMTOKEN'].to_python): nmtoken, rt.qualname(DATATYPES['normalizedString'].to_python): nmtoken,
    'builtins.str.join': join_contract, 'builtins.str.split': split_contract, 'json.dumps': dumps, 'json.loads': loads, 'builtin:float': to_float, rt.qualname(float): to_float,
    'repr': repr_con, rt.qualname(decimal.Decimal): lambda *a: to_decimal(a[-1]), 'sqlite3.connect': connect, '_sqlite3.connect': connect,
    'csvw.db.schema': lambda *a, **k: Ctx.cur.specs})


# ------------------------------------------------------------------ SQLite
class Cursor:
    __pv_model__ = True

    def __init__(self, cols, rows):
        self.description, self.rows = tuple((c,) + (None,) * 6 for c in cols), rows

    def fetchall(self):
        return VList(self.rows)

    def __iter__(self):
        return iter(self.rows)


class Conn:
    """a database: tables of columns of a type, with rows"""
    __pv_model__ = True

    def __init__(self):
        self.tables, self.opened, self.closed, self.enforced, self.dirty = {}, 0, 0, False, False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        self.closed += 1
        Ctx.cur.prove('data are committed before the connection is closed', BoolVal(not self.dirty))

    def commit(self):
        self.dirty = False

    def reader(self, sql):
        sql = nativize(sql)
        if not isinstance(sql, str):
            raise Unsupported('SQL with symbolic parts')
        return sqltext.Reader(sql.replace('?', ' PARAM '))

    def table(self, r):
        n = r.name()
        if n not in self.tables:
            raise sqlite3.OperationalError('no such table: {}'.format(n))
        return self.tables[n]

    def execute(self, sql, params=()):
        r = self.reader(sql)
        if r.maybe('PRAGMA'):
            self.enforced = self.enforced or (r.maybe('FOREIGN_KEYS', '=') and r.maybe('ON'))
            return Cursor([], [])
        if r.at('CREATE'):
            n, cols, pk, fks = r.table()
            self.tables.setdefault(n, ([(c, t) for c, t, _, _ in cols], []))
            return Cursor([], [])
        if r.at('INSERT'):
            return self.executemany(sql, [params])
        r.need('SELECT')
        cols = None
        if not r.maybe('*'):
            cols = [r.name()]
            while r.maybe(','):
                cols.append(r.name())
        r.need('FROM')
        tcols, rows = self.table(r)
        params = list(RT.iterable(params)) if params else []
        names = [c for c, _ in tcols]
        cols = names if cols is None else cols
        if r.maybe('WHERE'):
            c = r.name()
            r.need('=', 'PARAM')
            rows = [row for row in rows if Ctx.cur.branch(eq(row[c], params[0]))]
        if r.maybe('ORDER', 'BY'):
            if not r.maybe('ROWID') and not r.maybe('_ROWID_'):
                raise Unsupported('order of rows')
        if not r.end() or any(c not in names for c in cols):
            raise sqlite3.OperationalError('SQL')
        return Cursor(cols, [tuple(row[c] for c in cols) for row in rows])

    def executemany(self, sql, rows):
        ctx = Ctx.cur
        r = self.reader(sql)
        r.need('INSERT', 'INTO')
        tcols, trows = self.table(r)
        cols = r.names()
        r.need('VALUES')
        r.need('(')
        n = 1
        r.need('PARAM')
        while r.maybe(','):
            r.need('PARAM')
            n += 1
        r.need(')')
        types = dict(tcols)
        if n != len(cols) or any(c not in types for c in cols) or len(set(cols)) < n:
            raise sqlite3.OperationalError('SQL')
        for row in list(RT.iterable(rows)):
            row = list(RT.iterable(row))
            if len(row) != n:
                raise sqlite3.ProgrammingError('number of bindings')
            for c, v in zip(cols, row):
                ctx.prove('values have the type of the column', fits(types[c], v), repr((c, types[c], v)))
            self.dirty = True
            trows.append(dict({c: None for c in types}, **dict(zip(cols, row))))


def fits(typ, v):
    if v is None:
        return BoolVal(True)
    t = lift(v)
    own = {'TEXT': V.is_S(t), 'INTEGER': Or(V.is_I(t), V.is_B(t)), 'REAL': Or(is_obj(t, float), V.is_I(t)), 'BLOB': is_obj(t, bytes)}[typ]
    return Or(V.is_none(t), own)


def is_obj(t, cls):
    return And(V.is_O(t), V.otag(t) == tag(cls))


class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Path:
    """the path of the database file"""
    __pv_model__ = True

    def __init__(self, exists):
        self.there, self.gone = exists, False

    def exists(self):
        return self.there

    def unlink(self, *a, **k):
        self.gone = True
        Ctx.cur.conn = Conn()

    def __str__(self):
        return '/scratch/db'

    def __bool__(self):
        return True


def tr(table, column=None):
    return 'T_' + table if column is None else 'C_' + table + '_' + column


def start(ctx, specs, fname=None):
    ctx.saved, ctx.joined, ctx.dumped, ctx.floats, ctx.reprs = {}, [], [], [], []
    ctx.conn, ctx.specs, ctx.file = Conn(), VList(specs), fname is not None
    names = [s.name for s in specs if not getattr(s, 'assoc', False)]
    tg = Obj(tabledict=VDict(**{n: Obj(name=n) for n in names}))
    k, db = run(D.Database, tg, translate=tr)
    ctx.prove('making a database does not fail', BoolVal(k == 'ok'), repr(db))
    if fname is not None:
        db.fname = fname
    return db


# ------------------------------------------------------------------ values
def fresh_value(base, name):
    """any value of the datatype"""
    t = DATATYPES[base]
    if base == 'boolean':
        return fresh_bool(name)
    if issubclass(t, DATATYPES['integer']):
        return fresh_int(name)
    if issubclass(t, DATATYPES['decimal']):
        return fresh_obj(decimal.Decimal, name)
    if issubclass(t, DATATYPES['float']):
        return fresh_obj(float, name)
    if issubclass(t, DATATYPES['datetime']):
        return fresh_obj(datetime.datetime, name)
    if issubclass(t, DATATYPES['duration']):
        return fresh_obj(datetime.timedelta, name)
    if base in ('hexBinary', 'base64Binary', 'binary'):
        return fresh_obj(bytes, name)
    if base == 'anyURI':
        return fresh_obj(tuple, name)
    if base == 'json':
        v = fresh_val(name)
        i = Int('qi')
        Ctx.cur.assume(And(is_json(v.t), Implies(V.is_L(v.t), ForAll([i], is_json(sat(v.t, i))))))
        return v
    return fresh_str(name)


def table_spec(name, cols, **kw):
    return run(D.TableSpec, name, columns=VList(cols), **kw)[1]


def check_rows(ctx, db, name, cols, want):
    """reading gives these rows: list of name -> value"""
    k, got = meth(db, 'read')
    ctx.prove('reading does not fail', BoolVal(k == 'ok'), repr(got) if k != 'ok' else '')
    if k != 'ok':
        return
    rows = RT.dict_meth(got, 'get', (tr(name), None), {}) if isinstance(got, VDict) else got.get(tr(name))
    rows = [] if rows is None else list(RT.iterable(rows))
    ctx.prove('all rows are read', BoolVal(len(rows) == len(want)), str(len(rows)))
    for g, w in zip(rows, want):
        keys = list(g.keys())
        ctx.prove('all columns are read', BoolVal(sorted(keys) == sorted(tr(name, c) for c in cols)), repr(keys))
        for c in cols:
            if tr(name, c) in keys:
                ctx.prove('the value is the one written', same_value(g[tr(name, c)], w.get(c)), repr((c, g[tr(name, c)], w.get(c))))


def same_value(a, b):
    if a is b:
        return BoolVal(True)
    if isinstance(b, VList):
        if not isinstance(a, VList):
            return BoolVal(False)
        s, t = RT.seq(a) or RT.list_seq(a), RT.seq(b) or RT.list_seq(b)
        i = Int('qv')
        return And(s.n == t.n, ForAll([i], Implies(And(0 <= i, i < t.n), lift(s.get(i)) == lift(t.get(i)))))
    if a is None or b is None:
        return lift(a) == lift(b)
    return lift(a) == lift(b)


def arrange(ctx, row):
    """the row as a dict, keys in any order, null ones there or not"""
    items = list(row.items())
    if len(items) > 1 and ctx.choose(2):
        items.reverse()
    d = VDict()
    for k, v in items:
        if v is None and ctx.choose(2):
            continue
        RT.dset(d, k, v)
    return d


def write(ctx, db, **tables):
    kw = tables.pop('kw', {})
    k, e = meth(db, 'write', **dict(kw, **{n: VList(rows) for n, rows in tables.items()}))
    ctx.prove('writing does not fail', BoolVal(k == 'ok'), repr(e))
    return k == 'ok'


def _cells(base):
    @harness('cells: {}'.format(base), contracts=CON, kind='shape', bound='2 rows of 2 columns, any values')
    def h(ctx):
        cols = [run(D.ColSpec, 'a', base)[1], run(D.ColSpec, 'b')[1]]
        db = start(ctx, [table_spec('t', cols)])
        rows = []
        for i in range(1 + ctx.choose(2)):
            rows.append({'a': fresh_value(base, 'v%d' % i) if ctx.choose(2) else None, 'b': fresh_str('w')})
        if write(ctx, db, t=[arrange(ctx, r) for r in rows]):
            ctx.prove('the data are committed', BoolVal(not ctx.conn.dirty))
            check_rows(ctx, db, 't', ['a', 'b'], rows)


def _lists(base):
    @harness('lists: {}'.format(base), contracts=CON, kind='shape', bound='2 rows with a list of any length')
    def h(ctx):
        sep = fresh_str('sep')
        ctx.assume(sep.t != lit(''))
        cols = [run(D.ColSpec, 'a', base, separator=sep)[1], run(D.ColSpec, 'b')[1]]
        db = start(ctx, [table_spec('t', cols)])
        rows = []
        for i in range(1 + ctx.choose(2)):
            k = ctx.choose(4)
            if k == 0:
                v = None
            elif k == 1:
                v = VList([])
            elif k == 2:
                v = VList([fresh_value(base, 'i%d' % j) for j in range(1 + ctx.choose(2))])
                if base == 'string' and len(v) == 1:
                    ctx.assume(v[0].t != lit(''))
            else:
                v = VList(base=items(ctx, base, 'l%d' % i))
            if isinstance(v, VList) and base == 'json':
                for x in list(v) if v.base is None else []:
                    ctx.assume(is_json(lift(x)))
            rows.append({'a': v, 'b': fresh_str('w')})
        if write(ctx, db, t=[arrange(ctx, r) for r in rows]):
            check_rows(ctx, db, 't', ['a', 'b'], rows)


def items(ctx, base, name):
    """any number of values"""
    x = fresh_value(base, name)
    t = lift(x)
    con = con_name(t)
    f = uf(ctx.fresh(name), INT, INT)
    if con == 'O':
        kind = z3.simplify(V.otag(t))
        s = fresh_seq(name, lambda i: SVal(V.O(kind, f(i))))
        i = Int('qi')
        x = V.O(kind, f(i))
        ctx.assume(ForAll([i], uf('value_of', V, V)(V.S(uf('text_of', V, INT)(x))) == x))
    elif con == 'I':
        s = fresh_seq(name, lambda i: SInt(f(i)))
    elif con == 'B':
        b = uf(ctx.fresh(name), INT, BOOL)
        s = fresh_seq(name, lambda i: sbool(b(i)))
    elif con == 'S':
        s = fresh_seq(name, lambda i: SVal(V.S(f(i))))
    else:
        g = uf(ctx.fresh(name), INT, V)
        s = fresh_seq(name, lambda i: SVal(g(i)))
        i = Int('qi')
        ctx.assume(ForAll([i], is_json(g(i))))
    ctx.assume(s.n >= 2)
    return s


for _b in sorted(DATATYPES):
    _cells(_b)
    _lists(_b)


# ------------------------------------------------------------------ lists of keys
def _keys(atype, btype):
    @harness('keys: {} of {}'.format(btype, atype), contracts=CON, kind='shape', bound='2 rows, up to 2 lists of up to 2 keys of one or two tables')
    def h(ctx):
        two = ctx.choose(2)         # lists in columns l, m of table q, of keys of p, or p and o
        cols = [run(D.ColSpec, 'id', atype)[1], run(D.ColSpec, 'b')[1]]
        at = run(D.TableSpec.association_table, 'q', 'id', 'p', 'id', atype=atype, btype=btype)[1]
        at.assoc = True
        at2 = at
        if two:
            at2 = run(D.TableSpec.association_table, 'q', 'id', 'o', 'x', atype=atype, btype=btype)[1]
            at2.assoc = True
        q = table_spec('q', cols, primary_key=VList(['id']), many_to_many=VDict(l=at, m=at2))
        p = table_spec('p', [run(D.ColSpec, 'id', btype)[1]], primary_key=VList(['id']))
        o = table_spec('o', [run(D.ColSpec, 'x', btype)[1]], primary_key=VList(['x']))
        db = start(ctx, [p, o, q, at] + ([at2] if two else []))
        keys = [fresh_value(btype, 'k%d' % i) for i in range(2)]
        ids = [fresh_value(atype, 'id%d' % i) for i in range(2)]
        ctx.assume(lift(ids[0]) != lift(ids[1]))
        rows, want = [], []
        for i in range(2):
            r = {'id': ids[i], 'b': fresh_str('w')}
            w = dict(r)
            for c in 'lm':
                k = ctx.choose([[4, 2], [2, 1]][i]['lm'.index(c)])
                lst = [keys[:1], [keys[1], keys[0]], [], None][k]
                r[c] = VList(lst) if lst is not None else None
                w[c] = VList(lst or [])
            rows.append(r)
            want.append(w)
        if write(ctx, db, p=[VDict(id=k) for k in keys], q=[arrange(ctx, r) for r in rows]):
            ctx.prove('the data are committed', BoolVal(not ctx.conn.dirty))
            check_rows(ctx, db, 'q', ['id', 'b', 'l', 'm'], want)


for _a, _b in [('string', 'string'), ('integer', 'string'), ('string', 'integer'), ('decimal', 'decimal'), ('date', 'anyURI'), ('anyURI', 'hexBinary'), ('hexBinary', 'date'), ('double', 'double')]:
    _keys(_a, _b)


# ------------------------------------------------------------------ files
@harness('files', contracts=CON, kind='shape', bound='a file with one old row; one table with one row')
def files(ctx):
    there, force = ctx.choose(2), ctx.choose(3)
    db = start(ctx, [table_spec('t', [run(D.ColSpec, 'a')[1]])], fname=Path(bool(there)))
    ctx.prove('the file is the one given', BoolVal(db.fname is not None))
    old, new = fresh_str('old'), fresh_str('new')
    if there:
        ctx.conn.tables['T_t'] = ([('C_t_a', 'TEXT')], [{'C_t_a': old}])
    conn = ctx.conn
    kw = {} if force == 2 else {'force': bool(force)}
    k, e = meth(db, 'write', t=VList([VDict(a=new)]), **kw)
    if there and force != 1:
        ctx.cover('kept')
        ctx.prove('files are not overwritten unless forced', BoolVal(k == 'exc' and isinstance(e, ValueError)))
        ctx.prove('files are left as they are', BoolVal(not db.fname.gone and ctx.conn is conn and (not there or len(conn.tables['T_t'][1]) == 1)))
        check_rows(ctx, db, 't', ['a'], [{'a': old}])
        return
    ctx.cover('written')
    ctx.prove('writing does not fail', BoolVal(k == 'ok'), repr(e))
    if k == 'ok':
        ctx.prove('connections to files are closed', BoolVal(ctx.conn.opened == ctx.conn.closed))
        ctx.prove('the data are committed', BoolVal(not ctx.conn.dirty))
        check_rows(ctx, db, 't', ['a'], [{'a': new}])
        ctx.prove('connections to files are closed', BoolVal(ctx.conn.opened == ctx.conn.closed))


# ------------------------------------------------------------------ columns, tables
@harness('unknown columns', contracts=CON, kind='shape', bound='2 rows of 2 columns')
def unknown(ctx):
    db = start(ctx, [table_spec('t', [run(D.ColSpec, 'a')[1], run(D.ColSpec, 'b')[1]])])
    where, skip = ctx.choose(4), ctx.choose(3)
    rows, want = [], []
    for i in range(2):
        w = {'a': fresh_str('a'), 'b': fresh_str('b')}
        items = list(w.items())
        if where == i:
            items.insert(ctx.choose(3), ('z', fresh_str('z')))
        want.append(w)
        d = VDict()
        for k, v in items:
            RT.dset(d, k, v)
        rows.append(d)
    kw = {} if skip == 2 else {'_skip_extra': bool(skip)}
    k, e = meth(db, 'write', t=VList(rows), **kw)
    if where < 2 and skip != 1:
        ctx.cover('refused')
        ctx.prove('unknown columns are refused', BoolVal(k == 'exc' and isinstance(e, ValueError)))
        return
    ctx.cover('written')
    ctx.prove('writing does not fail', BoolVal(k == 'ok'), repr(e))
    if k == 'ok':
        check_rows(ctx, db, 't', ['a', 'b'], want)


@harness('tables', contracts=CON, kind='shape', bound='3 tables of a column, up to 2 rows each')
def tables(ctx):
    names = ['t', 's', 'u']
    db = start(ctx, [table_spec(n, [run(D.ColSpec, 'a')[1]]) for n in names])
    want = {}
    for n in names:
        k = ctx.choose(4)
        if k < 3:
            want[n] = [{'a': fresh_str(n)} for _ in range(k)]
    if write(ctx, db, **{n: [VDict(a=r['a']) for r in rows] for n, rows in want.items()}):
        for n in names:
            check_rows(ctx, db, n, ['a'], want.get(n, []))


@harness('no rows lost to missing values', contracts=CON, kind='shape', bound='2 rows of 3 columns, any missing')
def missing(ctx):
    db = start(ctx, [table_spec('t', [run(D.ColSpec, n)[1] for n in 'abc'])])
    want = []
    for i in range(2):
        want.append({n: fresh_str(n) for n in 'abc' if ctx.choose(2)})
    rows = []
    for w in want:
        d = VDict()
        for n in (reversed(list(w)) if ctx.choose(2) else list(w)):
            RT.dset(d, n, w[n])
        rows.append(d)
    if write(ctx, db, t=rows):
        check_rows(ctx, db, 't', list('abc'), want)


@harness('write_from_tg', contracts={'csvw.db.Database.write': lambda self, **kw: written(self, kw)})
def write_from_tg(ctx):
    ctx.saved, ctx.written = {}, []
    rows = VList([])
    tg = Obj(read=lambda **k: VDict(t=rows), tabledict=VDict())
    db = object.__new__(D.Database)
    db.tg, db.tables, db.fname = tg, VList([]), None
    kw = {}
    if ctx.choose(2):
        kw = {'_force': bool(ctx.choose(2)), '_exists_ok': bool(ctx.choose(2)), '_skip_extra': bool(ctx.choose(2))}
    k, e = meth(db, 'write_from_tg', **kw)
    ctx.prove('all is written', BoolVal(k == 'ok' and len(ctx.written) == 1), repr(e))
    for got in ctx.written:
        ctx.prove('the data of the tables', BoolVal(got.get('t') is rows))
        ctx.prove('as told', BoolVal(
            got.get('force', False) == kw.get('_force', False) and got.get('_skip_extra', False) == kw.get('_skip_extra', False)))
        ctx.prove('no other data', BoolVal(not set(got) - {'t', 'force', '_exists_ok', '_skip_extra'}))


def written(self, kw):
    Ctx.cur.written.append(kw)


@harness('separator, split_value', contracts={k: v for k, v in CON.items() if k != 'builtins.str.split'})
def separator(ctx):
    sep = fresh_str('sep')
    ctx.assume(sep.t != lit(''))
    db = start(ctx, [table_spec('t', [run(D.ColSpec, 'a', separator=sep)[1], run(D.ColSpec, 'b')[1]]), table_spec('s', [run(D.ColSpec, 'a')[1]])])
    for t, c, want in [('t', 'a', sep), ('t', 'b', None), ('s', 'a', None), ('x', 'a', None)]:
        k, r = meth(db, 'separator', tr(t), tr(t, c))
        ctx.prove('the separator of the column', BoolVal(k == 'ok' and r is want))
    v = fresh_str('v')
    k, r = meth(db, 'split_value', tr('t'), tr('t', 'b'), v)
    ctx.prove('other columns are not split', BoolVal(k == 'ok' and r is v))
