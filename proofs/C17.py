"""C17: the SQL schema."""
import csvw.db as D
from csvw.datatypes import DATATYPES

from pv.h import *
from proofs import sqltext
from proofs.sqltext import Bad

HARNESSES, harness = registry(concat_facts=True)

ASSUMPTIONS = [
    'SQLite understands CREATE TABLE, CHECK, NOT NULL, PRIMARY KEY and FOREIGN KEY as documented',
    'math.isfinite and the text of numbers and dates (library)',
    'SQLite compares columns of numeric types, and CASTs to NUMERIC, as numbers and datetime() by time, to the second',
]

BOUNDS = [('minimum', '>='), ('minInclusive', '>='), ('minExclusive', '>'), ('maximum', '<='), ('maxInclusive', '<='), ('maxExclusive', '<')]
LENGTHS = [('length', '='), ('minLength', '>='), ('maxLength', '<=')]
NUMERIC = [n for n, t in DATATYPES.items() if issubclass(t, (DATATYPES['decimal'], DATATYPES['float']))]
DATES = [n for n, t in DATATYPES.items() if issubclass(t, DATATYPES['datetime']) and n != 'time']
STRINGS = [n for n, t in DATATYPES.items() if issubclass(t, DATATYPES['string']) and n != 'json']


def esc(x):
    """a name as written between backticks"""
    return SVal(V.S(uf('escaped', V, INT)(lift(x))))


def replace_contract(s, old, new, *a):
    if (old, new) == ('`', '``'):
        return esc(s)
    return NotImplemented


def tr(*names):
    """the name translator: any function of table and column"""
    names = [n for n in names if n is not None]
    return SVal(V.S(uf('translated%d' % len(names), *([V] * len(names)), INT)(*[lift(n) for n in names])))


def is_name(got, want):
    return eq(got, esc(want)) if not isinstance(got, str) else BoolVal(False)


def str_of(x):
    return RT.as_str(x)


CON = {'builtins.str.replace': replace_contract, 'math.isfinite': lambda x: sbool(uf('finite', V, BOOL)(lift(x)))}


class Dt:
    """a datatype description"""
    def __init__(self, **kw):
        for k in ('base', 'format', 'length', 'minLength', 'maxLength', 'minimum', 'maximum', 'minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive'):
            setattr(self, k, kw.get(k))


def read(ctx, sql, what):
    try:
        res = sqltext.read(sql, what)
    except Bad as e:
        ctx.prove('the SQL text is well-formed', BoolVal(False), '{} {!r}'.format(e, sql))
        return None
    ctx.prove('the SQL text is well-formed', BoolVal(True))
    return res


def sure(ctx, f):
    f = z3.simplify(f)
    return z3.is_true(f) or not z3.is_false(f) and ctx.valid(f)[0] == 'valid'


def on_column(ctx, x, name):
    """is this operand the column?"""
    return x[0] == 'column' and sure(ctx, is_name(x[1], tr(name)))


def some(ctx, ps, all_):
    """one or two of the properties, or all"""
    if all_ and ctx.choose(2):
        return ps
    i = ctx.choose(len(ps))
    j = i + ctx.choose(len(ps) - i) if all_ else i
    return {ps[i], ps[j]}


def _column(base, sep):
    @harness('ColSpec.sql: {}{}'.format(base, ', a list' if sep else ''), contracts=CON)
    def h(ctx):
        dt = Dt(base=base)
        all_ = base in ('decimal', 'double', 'datetime', 'string') and not sep
        if ctx.choose(2):
            for p in some(ctx, [p for p, _ in BOUNDS], all_) if base in NUMERIC + DATES + ['time', 'duration'] else \
                    some(ctx, [p for p, _ in LENGTHS], True) if base in STRINGS + ['hexBinary', 'base64Binary', 'json'] else []:
                setattr(dt, p, inp(p, fresh_int(p)))
                if 'ength' in p:
                    ctx.assume(it(getattr(dt, p)) >= 0)
        name, req = inp('name', fresh_str('name')), fresh_bool('required') if base in ('integer', 'string') else None
        k, c = run(D.ColSpec, name, base, separator=fresh_sep(ctx) if sep else None, required=req, csvw=dt)
        ctx.prove('making a specification does not fail', BoolVal(k == 'ok'), repr(c))
        if k != 'ok':
            return
        k, sql = meth(c, 'sql', tr)
        ctx.prove('the SQL text is made', BoolVal(k == 'ok'), repr(sql))
        got = k == 'ok' and read(ctx, sql, 'column')
        if not got:
            return
        n, typ, notnull, check = got
        ctx.prove('the column has its translated name', is_name(n, tr(name)), repr(n))
        ctx.prove('NOT NULL iff required', bt(req) == BoolVal(notnull) if req is not None else BoolVal(not notnull))
        seen = set()
        for a, op, b in check:
            hit = None
            if b[0] == 'value' and a[0] == 'length' and on_column(ctx, a[1], name) and base in STRINGS + ['hexBinary']:
                hit = [p for p, o in LENGTHS if o == op and getattr(dt, p) is not None and sure(ctx, eq(b[1], str_of(getattr(dt, p))))]
            elif b[0] == 'value' and base in NUMERIC and (
                    on_column(ctx, a, name) and typ != 'TEXT' or a[0] == 'cast' and on_column(ctx, a[1], name) and a[2] in ('NUMERIC', 'REAL')):
                hit = [p for p, o in BOUNDS if o == op and getattr(dt, p) is not None and sure(ctx, eq(b[1], str_of(getattr(dt, p))))]
            elif a[0] == b[0] == 'datetime' and base in DATES and on_column(ctx, a[1], name) and b[1][0] == 'text':
                # never stricter than the bound
                hit = [p for p, o in BOUNDS if o.rstrip('=') + '=' == op and getattr(dt, p) is not None and sure(ctx, eq(b[1][1], str_of(getattr(dt, p))))]
            ctx.prove('the column is only checked for its constraints', BoolVal(bool(hit) and not sep), repr((a, op, b)))
            seen |= set(hit or [])
        for p, _ in BOUNDS + LENGTHS:
            v = getattr(dt, p)
            if v is None or sep:
                continue
            carried = base in NUMERIC + DATES if (p, _) in BOUNDS else base in STRINGS + ['hexBinary']
            if carried and p not in seen:
                ctx.prove('{} is checked'.format(p), Not(uf('finite', V, BOOL)(lift(v))) if base in NUMERIC else BoolVal(False))
            elif carried:
                ctx.cover('checked')
                ctx.prove('{} is checked'.format(p), BoolVal(True))


def fresh_sep(ctx):
    s = fresh_str('sep')
    ctx.assume(s.t != lit(''))
    return s


for _b in sorted(DATATYPES):
    for _s in (False, True):
        _column(_b, _s)


# ------------------------------------------------------------------ tables
class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Col:
    """a column: its own properties, and those it inherits"""
    def __init__(self, header, own, inherited):
        self.header, self.own, self.inherited, self.name = header, own, inherited, header
        for k in ('separator', 'datatype', 'required'):
            setattr(self, k, own.get(k))

    def inherit(self, p):
        return self.own[p] if self.own.get(p) is not None else self.inherited.get(p)


def distinct(ctx, *xs):
    for i, x in enumerate(xs):
        for y in xs[:i]:
            ctx.assume(lift(x) != lift(y))


def fk_(cols, resource, refcols, schema=None):
    return Obj(columnReference=VList(list(cols)), reference=Obj(resource=Obj(string=resource), columnReference=VList(list(refcols)), schemaReference=schema))


def paired(got, fk):
    """do both name the same pairs of columns?"""
    a, t, b = got
    a, b, c, d = list(a), list(b), list(fk.columnReference), list(fk.reference.columnReference)
    if len(a) != len(c) or len(b) != len(d):
        return BoolVal(False)
    return And(eq(t, fk.reference.resource.string), *[Or(*[And(eq(x, z), eq(y, w)) for z, w in zip(c, d)]) for x, y in zip(a, b)])


def matches(ctx, got, want, same):
    """are these the same up to order?"""
    if len(got) != len(want):
        return BoolVal(False)
    if not got:
        return BoolVal(True)
    return Or(*[And(same(got[0], w), matches(ctx, got[1:], want[:i] + want[i + 1:], same)) for i, w in enumerate(want)])


def differ(ctx, names):
    """texts which end in different letters, or only one of which contains _, are different"""
    for i, x in enumerate(names):
        for y in names[:i]:
            ps, qs = sqltext.pieces(x), sqltext.pieces(y)
            if isinstance(ps[-1], str) and isinstance(qs[-1], str) and ps[-1][-1:] != qs[-1][-1:] or any(
                    all(isinstance(p, str) and '_' not in p for p in a) and any(isinstance(p, str) and '_' in p for p in b) for a, b in [(ps, qs), (qs, ps)]):
                ctx.assume(lift(x) != lift(y))


def spec_con(*a, **k):
    s = D.TableSpec(*a, **k)
    if 'many_to_many' not in k:
        s.many_to_many = VDict()
    return s


def association(ctx, at, table, pk, ptype, ref, rcol, rtype):
    """the association table of a list-valued foreign key"""
    cols = list(at.columns)
    ctx.prove('an association has three columns', BoolVal(len(cols) == 3), repr(cols))
    if len(cols) != 3:
        return
    names = [c.name for c in cols]
    differ(ctx, names)
    ctx.prove('of different names', And(*[lift(names[i]) != lift(names[j]) for i in range(3) for j in range(i)]), repr(names))
    fks = list(at.foreign_keys)
    ctx.prove('the association references the table, then the other one', And(BoolVal(len(fks) == 2), *[
        And(BoolVal(len(list(fk[0])) == 1 and len(list(fk[2])) == 1), eq(fk[0][0], n), eq(fk[1], t), eq(fk[2][0], c))
        for fk, n, t, c in zip(fks, names, [table, ref], [pk, rcol])]), repr(fks))
    for c, t in zip(cols, [ptype, rtype]):
        ctx.prove('keys have the type of the columns referenced', eq(c.csvw_type, t), repr(c))
        ctx.prove('keys are no lists', BoolVal(not c.separator))
        ctx.prove('no other constraints', BoolVal(not c.required and c.csvw is None))
    ctx.prove('the context may be empty', BoolVal(not cols[2].required and cols[2].csvw is None and cols[2].csvw_type == 'string'))


@harness('TableSpec.association_table')
def association_table(ctx):
    t, pk, ref, col = [inp(n, fresh_str(n)) for n in ('table', 'pk', 'ref', 'col')]
    k, at = run(D.TableSpec.association_table, t, pk, ref, col)
    ctx.prove('making an association does not fail', BoolVal(k == 'ok'), repr(type(at)))
    if k == 'ok':
        # texts of different parts may be equal: names only have to differ
        association(ctx, at, t, pk, 'string', ref, col, 'string')
        k, at2 = run(D.TableSpec.association_table, t, pk, ref, col)
        ctx.prove('for both tables, the same name', eq(at.name, at2.name))


SHAPES = [[0], [1], [0, 1], [1, 0]]


def _metadata(nfks, second, drop):
    @harness('TableSpec.from_table_metadata: {} foreign keys{}{}'.format(nfks, ', second {}'.format(second) if nfks == 2 else '', '' if drop else ', all'), kind='shape', contracts={'csvw.db.TableSpec': spec_con},
             bound='2 columns of any name, separator, type; {} foreign keys'.format(nfks))
    def h(ctx):
        names = [inp('c%d' % i, fresh_str('c%d' % i)) for i in range(2)]
        distinct(ctx, *names)
        table, other = inp('table', fresh_str('table')), inp('other', fresh_str('other'))
        distinct(ctx, table, other)
        inherited = {}
        where = ctx.choose(4)
        sep = fresh_sep(ctx)
        if where == 1:
            inherited['separator'] = sep
        if where == 0:
            inherited['required'] = fresh_bool('allrequired')
        types = ctx.choose(3)
        dts = [[None, None], [Dt(base='integer'), None], [Dt(base='decimal'), Dt(base='date')]][types]
        req = fresh_bool('required') if types else None
        cols = [Col(n, {'separator': sep if where - 2 == i else None, 'datatype': d, 'required': req if i else None}, inherited) for i, (n, d) in enumerate(zip(names, dts))]
        seps = [c.inherit('separator') for c in cols]
        pk = [None, [names[0]], [names[1]], [names[0], names[1]]][ctx.choose(4)]
        rnames = [inp('r%d' % i, fresh_str('r%d' % i)) for i in range(2)]
        distinct(ctx, *rnames)
        rtypes = ['boolean', 'string']
        ref = Obj(tableSchema=Obj(columns=VList([Col(rnames[0], {'datatype': Dt(base='boolean')}, {}), Col(rnames[1], {}, {})])))
        fks, shapes = [], []
        for i in range(nfks):
            shape = SHAPES[ctx.choose(4) if i == 0 else second]
            to = ctx.choose(3) if i == 0 else 0    # another table, itself, a schema
            target = names if to == 1 else rnames
            back = (len(shape) == 2 and ctx.choose(2)) if i == 0 else False
            tcols = [target[1 - j] if back else target[j] for j in range(len(shape))]
            fks.append(fk_([names[j] for j in shape], table if to == 1 else other, tcols, fresh_str('schema') if to == 2 else None))
            if to == 2:
                ctx.assume(lift(fks[-1].reference.schemaReference) != lit(''))
            shapes.append((shape, to))
        if nfks == 2 and shapes[0][0] == shapes[1][0]:
            return      # the same columns twice
        me = Obj(local_name=table, tableSchema=Obj(columns=VList(cols), foreignKeys=VList(fks), primaryKey=VList(pk) if pk else None))
        me.inherit = lambda p: inherited.get(p)
        kw = {}
        if TABLEDICT:
            kw['tabledict'] = Known([(table, me), (other, ref)])
        k, spec = run(D.TableSpec.from_table_metadata, me, drop_self_referential_fks=drop, **kw)
        m2m = [(s[0], fk, to) for (s, to), fk in zip(shapes, fks) if to != 2 and len(s) == 1 and seps[s[0]] is not None]
        if m2m and not (pk and len(pk) == 1):
            ctx.cover('association without key')
            ctx.prove('associations need a key of one column', BoolVal(k == 'exc'))
            return
        ctx.prove('making a specification does not fail', BoolVal(k == 'ok'), repr(type(spec)) + str(spec.args if k == 'exc' else ''))
        if k != 'ok':
            return
        ctx.prove('the name', eq(spec.name, table))
        got = list(spec.primary_key) if spec.primary_key is not None else []
        ctx.prove('the primary key', And(BoolVal(len(got) == len(pk or [])), *[eq(a, b) for a, b in zip(got, pk or [])]))
        plain = [fk for (s, to), fk in zip(shapes, fks) if to != 2 and not (to == 1 and drop) and not any(fk is x[1] for x in m2m)]
        ctx.prove('all foreign keys, as declared', matches(ctx, list(spec.foreign_keys), plain, paired), repr(spec.foreign_keys))
        want = [(n, c, s) for i, (n, c, s) in enumerate(zip(names, cols, seps)) if not any(i == x[0] for x in m2m)]
        ctx.prove('all columns', BoolVal(len(spec.columns) == len(want)), str(len(spec.columns)))
        for g, (n, c, s) in zip(list(spec.columns), want):
            dt = c.inherit('datatype')
            ctx.prove('columns: name, type', And(eq(g.name, n), eq(g.csvw_type, dt.base if dt else 'string')))
            ctx.prove('columns: separator', eq(g.separator, s))
            ctx.prove('columns: required', eq(g.required, c.inherit('required')) if c.inherit('required') is not None else BoolVal(not g.required))
            ctx.prove('columns: constraints', BoolVal(g.csvw is dt))
        ctx.prove('all associations', length(spec.many_to_many) == len(m2m))
        for i, fk, to in m2m:
            ctx.cover('association')
            at = RT.getitem(spec.many_to_many, names[i])
            j = [x for x in range(2) if pk[0] is names[x]][0]
            rcol = list(fk.reference.columnReference)[0]
            tt = [x for x in range(2) if rcol is (names if to == 1 else rnames)[x]][0]
            tname = lambda d: d.base if d else 'string'     # noqa: E731
            association(ctx, at, table, pk[0], tname(dts[j]), table if to == 1 else other, rcol, tname(dts[tt]) if to == 1 else rtypes[tt])


class Known:
    """tables by name"""
    __pv_symbolic__ = True

    def __init__(self, items):
        self.its = items

    def get(self, k, default=None):
        for n, t in self.its:
            if Ctx.cur.branch(eq(n, k)):
                return t
        return default

    def __getitem__(self, k):
        r = self.get(k)
        if r is None:
            raise KeyError(k)
        return r

    def __contains__(self, k):
        return self.get(k) is not None

    def __iter__(self):
        return iter([n for n, _ in self.its])

    def items(self):
        return list(self.its)

    def values(self):
        return [t for _, t in self.its]

    def keys(self):
        return [n for n, _ in self.its]


import inspect  # noqa: E402
TABLEDICT = 'tabledict' in inspect.signature(D.TableSpec.from_table_metadata).parameters

for _d in (True, False):
    _metadata(0, None, _d)
    _metadata(1, None, _d)
    for _s in range(4):
        _metadata(2, _s, _d)


# ------------------------------------------------------------------ CREATE TABLE
def column_sql(self, translate):
    """C17, ColSpec.sql"""
    return RT.concat(['`', esc(RT.call(translate, self.name)), '` TEXT'])


def _table(ncols, npk, nfks):
    @harness('TableSpec.sql: {} columns, key of {}, {} foreign keys'.format(ncols, npk, nfks), contracts=dict(CON, **{'csvw.db.ColSpec.sql': column_sql}), kind='shape',
             bound='{} columns, key of {}, {} foreign keys of up to 2 columns, any names'.format(ncols, npk, nfks))
    def h(ctx):
        table = inp('table', fresh_str('table'))
        names = [inp('c%d' % i, fresh_str('c%d' % i)) for i in range(ncols)]
        pk = [names[i] for i in range(npk)][::-1]
        fks = []
        for i in range(nfks):
            n = 1 + ctx.choose(2)
            fks.append((VList([fresh_str('f') for _ in range(n)]), inp('ref%d' % i, fresh_str('ref')), VList([fresh_str('t') for _ in range(n)])))
        k, cols = 'ok', []
        for n in names:
            cols.append(run(D.ColSpec, n)[1])
        k, spec = run(D.TableSpec, table, columns=VList(cols), primary_key=VList(pk) if pk else None, foreign_keys=VList(fks))
        k, sql = meth(spec, 'sql', tr)
        ctx.prove('the SQL text is made', BoolVal(k == 'ok'), repr(sql))
        got = k == 'ok' and read(ctx, sql, 'table')
        if not got:
            return
        n, gcols, gpk, gfks = got
        ctx.prove('the table has its translated name', is_name(n, tr(table)))
        ctx.prove('all columns, in order', And(BoolVal(len(gcols) == ncols), *[is_name(g[0], tr(table, c)) for g, c in zip(gcols, names)]))
        ctx.prove('the primary key', And(BoolVal(len(gpk) == npk), *[is_name(g, tr(table, c)) for g, c in zip(gpk, pk)]))
        ctx.prove('all foreign keys', BoolVal(len(gfks) == nfks))
        for (a, t, b, acts), fk in zip(gfks, fks):
            x, y = list(fk[0]), list(fk[2])
            ctx.prove('the columns of foreign keys', And(BoolVal(len(a) == len(x)), *[is_name(g, tr(table, c)) for g, c in zip(a, x)]))
            ctx.prove('the table referenced', is_name(t, tr(fk[1])))
            ctx.prove('the columns referenced', And(BoolVal(len(b) == len(y)), *[is_name(g, tr(fk[1], c)) for g, c in zip(b, y)]))
            ctx.prove('deleting a row deletes the rows that reference it', BoolVal(acts == [('DELETE', 'CASCADE')]), repr(acts))


for _n in [(1, 0, 0), (1, 1, 0), (2, 1, 1), (3, 2, 2), (4, 0, 2), (3, 3, 0)]:
    _table(*_n)


@harness('quoted', contracts=CON)
def quoted_(ctx):
    n = ctx.choose(4)
    names = [inp('n%d' % i, fresh_str('n%d' % i)) for i in range(n)]
    k, q = run(D.quoted, *names)
    ctx.prove('quoting does not fail', BoolVal(k == 'ok'), repr(q))
    try:
        r = sqltext.Reader(RT.concat(['(', q, ')']))
        got = r.names() if n else []
        ctx.prove('all names', And(BoolVal(len(got) == n), *[is_name(g, x) for g, x in zip(got, names)]), repr(got))
    except Bad as e:
        ctx.prove('all names', BoolVal(False), str(e))


# ------------------------------------------------------------------ order
def _order(n):
    @harness('schema: {} tables'.format(n), kind='shape', bound='{} tables, any references between them{}'.format(n, ', association tables' if n < 3 else ''), contracts={
        'csvw.db.TableSpec.from_table_metadata': lambda *a, **k: spec_of(*a, **k)})
    def h(ctx):
        ctx.specs, names = {}, ['t%d' % i for i in range(n)]
        drop = bool(ctx.choose(2)) if n < 3 else True
        edges = set()
        for i in range(n):
            refs = []
            for j in range(n) if n < 4 else [x for x in range(4) if x != i]:
                if ctx.choose(2):
                    refs.append(j)
                    if i != j:
                        edges.add((i, j))
            outside = n < 3 and ctx.choose(2)
            s = run(D.TableSpec, names[i], foreign_keys=VList([(VList(['c']), names[j], VList(['d'])) for j in refs] + ([(VList(['c']), 'elsewhere', VList(['d']))] if outside else [])))[1]
            if outside:
                edges.add((i, -1))
            m2m = ctx.choose(n + 1) if n < 3 else 0
            if m2m:
                s.many_to_many = VDict(x=run(D.TableSpec.association_table, names[i], 'id', names[m2m - 1], 'id')[1])
                if n == 2 and ctx.choose(2):
                    s.many_to_many = VDict(
                        x=s.many_to_many['x'], y=run(D.TableSpec.association_table, names[i], 'id', names[2 - m2m], 'id')[1])
            ctx.specs[names[i]] = s
        ctx.drop = drop
        tables = [Obj(name=x) for x in names]
        k, res = run(D.schema, Obj(tabledict=VDict(**{t.name: t for t in tables}), tables=VList(tables)), drop_self_referential_fks=drop)
        # which can be ordered?
        done, more = set(), True
        while more:
            more = [i for i in range(n) if i not in done and all(b in done for a, b in edges if a == i)]
            done |= set(more)
        if len(done) < n:
            ctx.cover('cycle')
            ctx.prove('cycles and references to unknown tables are refused', BoolVal(k == 'exc' and isinstance(res, ValueError)), repr(res))
            return
        ctx.cover('order')
        ctx.prove('there is an order', BoolVal(k == 'ok'), repr(res))
        if k != 'ok':
            return
        res = list(res)
        want = [s for s in ctx.specs.values()] + [a for s in ctx.specs.values() for a in s.many_to_many.values()]
        ctx.prove('every table once', BoolVal(len(res) == len(want) and all(any(s is w for s in res) for w in want)), repr(res))
        seen = set()
        for s in res:
            ctx.prove('after all tables it references', BoolVal(all(fk[1] in seen or fk[1] == s.name for fk in list(s.foreign_keys))), repr(s))
            seen.add(s.name)


def spec_of(*a, **k):
    ctx = Ctx.cur
    table = [x for x in a if isinstance(x, Obj)] or [k['table']]
    drop = k.get('drop_self_referential_fks', True)
    ctx.prove('self-references are dropped as told', BoolVal(drop is ctx.drop))
    return ctx.specs[table[0].name]


for _n in range(5):
    _order(_n)
