"""C20: frictionless data packages are converted without losing columns, keys or constraints."""
import pathlib

from pv.h import *
import csvw.frictionless as F
import csvw.metadata as M
from proofs import C15

HARNESSES, harness = registry()

ASSUMPTIONS = [
    'json.loads gives the object a text describes (library)',
    'field constraints have values valid for the type of the field',
    'uritemplate: the text of a template is what it was made from (library)',
    'Datatype.parse is the function C05 to C08 specify',
]

# frictionless type -> base datatype; other types are read as text
TYPES = {
    'string': 'string', 'number': 'number', 'integer': 'integer', 'boolean': 'boolean', 'date': 'date', 'time': 'time', 'datetime': 'datetime', 'duration': 'duration',
    'year': 'gYear', 'yearmonth': 'gYearMonth', 'object': 'json', 'array': 'json', 'geojson': 'json'}
LENGTHS = ('string', 'anyURI', 'binary')
RANGES = ('number', 'integer', 'date', 'time', 'datetime', 'duration')
REGEX = ('string', 'anyURI', 'binary', 'gYear', 'gYearMonth', 'duration')
CONSTRAINTS = ['required', 'minLength', 'maxLength', 'minimum', 'maximum', 'pattern']


def truthy(x):
    return lift(x) != lit('')


def base_of(t, fmt):
    """the base datatype, from the type (a text, or None) and format (dito)"""
    ctx = Ctx.cur
    if t is None:
        return 'string'
    for k, b in TYPES.items():
        if ctx.branch(t.t == lit(k)):
            ctx.cover(k)
            if k == 'string' and fmt is not None:
                for f, c in (('binary', 'binary'), ('uri', 'anyURI')):
                    if ctx.branch(fmt.t == lit(f)):
                        return c
            return b
    ctx.cover('unknown type')
    return 'string'


def text():
    return fresh_str('v')


def is_base(d, b):
    return BoolVal('base' in list(d.keys()) and d['base'] == b) if not isinstance(d.get('base'), Proxy) else eq(d['base'], b)


def _column(group):
    """`group`: the optional parts of the field which are present or not"""
    @harness('convert_column_spec: {}'.format(' '.join(group) or 'type'), kind='unbounded')
    def h(ctx):
        has = {g: bool(ctx.choose(2)) for g in group}
        spec = VDict(name=inp('name', text()))
        if has.get('type', True):
            spec['type'] = inp('type', text())
        if has.get('format'):
            spec['format'] = inp('format', text())
        for p in ('title', 'description', 'rdfType', 'decimalChar', 'groupChar'):
            if has.get(p):
                spec[p] = inp(p, text())
        if has.get('bareNumber'):
            spec['bareNumber'] = True
        for p in ('trueValues', 'falseValues'):
            if has.get(p):
                spec[p] = [text() for _ in range(ctx.choose(3))]
        cs = [p for p in CONSTRAINTS if has.get(p)]
        if cs:
            spec['constraints'] = VDict()
            for p in cs:
                spec['constraints'][p] = bool(ctx.choose(2)) if p == 'required' else text() if p == 'pattern' else fresh_int(p)
        k, res = run(F.convert_column_spec, spec)
        ctx.prove('converting does not fail', BoolVal(k == 'ok'), repr(res))
        if k != 'ok':
            return
        keys = list(res.keys())
        ctx.prove('the name is kept', eq(res['name'], spec['name']) if 'name' in keys else BoolVal(False))
        d = res['datatype']
        dkeys = list(d.keys())
        b = base_of(spec.get('type'), spec.get('format'))
        ctx.prove('the type is mapped', is_base(d, b), repr((d, b)))
        # properties of the column
        if has.get('title'):
            if ctx.branch(truthy(spec['title'])):
                ctx.prove('the title is kept', eq(res['titles'], VList([spec['title']])) if 'titles' in keys else BoolVal(False))
            else:
                ctx.prove('no empty title', BoolVal('titles' not in keys))
        for p, q in (('rdfType', 'propertyUrl'), ('description', 'dc:description')):
            if has.get(p):
                v = spec[p] if p == 'rdfType' else VList([spec[p]])
                ctx.prove('the {} is kept'.format(p), eq(res[q], v) if q in keys else BoolVal(False))
            else:
                ctx.prove('no {} but the one given'.format(q), BoolVal(q not in keys))
        # constraints
        if has.get('required'):
            ctx.prove('required is kept, of the column', BoolVal('required' in keys and res.get('required') is spec['constraints']['required']), repr(res))
        else:
            ctx.prove('not required', BoolVal('required' not in keys))
        ctx.prove('the datatype is not required', BoolVal('required' not in dkeys), repr(d))
        for p in ('minLength', 'maxLength', 'minimum', 'maximum'):
            if p in cs and b in (LENGTHS if 'Length' in p else RANGES):
                ctx.prove('{} is kept'.format(p), eq(d[p], spec['constraints'][p]) if p in dkeys else BoolVal(False), repr(d))
            else:
                ctx.prove('no other {}'.format(p), BoolVal(p not in dkeys), repr(d))
        # format
        tokens = b == 'boolean' and has.get('trueValues') and has.get('falseValues') and len(spec['trueValues']) and len(spec['falseValues'])
        chars = {p: spec[p] for p in ('decimalChar', 'groupChar') if b in ('number', 'integer') and has.get(p) and ctx.branch(truthy(spec[p]))}
        if tokens:
            want = RT.format('{}|{}', (spec['trueValues'][0], spec['falseValues'][0]), {})
            ctx.prove('the boolean tokens are kept', eq(d['format'], want) if 'format' in dkeys else BoolVal(False), repr(d))
        elif chars:
            ctx.prove('the number characters are kept', eq(d['format'], VDict(chars)) if 'format' in dkeys else BoolVal(False), repr(d))
        elif 'pattern' in cs and b in REGEX:
            ctx.prove('the pattern is kept', eq(d['format'], spec['constraints']['pattern']) if 'format' in dkeys else BoolVal(False), repr(d))
        else:
            ctx.prove('no other format', BoolVal('format' not in dkeys or len(d['format']) == 0), repr(d))
        if 'type' in spec.keys():
            ctx.expect_cover('number', 'string', 'geojson', 'unknown type')


_column([])
_column(['type', 'format', 'required'])
_column(['format', 'title', 'description', 'rdfType'])
_column(['decimalChar', 'groupChar', 'bareNumber', 'pattern', 'minimum'])
_column(['trueValues', 'falseValues', 'pattern'])
_column(['required', 'minLength', 'maxLength', 'format'])
_column(['minimum', 'maximum', 'pattern', 'format'])


# ------------------------------------------------------------------ the column description is valid, and has the constraints
def parse_contract(self, v):
    return v


def _described(t, cs):
    @harness('column described: {} {}'.format(t, ' '.join(cs)), contracts=dict(C15.C, **{'csvw.metadata.Datatype.parse': parse_contract}))
    def h(ctx):
        ctx.roots['warnings'] = VList()
        spec = VDict(name='n', type=t)
        spec['title'], spec['rdfType'] = text(), text()
        c = spec['constraints'] = VDict()
        lo = None
        for p in cs:
            c[p] = bool(ctx.choose(2)) if p == 'required' else fresh_int(p)
            if 'Length' in p:
                ctx.assume(it(c[p]) >= 0)
            if p != 'required':
                if lo is not None:
                    ctx.assume(it(lo) <= it(c[p]))
                lo = c[p]
        if t in ('number', 'integer') and ctx.choose(2):
            spec['groupChar'], spec['decimalChar'] = text(), text()
        k, col = run(lambda s: call(M.Column.fromvalue, call(F.convert_column_spec, s)), spec)
        ctx.prove('converting does not fail', BoolVal(k == 'ok'), repr(col))
        if k != 'ok':
            return
        ctx.prove('without warnings', BoolVal(not len(list(ctx.roots['warnings']))), repr(ctx.roots['warnings']))
        ctx.prove('base datatype', BoolVal(col.datatype.base == TYPES.get(t, 'string')), col.datatype.base)
        ctx.prove('required', BoolVal(bool(col.required) == bool(c.get('required'))), repr(col.required))
        b = TYPES.get(t, 'string')
        for p in ('minLength', 'maxLength', 'minimum', 'maximum'):
            want = c[p] if p in cs and b in (LENGTHS if 'Length' in p else RANGES) else None
            ctx.prove(p, eq(getattr(col.datatype, p), want), repr(getattr(col.datatype, p)))
        if 'groupChar' in spec.keys():
            for p in ('groupChar', 'decimalChar'):
                got = (col.datatype.format or VDict()).get(p)
                ctx.prove(p, eq(got, spec[p]) if got is not None else Not(truthy(spec[p])), repr(got))
        ctx.prove('property URL', eq(col.propertyUrl.uri, spec['rdfType']))


for _t in sorted(TYPES) + ['any']:
    for _cs in (['required'], ['required', 'minLength', 'maxLength'], ['minimum', 'maximum'], ['maximum'], ['minLength']):
        _described(_t, _cs)


# ------------------------------------------------------------------ keys
class Paths:
    """resource name -> path"""
    __pv_symbolic__ = True

    def __getitem__(self, k):
        return SVal(V.S(uf('path_of', V, INT)(lift(k))))

    def __iter__(self):
        raise TypeError('the resources are not known here')

    def get(self, k, default=None):
        return self[k]

    def __contains__(self, k):
        return True


@harness('convert_foreignKey')
def foreign_key(ctx):
    fields, rfields = fresh_val('fields'), fresh_val('rfields')
    res, name = inp('resource', text()), inp('name', text())
    fk = VDict(fields=fields, reference=VDict(resource=res, fields=rfields))
    k, d = run(F.convert_foreignKey, name, fk, Paths())
    ctx.prove('converting does not fail', BoolVal(k == 'ok'), repr(d))
    if k == 'ok':
        ctx.prove('the fields', eq(d['columnReference'], fields))
        ctx.prove('the fields referenced', eq(d['reference']['columnReference'], rfields))
        target = SVal(If(res.t == lit(''), name.t, res.t))
        ctx.prove('the path of the resource, or of the table itself', eq(d['reference']['resource'], Paths()[target]))
        ctx.prove('nothing else', BoolVal(sorted(d.keys()) == ['columnReference', 'reference'] and sorted(d['reference'].keys()) == ['columnReference', 'resource']))


def column_contract(spec):
    return SVal(uf('column_of', V, V)(lift(spec)))


def fk_contract(name, fk, m):
    assert isinstance(m, Paths)
    return SVal(uf('fk_of', V, V, V)(lift(name), lift(fk)))


@harness('convert_table_schema', contracts={'csvw.frictionless.convert_column_spec': column_contract, 'csvw.frictionless.convert_foreignKey': fk_contract})
def table_schema(ctx):
    """any number of fields and foreign keys"""
    f, g = uf(ctx.fresh('field'), INT, V), uf(ctx.fresh('fk'), INT, V)
    fields, fks = fresh_seq('fields', lambda i: SVal(f(i))), fresh_seq('fks', lambda i: SVal(g(i)))
    name = text()
    s = VDict(fields=VList(base=fields))
    has = {p: bool(ctx.choose(2)) for p in ('missingValues', 'primaryKey', 'foreignKeys', 'other')}
    for p in ('missingValues', 'primaryKey', 'other'):
        if has[p]:
            s[p] = fresh_val(p) if p != 'primaryKey' else text() if ctx.choose(2) else VList([text(), text()])
    if has['foreignKeys']:
        s['foreignKeys'] = VList(base=fks)
    k, d = run(F.convert_table_schema, name, s, Paths())
    ctx.prove('converting does not fail', BoolVal(k == 'ok'), repr(d))
    if k != 'ok':
        return
    i = Int('qi')
    cols = seq_of(d['columns'])
    ctx.prove('all fields, in order', And(cols.n == fields.n, ForAll([i], Implies(And(0 <= i, i < fields.n), lift(cols.get(i)) == lift(column_contract(SVal(f(i))))))))
    if has['primaryKey'] and 'primaryKey' not in d.keys():
        ctx.prove('primaryKey is kept', Not(truthy(s['primaryKey'])) if isinstance(s['primaryKey'], SVal) else BoolVal(False))
        has['primaryKey'] = False
    for p, q in (('missingValues', 'null'), ('primaryKey', 'primaryKey')):
        ctx.prove('{} is kept'.format(p), BoolVal(False) if (q in d.keys()) != has[p] else eq(d[q], s[p]) if has[p] else BoolVal(True))
    got = seq_of(d['foreignKeys']) if 'foreignKeys' in d.keys() and d['foreignKeys'] is not None else None
    if not has['foreignKeys'] or got is None:
        ctx.prove('foreign keys or none', (fks if has['foreignKeys'] else got).n == 0 if has['foreignKeys'] or got is not None else BoolVal(True))
    else:
        ctx.prove('all foreign keys, in order', And(got.n == fks.n, ForAll([i], Implies(And(0 <= i, i < fks.n), lift(got.get(i)) == lift(fk_contract(name, SVal(g(i)), Paths()))))))


# ------------------------------------------------------------------ dialect
DIALECT = {'delimiter': 'delimiter', 'quoteChar': 'quoteChar', 'doubleQuote': 'doubleQuote', 'skipInitialSpace': 'skipInitialSpace', 'header': 'header', 'commentChar': 'commentPrefix'}


def _dialect(props, nested):
    @harness('convert_dialect: {}{}'.format(' '.join(props), ', ' + nested if nested else ''))
    def h(ctx):
        rsc = VDict(name='x')
        given, d = {}, VDict()
        inner = d if nested != 'in csv' else VDict()
        for p in props:
            if not ctx.choose(2):
                continue
            v = given[p] = inp(p, bool(ctx.choose(2)) if p in ('doubleQuote', 'skipInitialSpace', 'header') else text())
            if p == 'delimiter':
                ctx.assume(truthy(v))
            (d if p in ('header', 'commentChar') else inner)[p] = v
        if inner is not d:
            d['csv'] = inner
        if given or ctx.choose(2):
            rsc['dialect'] = d
        enc = ctx.choose(2)
        if enc:
            rsc['encoding'] = text()
            ctx.assume(truthy(rsc['encoding']))
        k, r = run(F.convert_dialect, rsc)
        ctx.prove('converting does not fail', BoolVal(k == 'ok'), repr(r))
        if k != 'ok':
            return
        keys = list(r.keys())
        for p in DIALECT:
            q = DIALECT[p]
            if p in given:
                ctx.prove('{} is kept'.format(p), (BoolVal(r[q] is given[p]) if isinstance(given[p], bool) else eq(r[q], given[p])) if q in keys else BoolVal(False), repr(r))
            else:
                ctx.prove('no other {}'.format(q), BoolVal(q not in keys), repr(r))
        ctx.prove('the encoding', BoolVal(not enc and 'encoding' not in keys) if not enc or 'encoding' not in keys else eq(r['encoding'], rsc['encoding']))


_dialect(list(DIALECT), '')
_dialect(list(DIALECT), 'in csv')


# ------------------------------------------------------------------ packages
class Schema_:
    __pv_symbolic__ = True

    def __init__(self, name, schema, paths):
        self.name, self.schema, self.paths = name, schema, paths


class Dialect_:
    __pv_symbolic__ = True

    def __init__(self, rsc):
        self.rsc = rsc


class Group:
    pass


class Cls:
    @classmethod
    def fromvalue(cls, md):
        Ctx.cur.md = md
        return Group()


def _package(n):
    @harness('DataPackage.to_tablegroup: {} resources'.format(n), kind='shape', bound='{} resources of any name, path, kind'.format(n), contracts={
        'csvw.frictionless.convert_table_schema': lambda *a: Schema_(*a), 'csvw.frictionless.convert_dialect': lambda rsc: Dialect_(rsc), 'json.dumps': lambda *a, **k: 'json'})
    def h(ctx):
        rs, want = [], []
        for i in range(n):
            r = VDict(name=inp('name%d' % i, text()))
            ctx.assume(truthy(r['name']))
            for o in rs:
                ctx.assume(o['name'].t != r['name'].t)
            if i == 0 or ctx.choose(2):
                r['path'] = inp('path%d' % i, text())
            if ctx.choose(2):
                r['schema'] = VDict(fields=[])
            if i == 0 and n < 3:
                if ctx.choose(2):
                    r['scheme'] = inp('scheme', text())
                if ctx.choose(2):
                    r['format'] = inp('format', text())
            else:
                r['scheme'], r['format'] = 'file', 'csv'
            rs.append(r)
        k, p = run(F.DataPackage, VDict(resources=rs))
        ctx.prove('making a package does not fail', BoolVal(k == 'ok'), repr(p))
        k, tg = meth(p, 'to_tablegroup', Cls)
        ctx.prove('converting does not fail', BoolVal(k == 'ok'), repr(tg))
        if k != 'ok':
            return
        for r in rs:
            keys = list(r.keys())
            if {'path', 'schema', 'scheme', 'format'} <= set(keys) and ctx.branch(And(lift(r['scheme']) == lit('file'), lift(r['format']) == lit('csv'))):
                want.append(r)
        got = list(ctx.md['tables']) if 'tables' in ctx.md.keys() else []
        ctx.prove('one table for each CSV resource with a schema', BoolVal(len(got) == len(want)), repr((got, want)))
        for t, r in zip(got, want):
            ctx.prove('in order, with its path', eq(t['url'], r['path']))
            s = t['tableSchema']
            ctx.prove('its schema', And(BoolVal(isinstance(s, Schema_) and s.schema is r['schema']), eq(s.name, r['name'])))
            ctx.prove('its dialect', BoolVal(isinstance(t['dialect'], Dialect_) and t['dialect'].rsc is r))
            for o in rs:
                if 'path' in o.keys():
                    ctx.prove('the path of every resource is known', eq(RT.getitem(s.paths, o['name']), o['path']))
        ctx.prove('relative to the directory of the package', BoolVal(tg._fname == pathlib.Path('.') / 'csvw-metadata.json'), repr(tg._fname))


for _n in range(4):
    _package(_n)


@harness('DataPackage', contracts={'json.loads': lambda s, **k: VDict(parsed=s)})
def data_package(ctx):
    """the object, from an object, a text, or another package"""
    how = ctx.choose(3)
    if how == 0:
        k, p = run(F.DataPackage, VDict(name='x'), pathlib.Path('d'))
        ctx.prove('an object', And(BoolVal(k == 'ok'), eq(p.json, VDict(name='x')), BoolVal(p.dir == pathlib.Path('d'))))
    elif how == 1:
        t = text()
        k, p = run(F.DataPackage, t)
        ctx.prove('a text', And(BoolVal(k == 'ok'), eq(p.json, VDict(parsed=t)), BoolVal(p.dir == pathlib.Path('.'))))
    else:
        k, p = run(F.DataPackage, VDict(name='x'), 'd')
        k, q = run(F.DataPackage, p)
        ctx.prove('a package', And(BoolVal(k == 'ok' and q.dir == p.dir), eq(q.json, p.json)))
