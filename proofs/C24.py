"""C24: property values of the wrong type never survive loading."""
import attr

from pv.h import *
import csvw.utils as U
import csvw.metadata as M
import csvw.dsv_dialects as DD
import csvw.datatypes as D

HARNESSES, harness = registry()

ASSUMPTIONS = [
    'the generated attrs constructor passes every argument through its converter (executed as is)',
    'language_tags.tags.check decides whether a value is a language tag (library); str.encode raises LookupError '
    'exactly for unknown codecs (library)',
    'JSON values: null, booleans, numbers, texts, arrays (of any length, of any values) and objects',
]

known_codec = uf('known_codec', V, BOOL)
lang_tag = uf('lang_tag', V, BOOL)


def encode_contract(s, enc='utf-8', errors='strict'):
    Ctx.cur.assume(And(known_codec(lit('utf-8-sig')), known_codec(lit('utf-8'))))
    if not bool(sbool(known_codec(lift(enc)))):
        raise LookupError('contract: unknown encoding')
    return fresh_obj(bytes, 'b')


def check_contract(v):
    Ctx.cur.assume(lang_tag(lit('und')))
    return sbool(lang_tag(lift(v)))


C = {'builtins.str.encode': encode_contract, 'language_tags.tags.tags.check': check_contract}

KINDS = ['null', 'true', 'false', 'int', 'float', 'text', 'array', 'object']


def value_of(kind):
    """an arbitrary JSON value of a kind"""
    if kind == 'null':
        return None
    if kind in ('true', 'false'):
        return kind == 'true'
    if kind == 'int':
        return fresh_int('v')
    if kind == 'float':
        return fresh_obj(float, 'v')
    if kind == 'text':
        return fresh_str('v')
    if kind == 'object':
        return fresh_obj(dict, 'v')
    x = uf(Ctx.cur.fresh('item'), INT, V)
    s = fresh_seq('v', lambda i: SVal(x(i)))
    Ctx.cur.item = x
    return VList(base=s)


# the value sets, independently of the code: kind -> condition on the value
T = BoolVal(True)
F = BoolVal(False)


def boolean(k, v):
    return BoolVal(k in ('true', 'false'))


def natural(k, v):
    return it(v) >= 0 if k == 'int' else F


def text(k, v):
    return BoolVal(k == 'text')


def opt(f):
    return lambda k, v: T if k == 'null' else f(k, v)


def among(*words):
    return lambda k, v: Or(*[lift(v) == lit(w) for w in words]) if k == 'text' else F


def codec(k, v):
    return Or(known_codec(lift(v)), lift(v) == lit('UTF-8-BOM')) if k == 'text' else F


def terminators(k, v):
    if k == 'array':
        i = Int('qt')
        return ForAll([i], Implies(And(0 <= i, i < v.base.n), V.is_S(Ctx.cur.item(i))))
    return text(k, v)


def trim(k, v):
    return T if k in ('true', 'false') else among('true', 'false', 'start', 'end')(k, v)


def language(k, v):
    return lang_tag(lift(v)) if k == 'text' else F


SPEC = [
    # class, property, default, condition
    (M.Dialect, 'encoding', 'utf-8', codec),
    (M.Dialect, 'lineTerminators', ['\r\n', '\n'], terminators),
    (M.Dialect, 'quoteChar', '"', opt(text)),
    (M.Dialect, 'doubleQuote', True, boolean),
    (M.Dialect, 'skipRows', 0, natural),
    (M.Dialect, 'commentPrefix', None, opt(text)),
    (DD.Dialect, 'commentPrefix', '#', opt(text)),
    (M.Dialect, 'header', True, boolean),
    (M.Dialect, 'headerRowCount', 1, natural),
    (M.Dialect, 'delimiter', ',', text),
    (M.Dialect, 'skipColumns', 0, natural),
    (M.Dialect, 'skipBlankRows', False, boolean),
    (M.Dialect, 'skipInitialSpace', False, boolean),
    (M.Dialect, 'trim', 'false', trim),
    (M.Column, 'default', '', text),
    (M.Column, 'lang', 'und', language),
    (M.Column, 'ordered', False, opt(boolean)),
    (M.Column, 'separator', None, opt(text)),
    (M.Column, 'textDirection', None, opt(among('ltr', 'rtl', 'auto', 'inherit'))),
    (M.Column, 'name', None, opt(text)),
    (M.Column, 'suppressOutput', False, boolean),
    (M.Column, 'virtual', False, boolean),
    (M.Table, 'tableDirection', 'auto', among('ltr', 'rtl', 'auto')),
    (M.Table, 'suppressOutput', False, boolean),
    (M.TableGroup, 'tableDirection', 'auto', among('ltr', 'rtl', 'auto')),
    (M.Schema, 'lang', 'und', language),
    (M.Schema, 'separator', None, opt(text)),
    (M.Datatype, 'base', 'string', among(*D.DATATYPES)),
]


def same(kept, v, k):
    if k == 'array':
        a, b = seq_of(kept), seq_of(v)
        i = Int('qs')
        return And(a.n == b.n, ForAll([i], Implies(And(0 <= i, i < b.n), lift(a.get(i)) == lift(b.get(i)))))
    return And(eq(kept, v), BoolVal(isinstance(kept, bool) == (k in ('true', 'false'))))


def _mk(cls, prop, default, cond, kind):
    @harness('{}.{}[{}]'.format(cls.__name__, prop, kind), contracts=C)
    def h(ctx):
        ctx.roots['warnings'] = VList()
        v = inp('value', value_of(kind))
        if kind != 'text':
            ctx.assume(Not(lang_tag(lift(v))))
        kw = {prop: v}
        if cls is M.Table:
            kw['url'] = 'x'
        out = run(cls, **kw)
        ok = cond(kind, v)
        ctx.prove('loading does not fail', BoolVal(out[0] == 'ok'), repr(out[1]))
        if out[0] != 'ok':
            return
        w = len(list(ctx.roots['warnings']))
        got = getattr(out[1], prop)
        keep = v
        if prop == 'trim' and kind in ('true', 'false'):
            keep = kind
        if w:
            ctx.prove('a warning is issued for wrong values only', Not(ok))
            ctx.prove('the default is kept', And(BoolVal(got == default), BoolVal(type(got) is type(default)))
                      if not isinstance(got, (Proxy, VList)) else eq(got, default), repr(got))
        else:
            ctx.prove('no warning for valid values only', ok)
            ctx.prove('a valid value is kept unchanged', eq(got, keep) if prop == 'trim' else same(got, v, kind), repr(got))


for _c, _p, _d, _f in SPEC:
    for _k in KINDS:
        _mk(_c, _p, _d, _f, _k)


# ------------------------------------------------------------------ list values: the valid items survive, in order
class Holder:
    pass


H = Holder()


def of_dict(cls, v):
    """Description.fromvalue: a description determined by class and dict"""
    return SVal(uf('description_' + cls.__name__, V, V)(lift(v)))


def is_dict(t):
    return And(V.is_O(t), V.otag(t) == values.tag(dict))


def items(ctx, hooks=()):
    """an array of arbitrary JSON values"""
    x = uf(ctx.fresh('item'), INT, V)

    def item(i):
        ctx.fact(Implies(V.is_O(x(i)), Or(is_dict(x(i)), V.otag(x(i)) == values.tag(float))))
        ctx.fact(Not(uf('inst_Table', V, BOOL)(x(i))))      # JSON values are no tables
        return SVal(x(i))
    s = fresh_seq('v', item)
    s.hooks = tuple(hooks)
    return x, s


def field(cls, name):
    return attr.fields_dict(cls)[name].converter


def elem_warned(ctx, x, n):
    """some warning is issued for item k (a fresh Skolem index) iff it is no object"""
    k = Int(ctx.fresh('k'))
    return k, Or(BoolVal(False), *[z3.substitute(And(dom, c), (i, k)) for i, dom, c in ctx.elem_warns])


FV = 'csvw.metadata.DescriptionBase.fromvalue'


@harness('Schema.columns: items', contracts={FV: of_dict})
def columns(ctx):
    ctx.roots['warnings'] = VList()
    ctx.elem_warns = []
    x, s = items(ctx)
    k, r = run(field(M.Schema, 'columns'), VList(base=s))
    ctx.prove('loading does not fail', BoolVal(k == 'ok'), repr(r))
    if k == 'ok':
        want = rt.SFilter(s.n, lambda i: is_dict(x(i)), lambda i: of_dict(M.Column, SVal(x(i))))
        ctx.prove('exactly the objects become columns, in order', eq(r, want))
        j, w = elem_warned(ctx, x, s.n)
        ctx.prove('a warning for every other item, and only for them',
                  Implies(And(0 <= j, j < s.n), w == Not(is_dict(x(j)))))


class G:
    pass


def counted(ctx):
    """ghost counters of wrong items and of warnings, ghost list of the wanted result"""
    g = G()
    g.bad = g.warned = 0
    g.want = VList()
    ctx.roots['g'] = g
    H.g = g

    def warn(msg):
        if ctx.nested and ctx.elem_warns is not None:
            return type(ctx).on_warn(ctx, msg)
        g.warned = SInt.of(it(g.warned) + 1)
    ctx.on_warn = warn
    return g


@harness('TableGroup.tables: items', contracts={FV: of_dict})
def tables(ctx):
    g = counted(ctx)

    def hook(v, st):
        if ctx.branch(is_dict(v.t)):
            RT.meth(g.want, 'append', of_dict(M.Table, v))
        else:
            g.bad = SInt.of(it(g.bad) + 1)
    x, s = items(ctx, [hook])
    k, r = run(field(M.TableGroup, 'tables'), s)
    ctx.prove('loading does not fail', BoolVal(k == 'ok'), repr(r))
    if k == 'ok':
        ctx.prove('exactly the objects become tables, in order', eq(r, g.want))
        ctx.prove('a warning for every other item', it(g.warned) == it(g.bad))


def fk_contract(cls, d):
    ctx, g = Ctx.cur, H.g
    if ctx.choose(2):
        g.wrong = SInt.of(it(g.wrong) + 1)
        g.calls = SInt.of(it(g.calls) + 1)
        raise TypeError('contract: no foreign key')
    g.calls = SInt.of(it(g.calls) + 1)
    r = of_dict(cls, d)
    RT.meth(g.want, 'append', r)
    return r


class CountTemplate:
    def instances(self, kinds):
        return [('IT.pos', 'G:g.calls')] if 'IT.pos' in kinds and 'G:g.calls' in kinds else []

    def formula(self, entry, now, p, q):
        return it(now[q]) == H.count(it(now[p]))


@harness('Schema.foreignKeys: items', contracts={'csvw.metadata.ForeignKey.fromdict': fk_contract})
def foreign_keys(ctx):
    g = counted(ctx)
    g.calls = g.wrong = 0
    ctx.elem_warns = []
    ctx.templates.append(CountTemplate())
    x, s = items(ctx)
    H.count = f = uf(ctx.fresh('count'), INT, INT)
    i = Int('qc')
    ctx.assume(And(f(0) == 0, ForAll([i], Implies(i >= 0, f(i + 1) == f(i) + If(is_dict(x(i)), 1, 0)))))
    k, r = run(field(M.Schema, 'foreignKeys'), VList(base=s))
    ctx.prove('loading does not fail', BoolVal(k == 'ok'), repr(r))
    if k == 'ok':
        j, w = elem_warned(ctx, x, s.n)
        ctx.prove('a warning for every other item, and only for them',
                  Implies(And(0 <= j, j < s.n), w == Not(is_dict(x(j)))))
        ctx.prove('a warning for every object that is no foreign key', it(g.warned) == it(g.wrong))
        ctx.prove('every object is considered', it(g.calls) == f(s.n))
        ctx.prove('exactly the foreign keys are kept, in order', eq(r, g.want))


@harness('transformations')
def transformations(ctx):
    g = counted(ctx)
    kind = KINDS[ctx.choose(len(KINDS))]
    v = value_of(kind)
    k, r = run(field(M.Table, 'transformations'), v)
    ctx.prove('loading does not fail', BoolVal(k == 'ok'), repr(r))
    if k == 'ok':
        if kind == 'array':
            ctx.prove('an array is kept', And(same(r, v, kind), it(g.warned) == 0))
        else:
            ctx.prove('the default is kept, with a warning', And(eq(r, []), it(g.warned) > 0))


@harness('null')
def null(ctx):
    g = counted(ctx)
    kind = KINDS[ctx.choose(len(KINDS))]
    v = value_of(kind)
    k, c = run(M.Column, null=v)
    ctx.prove('loading does not fail', BoolVal(k == 'ok'), repr(c))
    if k != 'ok':
        return
    r = c.null
    ok = terminators(kind, v) if kind != 'null' else T
    if ctx.branch(ok):
        ctx.cover('valid')
        want = VList() if kind == 'null' else VList([v]) if kind == 'text' else v
        ctx.prove('valid values are kept', And(eq(r, want) if kind != 'array' else same(r, want, kind), it(g.warned) == 0))
    else:
        ctx.cover('wrong')
        ctx.prove('the default is kept, with a warning', And(eq(r, ['']), it(g.warned) > 0))


@harness('titles')
def titles(ctx):
    g = counted(ctx)
    kind = (KINDS[:-1])[ctx.choose(len(KINDS) - 1)]
    v = value_of(kind)
    k, c = run(M.Column, titles=v)
    ctx.prove('loading does not fail', BoolVal(k == 'ok'), repr(c))
    if k != 'ok':
        return
    r = c.titles
    if kind in ('null', 'true', 'false', 'int', 'float'):
        ctx.prove('no titles', BoolVal(r is None))
        ctx.prove('a warning', (it(g.warned) > 0) == BoolVal(kind != 'null'))
    elif kind == 'text':
        ctx.prove('a title', And(eq(RT.getitem(r, None), VList([v])), it(g.warned) == 0))
    elif ctx.branch(terminators(kind, v)):
        ctx.prove('the titles', And(same(RT.getitem(r, None), v, kind), it(g.warned) == 0))
    else:
        ctx.prove('no titles', BoolVal(not list(r.keys())))
        ctx.prove('a warning', it(g.warned) > 0)


# ------------------------------------------------------------------ which properties are kept
def common_contract(v):
    if Ctx.cur.choose(2):
        raise ValueError('contract: invalid common property')
    return SVal(uf('common', V, V)(lift(v)))


KEYS = ['@id', '@type', '@context', 'dc:title', 'name', 'title', 'columns', 'Name', 'x:', 'nam']


def _pp(cls, k1, k2, strict):
    @harness('{}.partition_properties[{} {}{}]'.format(cls.__name__, k1, k2, '' if strict else ' lenient'), contracts={
        'csvw.metadata.valid_common_property': common_contract}, kind='shape', bound='two properties with any values')
    def h(ctx):
        g = counted(ctx)
        d = VDict()
        want = {'common_props': {}, 'at_props': {}}
        bad, dropped, noid = [], 0, []
        for k in (k1, k2):
            v = inp(k, fresh_val('v'))
            ctx.assume(Not(V.is_L(v.t)))
            d[k] = v
            if k == '@type':
                bad.append(v.t != lit(cls.__name__))
            if k == '@id':
                bad.append(And(V.is_S(v.t), bt(RT.meth(SVal(V.S(V.s(v.t))), 'startswith', '_'))))
                noid.append(Not(V.is_S(v.t)))
                want['at_props']['id'] = SVal(If(V.is_S(v.t), v.t, V.none))
            elif k[0] == '@':
                want['at_props'][k[1:]] = v
            elif ':' in k:
                want['common_props'][k] = SVal(uf('common', V, V)(v.t))
            elif k in attr.fields_dict(cls) or not strict:
                want[k] = v
            else:
                dropped += 1
        out = run(cls.partition_properties, d, **({} if strict else {'strict': False}))
        if from_contract(out):
            return
        b = Or(BoolVal(False), *bad)
        if out[0] == 'exc':
            ctx.prove('only ValueError is raised', BoolVal(isinstance(out[1], ValueError)), repr(out[1]))
            ctx.prove('only for an invalid @type or @id', b)
            return
        ctx.prove('an invalid @type or @id raises ValueError', Not(b))
        r = out[1]
        ctx.prove('the properties kept', BoolVal(set(r) == set(want)), repr(r))
        if set(r) == set(want):
            for k in want:
                ctx.prove('the value of ' + k, eq(r[k], VDict(want[k]) if isinstance(want[k], dict) else want[k]), repr((r[k], want[k])))
        ctx.prove('every dropped property is warned about, no other', it(g.warned) == dropped + sum(
            [If(f, 1, 0) for f in noid]))


for _c in (M.Column, M.Schema):
    for _k1 in KEYS:
        for _k2 in KEYS:
            if _k1 < _k2:
                _pp(_c, _k1, _k2, True)
_pp(M.Description, 'x', 'dc:title', False)


@harness('dialect_props')
def dialect(ctx):
    """unknown properties of a dialect are dropped with a warning"""
    g = counted(ctx)
    kind = (KINDS)[ctx.choose(len(KINDS) - 1)]
    v = value_of(kind)
    k, r = run(M.dialect_props, v)
    ctx.prove('no object, no properties, a warning', And(BoolVal(k == 'ok' and len(r) == 0), it(g.warned) > 0))
    g.warned = 0
    x, y = fresh_val('x'), fresh_val('y')
    d = VDict()
    d['delimiter'], d['unknown'] = x, y
    k, r = run(M.dialect_props, d)
    ctx.prove('only known properties are kept', BoolVal(k == 'ok' and list(r) == ['delimiter']), repr(r))
    ctx.prove('a warning for the other', it(g.warned) == 1)
    if k == 'ok' and 'delimiter' in r:
        ctx.prove('the value is kept', eq(r['delimiter'], x))


# ------------------------------------------------------------------ common properties
def tags_check(tag):
    return sbool(uf('is_language_tag', INT, BOOL)(V.s(lift(tag))))


TYPE_VALUES = [('_:x', 'blank node'), ('http://example.org/T', ''), ('dc', ''), ('dc:T', ''), ('Table', ''), ('nope', 'no type'),
               ('xx:T', 'no type'), (5, 'no type'), (None, 'no type'), (True, 'no type'), (['Table', 'x'], ''), ({'dc:x': 1}, '')]
AT = ['@value', '@language', '@type', '@id', '@context', 'dc:x']


def common_value(ctx, what):
    """a scalar of any kind or a container; (value, is a text, number or boolean)"""
    n = ctx.choose(7)
    v = [lambda: fresh_str(what), lambda: fresh_int(what), lambda: fresh_bool(what), lambda: 1.5, lambda: None, lambda: VList(['a']),
         lambda: VDict({'dc:y': 'z'})][n]()
    return inp(what, v), n < 4


def _common(keys):
    @harness('common properties with {}'.format(' '.join(keys) or 'nothing'), kind='shape', bound='keys of AT, @type of TYPE_VALUES',
             contracts={rt.qualname(M.tags.check): tags_check})
    def h(ctx):
        g = counted(ctx)
        d, want, bad, warned = VDict(), {}, [], []
        for k in keys:
            if k == '@type':
                v, fault = TYPE_VALUES[ctx.choose(len(TYPE_VALUES))]
                bad.append(BoolVal(bool(fault)))
            elif k == '@value':
                v, scalar = common_value(ctx, 'value')
                if len(keys) > 1:
                    bad.append(BoolVal(not scalar))
            elif k == '@language':
                v = [lambda: inp('language', fresh_str('language')), lambda: 5, lambda: None][ctx.choose(3)]()
                ok = bt(tags_check(v)) if isinstance(v, SVal) else BoolVal(False)
                warned.append(Not(ok))
            elif k == '@id':
                v = inp('id', fresh_str('id'))
                bad.append(bt(RT.meth(v, 'startswith', '_')))
            else:
                v, _ = common_value(ctx, 'other')
            d[k] = want[k] = v
        if '@context' in keys:
            bad.append(BoolVal(True))
        if '@value' in keys and set(keys) not in ({'@value'}, {'@value', '@language'}, {'@value', '@type'}):
            bad.append(BoolVal(True))
        if '@language' in keys and '@value' not in keys:
            bad.append(BoolVal(True))
        nested = ctx.choose(5)          # directly, in a list, in an object, deeper
        k, r = run(M.valid_common_property, [d, VList([d, 'x']), VDict({'dc:z': d}), VList([VList(['y', d])]), VDict({'dc:z': VList([d])})][nested])
        b = Or(BoolVal(False), *bad)
        if k == 'exc':
            ctx.cover('refused')
            ctx.prove('ValueError for invalid objects only', And(BoolVal(isinstance(r, ValueError)), b), repr(r))
            return
        ctx.cover('accepted')
        ctx.prove('invalid objects are refused', Not(b))
        if nested == 1:
            ctx.prove('the other items', BoolVal(len(r) == 2 and r[1] == 'x'))
            r = r[0]
        elif nested == 3:
            ctx.prove('the lists', BoolVal(len(r) == 1 and len(r[0]) == 2 and r[0][0] == 'y'))
            r = r[0][1]
        elif nested:
            ctx.prove('no other key', BoolVal(list(r) == ['dc:z']))
            r = r['dc:z'] if nested == 2 else r['dc:z'][0]
        has = set(r)
        for x in keys:
            if x == '@language':
                ctx.prove('an invalid language is dropped', Or(*warned) == BoolVal(x not in has))
            else:
                ctx.prove('{} is kept'.format(x), BoolVal(x in has))
            if x in has:
                ctx.prove('{} is kept unchanged'.format(x), BoolVal(r[x] == want[x]) if not isinstance(r[x], (SVal, SInt, SBool)) else BoolVal(r[x] is want[x]) if not isinstance(
                    r[x], SVal) else lift(r[x]) == lift(want[x]))
        ctx.prove('nothing is added', BoolVal(has <= set(keys)))
        ctx.prove('a warning if and only if something is dropped', (it(g.warned) > 0) == Or(BoolVal(False), *warned))


if hasattr(M, 'valid_common_property'):
    for _keys in ([], ['dc:x'], ['@value'], ['@value', '@language'], ['@value', '@type'], ['@value', 'dc:x'], ['@value', '@id'], ['@language'], ['@type'],
                  ['@id', 'dc:x'], ['@value', '@language', '@type'], ['@context'], ['@type', '@id'], ['dc:x', '@language']):
        _common(_keys)
