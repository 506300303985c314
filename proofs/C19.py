"""C19: CSV to JSON conversion reports every row and non-null cell once."""
import math
import inspect
import datetime
import decimal
import pathlib

import rdflib
from rfc3986 import URIReference
from isodate.duration import Duration

import csvw.jsonld as J
import csvw.metadata as M

import z3
from pv.h import *
from pv import text as tx
from pv.text import SText, text, chars_of, test
from pv.htext import HText, View, htext, same_char, tr
from proofs import C22

HARNESSES, harness = registry(unroll=10)

ASSUMPTIONS = [
    'isoformat of a datetime gives date, T, time, the microseconds if there are any, and the offset +-HH:MM (C22)',
    'rdflib: the JSON-LD of a graph has one object per subject, with each different triple once; literals keep strings, numbers and booleans',
    'json.loads is the inverse of json.dumps for JSON values',
    'property names do not start with "@"; URI templates are expanded as in RFC 6570, links resolved as in C16',
]


# ------------------------------------------------------------------ values
class DT(C22.DT):
    __pv_class__ = datetime.datetime


class Uri:
    __pv_model__ = __pv_symbolic__ = True
    __pv_class__ = URIReference

    def __init__(self):
        self.text = fresh_str('uri')

    def unsplit(self):
        return self.text


class Opaque:
    """a value that the datatype formats"""
    __pv_model__ = __pv_symbolic__ = True

    def __init__(self):
        self.text = fresh_str('formatted')


class Delta(Opaque):
    __pv_class__ = datetime.timedelta


class Dur(Opaque):
    __pv_class__ = Duration


class Bytes(Opaque):
    __pv_class__ = bytes


class Dec(Opaque):
    __pv_class__ = decimal.Decimal


class Float:
    """a double: nan, inf, -inf or a number"""
    __pv_model__ = __pv_symbolic__ = True
    __pv_class__ = float

    def __init__(self, kind=None, of=None):
        self.kind, self.of = kind or ['number', 'nan', 'inf', '-inf'][Ctx.cur.choose(4)], of
        self.negative = BoolVal(self.kind == '-inf') if self.kind != 'number' else bt(fresh_bool('negative'))

    def __lt__(self, other):
        if other != 0:
            raise Unsupported('comparison of a double')
        return sbool(self.negative) if self.kind != 'nan' else False

    def __gt__(self, other):
        if other != 0 or self.kind == 'number':
            raise Unsupported('comparison of a double')
        return self.kind == 'inf'

    def __eq__(self, other):
        if isinstance(other, float) and not isinstance(other, Float):
            return self.kind in ('inf', '-inf') and other == float(self.kind)
        if other is self:
            return self.kind != 'nan'
        raise Unsupported('comparison of a double')

    def __ne__(self, other):
        return not self == other

    __hash__ = object.__hash__


class Datatype:
    __pv_model__ = True

    def __init__(self, base):
        self.base = base

    def formatted(self, v):
        return v.text if isinstance(v, Opaque) else fresh_str('formatted')


class Col:
    __pv_model__ = True

    def __init__(self, datatype, **kw):
        self.datatype = datatype
        self.__dict__.update(kw)

    def inherit(self, name):
        if name != 'datatype':
            raise Unsupported('inherit ' + name)
        return self.datatype


def to_float(x):
    if isinstance(x, Dec):
        return Float(of=x, kind='number')
    return x if isinstance(x, Float) else NotImplemented


FV = {
    'builtin:float': to_float, 'builtins.float': to_float,
    'math.isnan': lambda x: x.kind == 'nan', 'math.isinf': lambda x: x.kind in ('inf', '-inf'), 'math.isfinite': lambda x: x.kind == 'number',
    'builtin:str': lambda x: x if not isinstance(x, Uri) else x.text,
}
STAMPS = ['dateTime', 'datetime', 'dateTimeStamp', 'date', 'time', None]


def fresh_dt(zoned):
    tz = None
    if zoned:
        tz = C22.TZ(it(fresh_int('zone')))
    d = C22.fresh_dt(tz)
    r = DT(*[getattr(d, f) for f in C22.FIELDS], tzinfo=tz)
    return r


def stamp(d, base):
    """the canonical form of a date, time or date and time"""
    date = C22.chars('{}-{}-{}', d.t(0, 4), d.t(1, 2), d.t(2, 2))
    time = C22.chars('{}:{}:{}', d.t(3, 2), d.t(4, 2), d.t(5, 2))
    us = it(d.microsecond)
    if test(us != 0):
        ds = tx.digits_of(us, 6)
        while ds and test(ds[-1] == 48):
            ds.pop()
        time += [46] + ds
    zone = []
    if d.tzinfo is not None:
        zone = [90] if test(d.tzinfo.minutes == 0) else C22.zone_text(d.tzinfo, 'xxx')
    return text({'date': date, 'time': time}.get(base, date + [84] + time) + zone)


for _base in STAMPS:
    for _zoned in (False, True):
        def _stamps(base=_base, zoned=_zoned):
            @harness('format_value: {}{}'.format(base or 'no datatype', ' with zone' if zoned else ''), contracts=FV)
            def h(ctx):
                d = fresh_dt(zoned)
                k, r = run(J.format_value, d, Col(Datatype(base)) if base else [None, Col(None)][ctx.choose(2)])
                ctx.prove('formatting does not fail', BoolVal(k == 'ok'), repr(r) if k == 'exc' else '')
                if k == 'ok':
                    ctx.prove('the value is in canonical form', eq(r, stamp(d, base)))
        _stamps()


def plain(ctx, kind):
    """(value, its JSON form)"""
    if kind == 'uri':
        v = Uri()
        return v, v.text
    if kind in ('timedelta', 'duration', 'bytes'):
        v = {'timedelta': Delta, 'duration': Dur, 'bytes': Bytes}[kind]()
        return v, v.text
    if kind == 'decimal':
        v = Dec()
        return v, v
    if kind == 'float':
        v = Float()
        return v, {'nan': 'NaN', 'inf': 'INF', '-inf': '-INF'}.get(v.kind, v)
    v = {'string': fresh_str, 'integer': fresh_int, 'boolean': fresh_bool, 'json': lambda n: SVal(uf('json_of', INT, V)(it(fresh_int(n)))), 'null': lambda n: None}[kind](kind)
    if kind == 'json':
        ctx.assume(Or(V.is_S(v.t), V.is_I(v.t), V.is_B(v.t), V.is_none(v.t)))
    return v, v


def same_value(r, want):
    if isinstance(want, Dec):
        return BoolVal(isinstance(r, Float) and r.of is want)
    if isinstance(want, Float) or isinstance(r, Float):
        return BoolVal(r is want)
    return lift(r) == lift(want)


KINDS = ['uri', 'timedelta', 'duration', 'bytes', 'decimal', 'float', 'string', 'integer', 'boolean', 'json', 'null']
for _kind in KINDS:
    def _plain(kind=_kind):
        @harness('format_value: {}'.format(kind), contracts=FV)
        def h(ctx):
            v, want = plain(ctx, kind)
            k, r = run(J.format_value, v, Col(Datatype(None)))
            ctx.prove('formatting does not fail', BoolVal(k == 'ok'), repr(r) if k == 'exc' else '')
            if k == 'ok':
                ctx.prove('the value is in JSON form', same_value(r, want))
    _plain()


@harness('format_value: lists', contracts=FV, kind='shape', bound='up to 3 items')
def _lists(ctx):
    pairs = [plain(ctx, KINDS[ctx.choose(len(KINDS) - 1)] if i == 0 else ['string', 'decimal', 'uri'][ctx.choose(3)]) for i in range(ctx.choose(4))]
    v = VList([p[0] for p in pairs])
    k, r = run(J.format_value, v, Col(Datatype(None)))
    ctx.prove('formatting does not fail', BoolVal(k == 'ok'), repr(r) if k == 'exc' else '')
    if k == 'ok':
        ctx.prove('the result is another list', BoolVal(isinstance(r, VList) and r is not v and len(r) == len(pairs)))
        ctx.prove('all items are in JSON form', And(*[same_value(x, w) for x, (_, w) in zip(r, pairs)]))
        ctx.prove('the value is left alone', BoolVal(len(v) == len(pairs) and all(a is b for a, (b, _) in zip(v, pairs))))


# ------------------------------------------------------------------ objects of a row
JSON = str(rdflib.RDF.JSON)


class Term:
    """a URI or a literal of a graph"""
    __pv_model__ = __pv_symbolic__ = True

    def __init__(self, kind, value, datatype=None, **kw):
        self.kind, self.value, self.datatype = kind, value, None if datatype is None else str(datatype)
        if kw:
            raise Unsupported('options of terms')

    def same(self, other):
        return self is other or (self.kind == other.kind and self.datatype == other.datatype and Ctx.cur.branch(lift(self.value) == lift(other.value)))

    def node(self):
        if self.kind == 'uri':
            return VDict({'@id': self.value})
        return VDict({'@value': self.value} if not self.datatype else {'@value': self.value, '@type': self.datatype})


class Document:
    __pv_model__ = __pv_symbolic__ = True

    def __init__(self, nodes):
        self.nodes = nodes


class Graph:
    """contract of rdflib.Graph: a set of triples, written with one object per subject"""
    __pv_model__ = True

    def __init__(self, *a, **kw):
        self.triples = []

    def add(self, triple):
        triple = tuple(triple)
        ctx = Ctx.cur
        ctx.prove('triples have URIs as subject and property', BoolVal(len(triple) == 3 and all(isinstance(t, Term) for t in triple) and triple[0].kind == triple[1].kind == 'uri'))
        if not any(all(x.same(y) for x, y in zip(t, triple)) for t in self.triples):
            self.triples.append(triple)
        return self

    def __iadd__(self, triples):
        for t in triples:
            self.add(t)
        return self

    def serialize(self, destination=None, format='turtle', **kw):
        if destination is not None or format != 'json-ld' or kw:
            raise Unsupported('serialize')
        subjects = []
        for s, p, o in self.triples:
            for t, props in subjects:
                if t.same(s):
                    break
            else:
                props = []
                subjects.append((s, props))
            for q, vs in props:
                if q.same(p):
                    vs.append(o)
                    break
            else:
                props.append((p, [o]))
        nodes = VList()
        for s, props in subjects:
            d = VDict({'@id': s.value})
            for p, vs in props:
                RT.dset(d, p.value, VList([v.node() for v in vs]))
            nodes.append(d)
        return Document(nodes)


def content(x):
    return [lift(i) for i in x] if isinstance(x, VList) else lift(x)


def dumps(x, **kw):
    """equal values have the same text"""
    ctx = Ctx.cur
    for y, t in ctx.dumped:
        a, b = content(x), content(y)
        if isinstance(a, list) != isinstance(b, list) or isinstance(a, list) and len(a) != len(b):
            continue
        if ctx.branch(And(*[i == j for i, j in zip(a, b)]) if isinstance(a, list) else a == b):
            return t
    t = fresh_str('json')
    for _, u in ctx.dumped:
        ctx.assume(t.t != u.t)
    ctx.dumped.append((VList(list(x)) if isinstance(x, VList) else x, t))
    return t


def loads(t, **kw):
    if isinstance(t, Document):
        return t.nodes
    for x, u in Ctx.cur.dumped:
        if u is t or z3.is_true(z3.simplify(lift(t) == lift(u))):
            return VList(list(x)) if isinstance(x, VList) else x
    raise Unsupported('json.loads of another text')


def is_url(s):
    if isinstance(s, SVal) and con_name(s.t) == 'S':
        return sbool(uf('is_url', V, BOOL)(s.t))
    return False


GT = {
    'rdflib.graph.Graph': Graph, 'rdflib.term.URIRef': lambda v, *a: Term('uri', v), 'rdflib.term.Literal': lambda v, *a, **kw: Term('literal', v, *a, **kw),
    'json.dumps': dumps, 'json.loads': loads, 'csvw.utils.is_url': is_url, 'csvw.jsonld.is_url': is_url,
}
RESERVED = ['@id', '@type', '@value', '@list', '@set', '@language', '@graph', '@context']


def name(base):
    """a property or subject"""
    s = fresh_str(base)
    Ctx.cur.assume(And(*[s.t != lit(r) for r in RESERVED + ['']]))
    return s


def a_value(ctx, kind, i):
    base = '{}{}'.format(kind, i)
    if kind in ('text', 'string', 'url'):
        v = fresh_str(base)
        if kind != 'text':
            ctx.assume(bt(is_url(v)) if kind == 'url' else Not(bt(is_url(v))))
        return v
    if kind == 'number':
        return fresh_int(base)
    if kind == 'truth':
        return fresh_bool(base)
    if kind == 'object':
        return fresh_obj(dict, base)
    return VList([fresh_str(base + c) for c in 'ab'[:1 + (ctx.choose(2) if i == 0 else 0)]])


def leaves(v):
    return [x for i in v for x in leaves(i)] if isinstance(v, (VList, list)) else [v]


def entries(d):
    return [(k, RT.getitem(d, k)) for k in RT.iterable(d)]


def known(k):
    """a key as a str if it is one of the reserved ones"""
    if isinstance(k, str):
        return k
    t = z3.simplify(lift(k))
    for r in RESERVED:
        if z3.is_true(z3.simplify(t == lit(r))):
            return r
    return k


def decode(ctx, objects):
    """(subject, property, value) of all objects, and the subjects"""
    out, ids = [], []

    def walk(o):
        es = [(known(k), v) for k, v in entries(o)]
        s = [v for k, v in es if k == '@id']
        s = s[0] if s else None
        if s is not None:
            ids.append(s)
        for k, v in es:
            if isinstance(k, str) and k == '@id':
                continue
            for x in leaves(v):
                p = 'rdf:type' if isinstance(k, str) and k == '@type' else k
                if isinstance(x, (VDict, dict)):
                    sub = [w for q, w in entries(x) if known(q) == '@id']
                    ctx.prove('inlined objects have a subject', BoolVal(bool(sub)))
                    out.append((s, p, sub[0]))
                    walk(x)
                else:
                    out.append((s, p, x))
    for o in objects:
        walk(o)
    return out, ids


def count(fact, facts):
    (s, p, v), n = fact, IntVal(0)
    for t, q, w in facts:
        if (s is None) == (t is None):
            n = n + If(And(BoolVal(True) if s is None else lift(s) == lift(t), lift(p) == lift(q), lift(v) == lift(w)), 1, 0)
    return n


def tree(o):
    """the subjects of an object and those nested in it, and of each of these alone"""
    own, nested = [], []
    for k, v in entries(o):
        if known(k) == '@id':
            own.append(v)
        else:
            for x in leaves(v):
                if isinstance(x, (VDict, dict)):
                    nested += tree(x)
    return own + nested


def judge_nesting(ctx, objects, refs):
    """refs: (subject, property, URL) of all cells with a subject whose value may be a URL; an object is nested exactly if there is one reference to it, but not in a circle"""
    def referred(s):
        hits = [And(bt(is_url(v)), lift(v) == lift(s)) for _, _, v in refs]
        return z3.Sum([If(And(h, *[Not(And(hits[j], lift(refs[j][0]) == lift(t), lift(refs[j][1]) == lift(p))) for j in range(i)]), 1, 0) for i, (h, (t, p, _)) in enumerate(zip(hits, refs))] + [IntVal(0)]), hits
    for o in objects:
        ids = tree(o)
        top = [v for k, v in entries(o) if known(k) == '@id']
        for s in ids[len(top):]:
            ctx.prove('nested objects are referred to from one place', referred(s)[0] == 1)
        for s in top:
            n, hits = referred(s)
            ctx.prove('objects which are referred to from one place are nested', Implies(n == 1, Or(*[And(h, Or(*[lift(t) == lift(i) for i in ids])) for h, (t, _, _) in zip(hits, refs)])))


def judge(ctx, objects, facts, refs):
    """the objects state the facts, each once"""
    objects = list(RT.iterable(objects))
    judge_nesting(ctx, objects, refs)
    got, ids = decode(ctx, objects)
    ctx.prove('no subject is described twice', And(*[lift(a) != lift(b) for i, a in enumerate(ids) for b in ids[:i]]))
    if len(objects) == 1 and ids and any(f[0] is None for f in facts) and not any(s is None for s, _, _ in got):
        s0 = [v for k, v in entries(objects[0]) if known(k) == '@id']
        ctx.prove('values without subject are in the only object', BoolVal(bool(s0)))
        facts = [(s0[0] if s is None else s, p, v) for s, p, v in facts]
    out = [(count(f, got), count(f, facts)) for f in got]
    ctx.prove('every value is reported', And(*[count(f, got) >= 1 for f in facts]))
    ctx.prove('only what is there is reported, each once', And(*[And(n <= m, m >= 1) for n, m in out]))
    ctx.prove('values without subject are reported as often as they are there', And(*[count(f, got) == count(f, facts) for f in facts if f[0] is None]))


def _groups(kinds, subject, abouts=None, first=None):
    @harness('group_triples: {}{}{}'.format(', '.join(kinds), ' in a row with a subject' if subject else '', ', with subjects: {} {}'.format(abouts, first) if abouts else ''), contracts=GT, kind='shape', bound='{} values'.format(len(kinds)))
    def h(ctx):
        ctx.dumped = []
        row = name('row') if subject else None
        triples, facts, refs = [], [], []
        if subject:
            triples.append(call(J.Triple, about=None, property='@id', value=row))
        for i, k in enumerate(kinds):
            about = name('about%d' % i) if (abouts[i] if abouts else ctx.choose(2)) else None
            if about is not None and first is not None and i == abouts.index(1):
                ctx.assume((about.t == row.t) == BoolVal(first))
            p, v = name('property%d' % i), a_value(ctx, k, i)
            facts += [(row if about is None else about, p, x) for x in leaves(v)]
            if k in ('url', 'text') and (subject or about is not None):
                refs.append((row if about is None else about, p, v))
            triples.append(call(J.Triple, about=about, property=p, value=v))
        k, r = run(J.group_triples, VList(triples))
        ctx.prove('grouping does not fail', BoolVal(k == 'ok'), repr(r) if k == 'exc' else '')
        if k == 'ok':
            judge(ctx, r, facts, refs)


THREE = [('url', 'url', 'url'), ('string', 'string', 'string'), ('list', 'list', 'list'), ('url', 'string', 'list'), ('string', 'list', 'url'), ('list', 'url', 'string')]
for _n, _k in enumerate(THREE):
    for _i in (6, 5, 3, 4, 2, 1, 0) if not _n else ((6, 5, 3)[_n % 3], (1, 2, 4)[_n % 3]):
        _ab = (_i & 1, _i >> 1 & 1, _i >> 2)
        if sum(_ab) == 2:
            _groups(_k, True, _ab, True)
            _groups(_k, True, _ab, False)
        else:
            _groups(_k, True, _ab)
        if _k == THREE[0]:
            _groups(_k, False, _ab)
    if _k == THREE[0]:
        _groups(_k, False, (1, 1, 1))
    else:
        _groups(_k, False)
VALUES = ['text', 'number', 'object', 'list']
for _s in (False, True):
    _groups((), _s)
    _groups(('truth',), _s)
    _groups(('number', 'truth'), _s)
    for _a in VALUES:
        _groups((_a,), _s)
        for _b in VALUES:
            _groups((_a, _b), _s)


# ------------------------------------------------------------------ URI templates
class Path:
    __pv_model__ = __pv_symbolic__ = True
    __pv_class__ = pathlib.PosixPath

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text
    __str__.__pv_model__ = True


class TemplateM:
    """a URI template with any text; expanding it keeps a prefix (which has no expression)"""
    __pv_model__ = True

    def __init__(self, uri, result):
        self.uri, self.result, self.calls = uri, result, []

    def expand(self, var_dict=None, **kw):
        d = VDict() if var_dict is None else RT.dict_meth(var_dict, 'copy', (), {})
        for k, v in kw.items():
            RT.dset(d, k, v)
        self.calls.append(d)
        return self.result


def resolve(link, base):
    ctx = Ctx.cur
    ctx.resolved.append((link.string, base))
    return ctx.locations[id(link.string)] if id(link.string) in ctx.locations else ('base', link, base)


EX = {'csvw.metadata.Link.resolve': resolve, 'builtin:str': lambda x='': x.text if isinstance(x, Path) else RT.as_str(x)}


def same_text(a, b):
    """both texts have the same length and characters"""
    if isinstance(a, str) and isinstance(b, str):
        return BoolVal(a == b)
    a, b = [x if isinstance(x, HText) else x for x in (a, b)]
    if not isinstance(a, HText) or not isinstance(b, HText):
        return BoolVal(False)
    n, i = it(a.length()), Ctx.cur.fresh('qst')
    i = Int(i)
    head = 0
    while head < min(len(a.segs), len(b.segs)) and not isinstance(a.segs[head], View) and not isinstance(b.segs[head], View):
        head += 1
    return And(n == it(b.length()), *[tr(same_char(a.segs[k], b.segs[k])) for k in range(head)], ForAll([i], Implies(And(i >= head, i < n), a.char(i) == b.char(i))))


def the_table(desc=None, **kw):
    d = dict({'@context': 'http://www.w3.org/ns/csvw', 'url': 't.csv'}, **dict(desc or {}, **kw))
    t = M.Table.fromvalue(d)
    t._fname = pathlib.Path('/scratch/md.json')
    return t


def _expand(prefix, qname):
    @harness('expand: {}{}'.format(prefix or 'no prefix', ', abbreviated' if qname else ''), contracts=EX)
    def h(ctx):
        t = the_table()
        ctx.resolved, ctx.locations = [], {}
        full = M.NAMESPACES.get(prefix)
        tail = htext('tail')
        if prefix:
            uri, res = HText.concat_texts([prefix + ':', htext('template')]), HText.concat_texts([prefix + ':', tail])
            want = [full, tail] if not qname else [prefix + ':', tail]
        else:
            uri, res = htext('template'), htext('result')
            ctx.assume(Not(Or(*[bt(uri.m_startswith(p + ':')) for p in M.NAMESPACES])))
            loc = tail
            ctx.locations[id(res)] = loc if not ctx.choose(2) else Path(loc)
            want = [loc]
        tmpl = TemplateM(uri, res)
        row = VDict()
        for c in ('a', 'self', 'var_dict', 'tmpl'):
            RT.dset(row, c, fresh_str(c))
        n, nm = fresh_int('rownum'), fresh_str('name')
        k, r = run(M.TableLike.expand, t, tmpl, row, _row=n, _name=nm, qname=qname)
        ctx.prove('expanding does not fail', BoolVal(k == 'ok'), repr(r) if k == 'exc' else '')
        if k != 'ok':
            return
        ctx.prove('the template is expanded once', BoolVal(len(tmpl.calls) == 1))
        for c, v in list(row.items()) + [('_row', n), ('_name', nm)]:
            ctx.prove('variables have their values', BoolVal(RT.dget(tmpl.calls[0], c) is v), c)
        if prefix:
            ctx.prove('the prefix stands for the namespace', same_text(r, HText.concat_texts(want)))
            return
        mine = [(x, b) for x, b in ctx.resolved if x is res]
        ctx.prove('the result is resolved', BoolVal(len(mine) == 1 and isinstance(mine[0][1], tuple)))
        local = isinstance(ctx.locations[id(res)], Path)
        for p, ns in M.NAMESPACES.items():
            if qname and not local and ctx.branch(bt(tail.m_startswith(ns))):
                ctx.prove('only the namespace is abbreviated', same_text(r, HText.concat_texts([p + ':', tail.part(IntVal(len(ns)), it(tail.length()) - len(ns))])))
                return
        ctx.prove('the result is the resolved link', same_text(r, tail))


for _p in [None] + list(M.NAMESPACES):
    _expand(_p, False)
    _expand(_p, True)


@harness('expand: invalid templates', contracts=EX)
def _invalid(ctx):
    t = the_table()
    ctx.resolved, ctx.locations = [], {}
    x = fresh_str('url')
    ctx.locations[id(t.url.string)] = x
    k, r = run(M.TableLike.expand, t, M.INVALID, VDict(), _row=fresh_int('row'))
    ctx.prove('invalid templates give the URL of the table', BoolVal(k == 'ok') if k != 'ok' else eq(r, x))


# ------------------------------------------------------------------ rows
def expanded(ctx, tmpl, name, short):
    """the text a template expands to, for the row"""
    key = (str(tmpl), name, bool(short))
    if key not in ctx.texts:
        ctx.texts[key] = fresh_str('expanded')
        ctx.assume(ctx.texts[key].t != lit(''))
    return ctx.texts[key]


def expand(self, tmpl, row, _row=None, _name=None, qname=False):
    ctx = Ctx.cur
    ctx.prove('templates are expanded for the row', BoolVal(row is ctx.row and _row is ctx.rownum))
    return expanded(ctx, tmpl, _name, qname)


def json_form(ctx, v):
    """format_value: None and texts stay"""
    if v is None or isinstance(v, SVal) and con_name(v.t) == 'S':
        return v
    key = id(v)
    if key not in ctx.forms:
        ctx.forms[key] = (v, fresh_val('form'))
        ctx.assume(Not(V.is_none(ctx.forms[key][1].t)))
    return ctx.forms[key][1]


def fmt_contract(v, col):
    return json_form(Ctx.cur, v)


def grouped(triples):
    Ctx.cur.got.append([(call(getattr, t, 'about'), call(getattr, t, 'property'), call(getattr, t, 'value')) for t in RT.iterable(triples)])
    return VList([SVal(V.S(IntVal(-5)))])


DE = {'csvw.metadata.TableLike.expand': expand, 'csvw.jsonld.format_value': fmt_contract, 'csvw.jsonld.group_triples': grouped}


def same_facts(ctx, got, want, what):
    ok = len(got) == len(want)
    ctx.prove(what + ': as many as there are', BoolVal(ok), '{} {}'.format(len(got), len(want)))
    ctx.prove(what + ': each once', And(*[count(f, got) == count(f, want) for f in want]))


def converter(**kw):
    c = object.__new__(M.CSVW)
    for k, v in kw.items():
        setattr(c, k, v)
    return c


CELLS = ['text', 'none', 'list', 'no items', 'other']
URLS = [{}, {'aboutUrl': 'about{a}'}, {'propertyUrl': 'property{a}'}, {'valueUrl': 'value{a}'}, {'aboutUrl': 'x{a}', 'propertyUrl': 'y{a}', 'valueUrl': 'z{a}'}]


def cell(ctx, kind, name):
    if kind == 'text':
        return fresh_str(name)
    if kind == 'none':
        return None
    if kind == 'list':
        return VList([fresh_str(name + '0'), fresh_str(name + '1')])
    if kind == 'no items':
        return VList()
    return fresh_int(name)


def _row(kind, urls, where):
    @harness('_describes: a {} in a column with {}, {}'.format(kind, ', '.join(sorted(urls)) or 'no templates', where), contracts=DE, kind='shape', bound='3 columns')
    def h(ctx):
        ctx.texts, ctx.forms, ctx.got = {}, {}, []
        a = dict({'name': 'a'}, **{k: v for k, v in urls.items() if where == 'column' or k == 'aboutUrl'})
        schema, table = {}, {}
        {'column': {}, 'schema': schema, 'table': table}[where].update({k: v for k, v in urls.items() if k != 'aboutUrl'})
        if ctx.choose(2):
            (schema if where != 'table' else table)['aboutUrl'] = 'row{_row}'
        rowabout = (schema if where != 'table' else table).get('aboutUrl')
        suppressed = ctx.choose(3)          # none, the first, the virtual one
        null = ctx.choose(3)                # default, a text of the column, of the schema
        json = kind == 'text' and ctx.choose(2)
        if suppressed == 1:
            a['suppressOutput'] = True
        if json:
            a['datatype'] = 'json'
        if kind in ('list', 'no items'):
            (a if ctx.choose(2) else schema)['separator'] = ';'
        if null:
            (a if null == 1 else schema)['null'] = 'null'
        cols = [a, {'name': 'b', 'propertyUrl': 'b{a}', 'valueUrl': 'b', 'null': []}]
        virtual = ctx.choose(3)             # none, with and without a value
        v = {}
        if virtual:
            v = {'name': 'v', 'virtual': True, 'aboutUrl': 'aboutv', 'propertyUrl': 'propertyv'}
            if virtual == 1:
                v['valueUrl'] = 'valuev'
            elif where != 'column':
                v['valueUrl'] = 'other'
            if suppressed == 2:
                v['suppressOutput'] = True
            cols.append(v)
        t = the_table(dict(table, tableSchema=dict(schema, columns=cols)))
        x, y = cell(ctx, kind, 'x'), [fresh_str('y'), None][ctx.choose(2)]
        row = ctx.row = VDict()
        for k, val in [('a', x), ('b', y)]:
            RT.dset(row, k, val)
        if virtual and ctx.choose(2):
            RT.dset(row, 'v', fresh_str('w'))
        n = ctx.rownum = fresh_int('rownum')
        tcols = t.tableSchema.columns
        cdict = VDict()
        for c in tcols:
            RT.dset(cdict, c.name, c)
            c.propertyUrl, c.valueUrl = c.inherit('propertyUrl'), c.inherit('valueUrl')
        null_text = lit('null' if null else '')
        want = []
        if rowabout:
            want.append((None, '@id', expanded(ctx, rowabout, None, False)))

        def fact(c, val, **inherited):
            d = dict(inherited, **c)
            nm = c['name']
            p = expanded(ctx, d['propertyUrl'], nm, True) if 'propertyUrl' in d else nm
            if 'valueUrl' in d:
                is_type = eq(p, 'rdf:type')
                val = expanded(ctx, d['valueUrl'], nm, ctx.branch(is_type))
            s = expanded(ctx, c['aboutUrl'], nm, False) if 'aboutUrl' in c else None
            want.append((s, p, json_form(ctx, val)))
        inherited = {} if where == 'column' else {k: w for k, w in urls.items() if k != 'aboutUrl'}
        if x is not None and kind != 'no items' and suppressed != 1:
            if kind != 'text' or json or not ctx.branch(x.t == null_text):
                fact(a, x, **inherited)
        if y is not None:
            fact(cols[1], y)
        if virtual and suppressed != 2 and ('valueUrl' in v):
            fact(v, None)
        c = converter(no_metadata=False, t=t, tables=VList([t]))
        k, r = meth(c, '_describes', t, cdict, row, n)
        ctx.prove('describing a row does not fail', BoolVal(k == 'ok'), repr(r) if k == 'exc' else '')
        if k == 'ok':
            ctx.prove('the values are grouped once', BoolVal(len(ctx.got) == 1))
            same_facts(ctx, ctx.got[0], want, 'values of the row')


for _kind in CELLS:
    for _u in URLS:
        for _w in ('column', 'schema', 'table'):
            if _w == 'column' or set(_u) - {'aboutUrl'} and (_w == 'schema' or _kind == 'text'):
                _row(_kind, _u, _w)


def _unnamed(no_metadata):
    @harness('_describes: columns without description{}'.format(' (no metadata)' if no_metadata else ''), contracts=DE, kind='shape', bound='2 columns')
    def h(ctx):
        ctx.texts, ctx.forms, ctx.got = {}, {}, []
        n = ctx.rownum = fresh_int('rownum')
        given = ctx.choose(2)
        t = the_table({'null': 'null', 'tableSchema': {'columns': []}} if given else {'tableSchema': {'columns': []}})
        row = ctx.row = VDict()
        names = [name('x'), name('y')]
        ctx.assume(names[0].t != names[1].t)
        want = []
        for i, nm in enumerate(names):
            v = [fresh_str('v'), None][ctx.choose(2)]
            RT.dset(row, nm, v)
            if v is not None and not ctx.branch(v.t == lit('null' if given else '')):
                want.append((None, nm if no_metadata else '_col.{}'.format(i + 1), v))
        c = converter(no_metadata=no_metadata, t=t, tables=VList([t]))
        k, r = meth(c, '_describes', t, VDict(), row, n)
        ctx.prove('describing a row does not fail', BoolVal(k == 'ok'), repr(r) if k == 'exc' else '')
        if k == 'ok':
            same_facts(ctx, ctx.got[0], want, 'values of the row')


_unnamed(False)
_unnamed(True)


# ------------------------------------------------------------------ tables
def link(self, base):
    return Ctx.cur.url


def pieces_of(x):
    """the parts a text was concatenated from"""
    if isinstance(x, str):
        return [x]
    ps = RT.concats.get(lift(x).get_id())
    if ps is None:
        return [x]
    return list(ps[1])


@harness('_row_to_json', contracts={'csvw.metadata.Link.resolve': link, 'csvw.metadata.CSVW._describes': lambda self, *a, **kw: Ctx.cur.describe(self, a, kw)}, kind='shape', bound='up to 2 titles')
def _row_json(ctx):
    ctx.url = fresh_str('url')
    titles = ctx.choose(3)
    t = the_table({'tableSchema': {'columns': [{'name': 'a'}, {'name': 'b'}], 'rowTitles': ['a', 'b'][:titles]}})
    row = VDict(a=optional('x', fresh_str), b=optional('y', fresh_str))
    n, line = fresh_int('rownum'), fresh_int('line')
    calls, d = [], VList([SVal(V.S(IntVal(-7)))])
    cols = VDict()

    def describe(self, a, kw):
        calls.append(dict(zip(['table', 'cols', 'row', 'rownum'], a), **kw))
        return d
    ctx.describe = describe
    k, r = meth(converter(no_metadata=False), '_row_to_json', t, cols, row, n, line)
    ctx.prove('converting a row does not fail', BoolVal(k == 'ok'), repr(r) if k == 'exc' else '')
    if k != 'ok':
        return
    ctx.prove('the row is described once', BoolVal(len(calls) == 1 and calls[0]['table'] is t and calls[0]['cols'] is cols and calls[0]['row'] is row and calls[0]['rownum'] is n))
    ctx.prove('the row has its number', eq(RT.getitem(r, 'rownum'), n))
    ctx.prove('the row has its objects', BoolVal(RT.getitem(r, 'describes') is d))
    url = RT.getitem(r, 'url')
    ctx.prove('the URL has the number of the line', same_url(url, ctx.url, line))
    have = [x for x in [row['a'], row['b']][:titles] if x is not None and ctx.branch(x.t != lit(''))]
    if titles:
        got = RT.getitem(r, 'titles')
        got = list(got) if isinstance(got, VList) else [got]
        ctx.prove('the row has its titles', And(BoolVal(len(got) == len(have)), *[lift(a) == lift(b) for a, b in zip(got, have)]))


def same_url(url, base, line):
    ps = pieces_of(url)
    out, text_ = [], ''
    for p in ps:
        if isinstance(p, str):
            text_ += p
        else:
            out.append((text_, p))
            text_ = ''
    if len(out) != 2 or text_ or out[0][0] or out[1][0] != '#row=':
        return BoolVal(False)
    return And(lift(out[0][1]) == lift(base), eq(out[1][1], RT.as_str(line)))


def length_known(x):
    return type(x.base).__name__ != 'LogBase'


class Done:
    """the objects made so far, if the rows are converted one after the other"""

    def __init__(self):
        self.objects, self.count, self.ok = VList(), 0, True


def _table(k):
    @harness('_table_to_json: {}'.format(['any number of rows', 'with properties'][k]), contracts={
        'csvw.metadata.Link.resolve': link, 'csvw.metadata.Table.iterdicts': lambda self, *a, **kw: Ctx.cur.rows(self, a, kw),
        'csvw.metadata.CSVW._row_to_json': lambda self, *a, **kw: Ctx.cur.convert(self, a, kw)})
    def h(ctx):
        ctx.url = fresh_str('url')
        desc = {'tableSchema': {'columns': [{'name': 'a', 'titles': 'A'}, {'titles': 'b', 'propertyUrl': 'http://own'}, {'name': 'v', 'virtual': True}], 'propertyUrl': 'http://p', 'valueUrl': 'http://v'}}
        if k:
            desc.update({'@id': 'http://id', 'notes': [{'a': 'b'}], 'dc:title': 'x', 'http://x': [1]})
        t = the_table(desc)
        row, line = uf('row', INT, V), uf('line', INT, INT)
        obj = uf('object', V, INT, INT, V)

        def rows(self, a, kw):
            ctx.prove('all rows of the table are read', BoolVal(self is t and not a and kw.get('with_metadata') is True and kw.get('strict') is False and set(kw) <= {'with_metadata', 'strict'}))
            s = fresh_seq('rows', lambda i: ('t.csv', SInt(line(i)), SVal(row(i))))
            ctx.n = s.n
            return s

        def convert(self, a, kw):
            d = dict(zip(['table', 'cols', 'row', 'rownum', 'rowsourcenum'], a), **kw)
            ctx.prove('rows are converted for the table', BoolVal(d['table'] is t))
            ctx.prove('columns are found by their header', BoolVal(list(d['cols'].keys()) == ['a', 'b', 'v'] and all(x is y for x, y in zip(d['cols'].values(), t.tableSchema.columns))))
            for c in d['cols'].values():
                ctx.prove('templates are inherited', BoolVal(str(c.propertyUrl) == ('http://own' if c.header == 'b' else 'http://p') and str(c.valueUrl) == 'http://v'))
            r = SVal(obj(lift(d['row']), it(d['rownum']), it(d['rowsourcenum'])))
            if not getattr(ctx, 'mapping', 0):      # called for one row after the other
                n = it(done.count)
                done.ok = sbool(And(bt(done.ok), lift(d['row']) == row(n), it(d['rownum']) == n + 1, it(d['rowsourcenum']) == line(n)))
                list.append(done.objects, r)
                done.count = SInt.of(n + 1)
            return r
        ctx.rows, ctx.convert = rows, convert
        done = ctx.roots['done'] = Done()
        st, r = meth(converter(no_metadata=False, t=t, tables=VList([t])), '_table_to_json', t)
        ctx.prove('converting a table does not fail', BoolVal(st == 'ok'), repr(r) if st == 'exc' else '')
        if st != 'ok':
            return
        ctx.prove('the table has its URL', eq(RT.getitem(r, 'url'), ctx.url))
        have, i = RT.getitem(r, 'row'), Int('qi')
        rs = None if isinstance(have, VList) and length_known(have) is False else seq_of(have)
        if rs is None:
            ctx.prove('there is one object per row', it(done.count) == ctx.n)
            ctx.prove('each object is the one of the row with this number', And(bt(done.ok), bt(RT.eq(RT.getitem(r, 'row'), done.objects))))
        else:
            ctx.prove('there is one object per row', rs.n == ctx.n)
            ctx.prove('each object is the one of the row with this number', ForAll([i], Implies(And(i >= 0, i < ctx.n), lift(rs.get(i)) == obj(row(i), i + 1, line(i)))))
        if k:
            ctx.prove('the table has its properties', BoolVal(RT.dict_meth(r, 'get', ('@id', None), {}) == 'http://id' and RT.dict_meth(r, 'get', ('dc:title', None), {}) == 'x' and RT.dict_meth(r, 'get', ('http://x', None), {}) == [1] and RT.dict_meth(r, 'get', ('notes', None), {}) == [{'a': 'b'}]))


_table(0)
_table(1)


def _all(minimal, group):
    @harness('to_json: {}{}'.format('minimal mode' if minimal else 'standard mode', ' of a group' if group else ''), contracts={'csvw.metadata.CSVW._table_to_json': lambda self, table: Ctx.cur.convert(table)},
             kind='shape', bound='up to 3 tables of up to 2 rows')
    def h(ctx):
        n = 1 + (ctx.choose(3) if group else 0)
        d = {'@context': 'http://www.w3.org/ns/csvw', 'tables': [{'url': '%d.csv' % i, 'tableSchema': {'columns': [{'name': 'a'}]}} for i in range(n)], 'dc:title': 'x'}
        tg = M.TableGroup.fromvalue(d)
        tables = list(tg.tables)
        want, objects, k = [], [], 0
        res = {}
        for t in tables:
            t.suppressOutput = fresh_bool('suppressed')
            rows = []
            for _ in range(ctx.choose(3) if t is tables[0] else 1):
                ds = [fresh_val('object') for _ in range(ctx.choose(3) if t is tables[0] else 1)]
                rows.append(VDict(describes=VList(ds), rownum=fresh_int('n')))
            res[id(t)] = VDict(row=VList(rows))

        def convert(t):
            ctx.prove('each table is converted once', BoolVal(id(t) not in seen))
            seen.append(id(t))
            return res[id(t)]
        seen, ctx.convert = [], convert
        c = converter(no_metadata=False, t=tg if group else tables[0], tables=VList(tables), common_props=tg.common_props, warnings=VList())
        st, r = meth(c, 'to_json', **({'minimal': True} if minimal else {}))
        ctx.prove('converting does not fail', BoolVal(st == 'ok'), repr(r) if st == 'exc' else '')
        if st != 'ok':
            return
        shown = [res[id(t)] for t in tables if not ctx.branch(bt(t.suppressOutput))]
        if minimal:
            objects = [o for t in shown for row in t['row'] for o in row['describes']]
            r = list(RT.iterable(r))
            ctx.prove('minimal mode gives the described objects', And(BoolVal(len(r) == len(objects)), *[lift(a) == lift(b) for a, b in zip(r, objects)]))
            return
        ts = list(RT.iterable(RT.getitem(r, 'tables')))
        ctx.prove('all tables that are not suppressed are there, in order', BoolVal(len(ts) == len(shown) and all(a is b for a, b in zip(ts, shown))))
        ctx.prove('the group has its properties', BoolVal(RT.dict_meth(r, 'get', ('dc:title', None), {}) == ('x' if group else None)))


for _m in (False, True):
    _all(_m, False)
    _all(_m, True)


# ------------------------------------------------------------------ simplification of JSON-LD
LEAF, SIMPLE = uf('simple', V, V), uf('simple_flat', V, V)


def simple_contract(obj, flatten_list=False):
    """what to_json gives for a nested value"""
    if isinstance(flatten_list, bool) and isinstance(obj, (SVal, str)):
        c = Ctx.cur
        c.recursed = True
        r = SVal((SIMPLE if flatten_list else LEAF)(lift(obj)))
        if c.item is not None and not getattr(c, 'mapping', 0):      # called for one item after the other
            done, n = c.roots['done'], it(c.roots['done'].count)
            done.ok = sbool(And(bt(done.ok), lift(obj) == c.item(n)))
            list.append(done.objects, r)
            done.count = SInt.of(n + 1)
        return r
    raise Unsupported('simplification of {!r}'.format(obj))


def _simple(keys, flat):
    @harness('jsonld.to_json: {}{}'.format('object with ' + (', '.join(keys) or 'no properties') if keys is not None else 'other values', ', flattened' if flat else ''),
             contracts={'csvw.jsonld.to_json': simple_contract, 'json.loads': lambda x: SVal(uf('parsed', V, V)(lift(x)))})
    def h(ctx):
        ctx.recursed, ctx.item = False, None

        def f(x):       # without recursion by to_json itself, values must be simplified to themselves
            return (SIMPLE if flat else LEAF)(x) if ctx.recursed else x

        def body(x):
            try:
                return 'ok', J.to_json(x, flatten_list=flat) if flat else J.to_json(x)
            except Unsupported:
                raise
            except Exception as e:  # noqa: the code's own exception
                return 'exc', e
        if keys is None:
            if ctx.choose(2):
                v = fresh_val('v')
                ctx.assume(Or(V.is_S(v.t), V.is_I(v.t), V.is_B(v.t), v.t == V.none))
                st, r = body(v)
                ctx.prove('simple values are kept', BoolVal(st == 'ok') if st != 'ok' else lift(r) == v.t, repr(r))
                return
            e = uf('item', INT, V)
            s = fresh_seq('items', lambda i: SVal(e(i)))
            i = Int('qi')
            ctx.assume(ForAll([i], Or(V.is_S(e(i)), V.is_I(e(i)), V.is_B(e(i)), e(i) == V.none)))
            done, ctx.item = Done(), e
            ctx.roots['done'] = done
            st, r = body(s)
            ctx.prove('lists can be simplified', BoolVal(st == 'ok'), repr(r))
            if st != 'ok':
                return
            if flat and ctx.branch(s.n == 1):
                ctx.prove('a list of one item is the item', lift(r) == f(e(0)))
                return
            if isinstance(r, VList) and length_known(r) is False:
                ctx.prove('each item is simplified', it(done.count) == s.n)
                ctx.prove('items in order', And(bt(done.ok), bt(RT.eq(r, done.objects))))
                return
            rs = seq_of(r)
            ctx.prove('lists keep their items', And(rs.n == s.n, ForAll([i], Implies(And(i >= 0, i < s.n), lift(rs.get(i)) == f(e(i))))))
            return
        d = VDict()
        for k in keys:
            d[k] = fresh_val('v')
            ctx.assume(Or(V.is_S(d[k].t), V.is_I(d[k].t), V.is_B(d[k].t), d[k].t == V.none))
        want = dict(d)
        st, r = body(d)
        if '@type' in keys and '@value' in keys and ctx.branch(want['@type'].t == lit(str(rdflib.RDF.JSON))):
            ctx.prove('JSON is parsed', BoolVal(st == 'ok') if st != 'ok' else lift(r) == uf('parsed', V, V)(want['@value'].t))
            return
        ctx.prove('objects can be simplified', BoolVal(st == 'ok'), repr(r))
        if st != 'ok':
            return
        if '@value' in keys or keys == ['@id']:
            ctx.prove('an object with a value or nothing but an id is it', lift(r) == want['@value' if '@value' in keys else '@id'].t)
            return
        ctx.prove('other objects have the same properties', BoolVal(isinstance(r, (dict, VDict)) and list(r) == ['@type' if k == 'rdf:type' else k for k in keys]))
        for k in keys:
            ctx.prove('{} is simplified'.format(k), lift(RT.getitem(r, '@type' if k == 'rdf:type' else k)) == f(want[k].t))
        ctx.prove('the value itself is not changed', BoolVal(list(d) == list(want)))


if getattr(J, 'to_json', None) is not None:
    for _f in (False, True):
        _simple(None, _f)
        for _k in ([], ['dc:x'], ['@value'], ['@value', '@language'], ['@value', '@type'], ['@id'], ['@id', 'dc:x'], ['dc:x', '@id', 'http://x.org/y'], ['@type', 'dc:x'], ['rdf:type', 'dc:x']):
            _simple(_k, _f)
