"""C16: inherited properties and links resolve to the nearest definition."""
import pathlib

from pv.h import *
import csvw.metadata as M

HARNESSES, harness = registry()

ASSUMPTIONS = [
    'utils.is_url decides whether a text is an absolute http(s) URL; urllib.parse.urljoin resolves a reference '
    'against a base URL; pathlib joins paths (library)',
    'an unset property holds its default (None; "" for default; "und" for lang; [""] for null)',
]

UNSET = {'default': '', 'lang': 'und'}
PROPS = ['aboutUrl', 'datatype', 'default', 'lang', 'ordered', 'propertyUrl', 'required', 'separator',
         'textDirection', 'valueUrl']


def unset(name, t):
    u = UNSET.get(name)
    return V.is_none(t) if u is None else Or(V.is_none(t), t == lit(u))


def describe(cls):
    return {'Column': lambda: M.Column(name='c'), 'Schema': lambda: M.Schema(),
            'Table': lambda: M.Table(url='t.csv'), 'TableGroup': lambda: M.TableGroup()}[cls]()


PARENTS = {'Column': 'Schema', 'Schema': 'Table', 'Table': 'TableGroup', 'TableGroup': None}


class Parent:
    """the enclosing description, by the contract of inherit/inherit_null"""
    __pv_model__ = True

    def __init__(self, name):
        self.expected = name
        self.value = fresh_val('inherited')
        self.nulls = fresh_str_seq('inherited_null')

    def inherit(self, name):
        Ctx.cur.prove('the enclosing description is asked for the same property', BoolVal(name == self.expected))
        return self.value

    def inherit_null(self):
        return self.nulls


for _cls in PARENTS:
    for _p in PROPS:
        def _mk(cls, name):
            @harness('{}.inherit({})'.format(cls, name))
            def h(ctx):
                d = describe(cls)
                own = inp('own', fresh_val('own'))
                setattr(d, name, own)
                # one step of the chain, and its end
                parent = d._parent = Parent(name) if ctx.choose(2) else None
                ctx.expect_cover('own', 'inherited', 'default')
                k, r = meth(d, 'inherit', name)
                ctx.prove('inherit does not raise', BoolVal(k == 'ok'), repr(r))
                if parent:
                    ctx.prove('the own value if set, else the value of the enclosing description', lift(r) == If(
                        unset(name, own.t), parent.value.t, own.t))
                    ctx.cover('inherited')
                else:
                    ctx.prove('without enclosing description the own value', eq(r, own))
                    ctx.cover('default')
                    ctx.cover('own')
        _mk(_cls, _p)

    def _mkn(cls):
        @harness('{}.inherit_null'.format(cls))
        def h(ctx):
            d = describe(cls)
            own = inp('own', fresh_str_seq('own'))
            d.null = own
            parent = d._parent = Parent('null') if ctx.choose(2) else None
            k, r = meth(d, 'inherit_null')
            ctx.prove('inherit_null does not raise', BoolVal(k == 'ok'), repr(r))
            isdef = eq(own, [''])
            if parent:
                ctx.cover('parent')
                ctx.prove('the own null list if set, else that of the enclosing description', Or(
                    And(isdef, eq(r, parent.nulls)), And(Not(isdef), eq(r, own))))
            else:
                ctx.cover('no parent')
                ctx.prove('without enclosing description the own null list', eq(r, own))
            ctx.expect_cover('parent', 'no parent')
    _mkn(_cls)


def chain():
    """a real group with one table and one column"""
    g = M.TableGroup.fromvalue({'tables': [{'url': 't.csv', 'tableSchema': {'columns': [{'name': 'a'}, {'name': 'b'}]}}]})
    t = g.tables[0]
    return g, t, t.tableSchema, t.tableSchema.columns[1]


for _p in PROPS:
    def _mkc(name):
        @harness('Column.inherit({}) in a table group'.format(name), kind='shape', bound='the complete chain')
        def h(ctx):
            ds = chain()[::-1]
            vals = []
            for d in ds:
                v = fresh_val('v')
                setattr(d, name, v)
                vals.append(v.t)
            k, r = meth(ds[0], 'inherit', name)
            ctx.prove('inherit does not raise', BoolVal(k == 'ok'), repr(r))
            want = vals[3]
            for v in reversed(vals[:3]):
                want = If(unset(name, v), want, v)
            ctx.prove('the nearest description that sets the property decides', lift(r) == want)
            # a description that is changed after use
            n = ctx.choose(4)
            v = fresh_val('changed')
            setattr(ds[n], name, v)
            vals[n] = v.t
            k, r = meth(ds[0], 'inherit', name)
            want = vals[3]
            for v in reversed(vals[:3]):
                want = If(unset(name, v), want, v)
            ctx.prove('also after a change', BoolVal(k == 'ok') if k != 'ok' else lift(r) == want)
    _mkc(_p)


@harness('Column.inherit_null in a table group', kind='shape', bound='the complete chain')
def nulls(ctx):
    ds = chain()[::-1]
    vals = []
    for d in ds:
        d.null = fresh_str_seq('null')
        vals.append(d.null)
    k, r = meth(ds[0], 'inherit_null')
    ctx.prove('inherit_null does not raise', BoolVal(k == 'ok'), repr(r))
    cases, before = [], BoolVal(True)
    for v in vals[:3]:
        cases.append(And(before, Not(eq(v, [''])), eq(r, v)))
        before = And(before, eq(v, ['']))
    cases.append(And(before, eq(r, vals[3])))
    ctx.prove('the nearest null list that is set decides', Or(*cases))


# ------------------------------------------------------------------ links
class PathBase:
    """a local path"""
    __pv_model__ = True

    def __init__(self, name, isdir, parent=None):
        self.name, self.isdir, self._parent = name, isdir, parent

    def joinpath(self, *a):
        return self / a[0]

    def is_dir(self):
        return self.isdir

    @property
    def parent(self):
        return self._parent or PathBase(('parent', self.name), True)

    def __truediv__(self, o):
        return Joined(self.name, o)


class Joined:
    __pv_model__ = True

    def __init__(self, base, rel):
        self.base, self.rel = base, rel


ISURL = uf('is_url', V, BOOL)
URLJOIN = uf('urljoin', V, V, V)
import urllib.parse  # noqa: E402
LINK = {'csvw.utils.is_url': lambda s: sbool(ISURL(lift(s))),
        'urllib.parse.urljoin': lambda b, u: SVal(URLJOIN(lift(b), lift(u)))}


@harness('Link.resolve (local file)', contracts=LINK)
def resolve_path(ctx):
    s = inp('string', fresh_str('string'))
    link = M.Link('x')
    link.string = s
    isdir = bool(ctx.choose(2))
    base = PathBase('base', isdir)
    k, r = meth(link, 'resolve', base)
    ctx.prove('resolve does not raise', BoolVal(k == 'ok'), repr(r))
    ctx.expect_cover('absolute', 'directory', 'file')
    if isinstance(r, Joined):
        ctx.cover('directory' if isdir else 'file')
        ctx.prove('only relative links are resolved', Not(ISURL(s.t)))
        ctx.prove('against the directory of the file', BoolVal(r.base == ('base' if isdir else ('parent', 'base'))))
        ctx.prove('the link is appended', eq(r.rel, s))
    else:
        ctx.cover('absolute')
        ctx.prove('absolute URLs are left alone', And(ISURL(s.t), lift(r) == s.t))


@harness('Link.resolve (URL)', contracts=LINK)
def resolve_url(ctx):
    s, b = inp('string', fresh_str('string')), inp('base', fresh_str('base'))
    link = M.Link('x')
    link.string = s
    import csvw.metadata as mm
    k, r = meth(link, 'resolve', b)
    ctx.prove('resolve does not raise', BoolVal(k == 'ok'), repr(r))
    ctx.prove('the link is resolved against the URL', lift(r) == URLJOIN(b.t, s.t))


@harness('TableLike.base', contracts={
    'csvw.metadata.Link.resolve': lambda self, base: SVal(URLJOIN(lift(base), lift(self.string)))})
def base(ctx):
    g, t, _, _ = chain()
    which = ['table in group', 'group', 'single table'][ctx.choose(3)]
    d, src = {'table in group': (t, g), 'group': (g, g), 'single table': (M.Table(url='t.csv'),) * 2}[which]
    if which == 'single table':
        src = d
    url = fresh_str('url') if ctx.choose(2) else None
    cb = fresh_str('ctxbase') if ctx.choose(2) else None
    file = PathBase('file', False) if ctx.choose(2) else None
    if url is not None:
        src.at_props['base'] = url
    if cb is not None:
        ctx.assume(V.s(cb.t) != 0)
        src.at_props['context'] = ['http://www.w3.org/ns/csvw', {'@base': cb}]
    elif ctx.choose(2):
        src.at_props['context'] = ['http://www.w3.org/ns/csvw', {'@language': 'en'}]
    src._fname = file
    k, r = RT.capture(lambda: d.base) if hasattr(RT, 'capture') else run(lambda: d.base)
    ctx.prove('base does not raise', BoolVal(k == 'ok'), repr(r))
    ctx.cover(which)
    ctx.expect_cover('table in group', 'group', 'single table')
    if url is not None:
        ctx.prove('the URL of the metadata, combined with a declared @base', lift(r) == (
            url.t if cb is None else URLJOIN(url.t, cb.t)))
    elif file is not None:
        ctx.prove('the directory of the metadata file', BoolVal(isinstance(r, PathBase) and r.name == ('parent', 'file')))
    else:
        ctx.prove('no base', BoolVal(r is None))


@harness('TableGroup constructor links the descriptions')
def parents(ctx):
    g, t, s, c = chain()
    ctx.prove('every description knows the one that contains it', BoolVal(
        c._parent is s and s._parent is t and t._parent is g and g._parent is None))
