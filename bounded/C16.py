"""C16, bounded: inherited properties and link resolution on real descriptions."""
import itertools
import json
import os
import pathlib

from csvw.metadata import TableGroup, Table, Link, Column
from bounded.lib import Registry, require, same, tmpdir
from bounded.tables import put

check = Registry()
PROPS = {
    'default': ['x', 'y'], 'lang': ['en', 'de-AT'], 'null': [['NA'], ['', '-'], 'x', []], 'ordered': [True, False],
    'required': [True, False], 'separator': [';', '|'], 'textDirection': ['ltr', 'rtl'],
    'datatype': ['integer', {'base': 'string', 'format': 'a.*'}], 'aboutUrl': ['a{x}'], 'propertyUrl': ['p{x}'], 'valueUrl': ['v{x}'],
}
DEFAULT = {'default': '', 'lang': 'und', 'null': ['']}
LEVELS = ['column', 'schema', 'table', 'group']


def norm(prop, v):
    if prop == 'datatype':
        return v and (v.base, v.format)
    if prop.endswith('Url'):
        return v and v.uri
    return v


def want(prop, v):
    if prop == 'datatype':
        return (v, None) if isinstance(v, str) else (v['base'], v['format'])
    if prop == 'null':
        return v if isinstance(v, list) else [v]
    return v


def gen(r):
    return [{p: r.choice(vs) for p, vs in PROPS.items() if r.random() < 0.35} for _ in LEVELS]


def fixed():
    for p, vs in PROPS.items():
        for n in range(5):
            for combo in itertools.product(vs[:2], repeat=2):
                levels = [{}, {}, {}, {}]
                if n < 4:
                    levels[n] = {p: combo[0]}
                if n < 3:
                    levels[3] = {p: combo[1]}
                yield levels


@check('nearest definition', fixed=fixed, gen=gen, n=400)
def nearest(levels):
    c, s, t, g = [dict(x) for x in levels]
    c['name'] = 'c'
    s['columns'] = [{'name': 'o'}, c, {'name': 'z'}]
    t.update(url='t.csv', tableSchema=s)
    g['tables'] = [{'url': 'o.csv'}, t]
    tg = TableGroup.fromvalue(g)
    t = tg.tables[1]
    cols = t.tableSchema.columns
    verify(levels, tg, t, cols)
    # descriptions changed after use: the new values decide
    levels = levels[1:] + levels[:1]
    for d, lv in zip((cols[1], t.tableSchema, t, tg), levels):
        new = Column.fromvalue(dict(lv, name='c'))
        for p in PROPS:
            setattr(d, p, getattr(new, p))
    verify(levels, tg, t, cols)


def verify(levels, tg, t, cols):
    for start, d in ((0, cols[1]), (1, cols[0]), (1, cols[2]), (1, t.tableSchema), (2, t), (3, tg), (3, tg.tables[0])):
        for p in PROPS:
            exp = DEFAULT.get(p)
            for lv in levels[start:]:
                if p in lv and want(p, lv[p]) != DEFAULT.get(p):
                    exp = want(p, lv[p])
                    break
            got = d.inherit_null() if p == 'null' else norm(p, d.inherit(p))
            same(got, exp, '{} of {}'.format(p, type(d).__name__))


LINKS = ['a.csv', 'sub/a.csv', '../a.csv', './a.csv', 'http://example.org/x/a.csv', 'https://example.org/a.csv', 'a b.csv', 'a.csv.zip', 'httpdata.csv',
         'x/http://a.csv', 'ä.csv']


@check('links of local descriptions', complete=True, fixed=[(l, k) for l in LINKS for k in ('group', 'table', 'str', 'context')])
def local(x):
    link, kind = x
    with tmpdir() as d:
        os.mkdir(os.path.join(d, 'md'))
        ctx = 'http://www.w3.org/ns/csvw'
        if kind == 'context':
            ctx = [ctx, {'@language': 'en'}]
        md = {'@context': ctx, 'url': link} if kind == 'table' else {'@context': ctx, 'tables': [{'url': link}]}
        p = put(os.path.join(d, 'md'), 'x-metadata.json', json.dumps(md))
        o = (Table if kind == 'table' else TableGroup).from_file(p if kind == 'str' else pathlib.Path(p))
        t = o if kind == 'table' else o.tables[0]
        got = t.url.resolve(t.base)
        if link.startswith('http:') or link.startswith('https:'):
            same(got, link)
        else:
            same(str(got), str(pathlib.Path(d) / 'md' / link))
            same(str(o.base), os.path.join(d, 'md'))
        same(str(Link(link).resolve(pathlib.Path(p))), str(got), 'resolving against the metadata file')


URLS = ['http://example.org/d/md.json', 'https://example.org/md.json', 'http://example.org/a/b/c.json?x=1#y']


@check('links of remote descriptions', complete=True, fixed=[
    (l, u, k, b) for l in LINKS[:6] for u in URLS for k in ('group', 'table') for b in (None, 'at', 'sub/', 'http://other.org/z/')])
def remote(x):
    from urllib.parse import urljoin
    link, url, kind, base = x
    md = {'@context': 'http://www.w3.org/ns/csvw'}
    exp = url.split('?')[0].split('#')[0]
    if base == 'at':
        md['@base'] = exp = 'http://declared.org/q/'
    elif base:
        md['@context'] = ['http://www.w3.org/ns/csvw', {'@base': base}]
        exp = urljoin(exp, base)
    if kind == 'table':
        t = o = Table.from_url(url, data=dict(md, url=link))
    else:
        o = TableGroup.from_url(url, data=dict(md, tables=[{'url': 'o.csv'}, {'url': link}]))
        t = o.tables[1]
    same(o.base, exp, 'base')
    same(t.base, exp, 'base of the table')
    same(t.url.resolve(t.base), urljoin(exp, link))
