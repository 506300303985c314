"""C21: the validation verdict and the exit status reflect the problems found."""
import argparse
import pathlib
import warnings
from pv.h import *
import csvw.metadata as M
import csvw.__main__ as main

HARNESSES, harness = registry()

ASSUMPTIONS = [
    'contract of Table.iterdicts (C11), not strict: every problem of a cell is reported as a warning',
    'contracts of Table.check_primary_key (C13) and check_referential_integrity (C14): a problem gives False or a ValueError',
    'contract of the warnings module: what happens to a warning depends on the filter in force, which the user may set '
    'to default, ignore or error; catch_warnings restores the filter',
    'only warnings of category UserWarning are issued (others are no problems of the data)',
]
ROWS = uf('rows', INT, INT)


class H:
    pass


class Boom(Exception):
    pass


class Ghost:
    def __init__(self):
        self.taken = self.total = self.pos = 0   # rows of the current table
        self.pk = True           # the primary key of the current table is checked
        self.bad = False         # a check has failed
        self.lost = False        # a warning was lost to a filter
        self.refs = False        # references have been checked


class Catch:
    """warnings.catch_warnings"""
    __pv_model__ = True

    def __init__(self, *, record=False, action=None, category=Warning, **kw):
        self.record, self.action, self.category = record, action, category

    def __enter__(self):
        self.saved = H.action
        if self.action:
            H.action = self.action
        self.log = VList() if self.record else None
        H.logs.append(self.log)
        return self.log

    def __exit__(self, *a):
        H.logs.pop()
        H.action = self.saved


def simplefilter(action, category=Warning, lineno=0, append=False):
    if issubclass(UserWarning, category) and not append:
        H.action = action


def filterwarnings(action, message='', category=Warning, module='', lineno=0, append=False):
    if not message and not module:
        simplefilter(action, category, lineno, append)


def resetwarnings():
    H.action = 'default'


def warn(msg):
    """contract of warnings.warn"""
    ctx = H.ctx
    ctx.cover('warning')
    if H.action == 'error':
        raise UserWarning('contract: warning')
    if H.action == 'ignore':
        H.g.lost = True
        return
    list.append(H.all, msg)
    log = H.logs[-1] if H.logs else None
    if log is not None:
        list.append(log, msg)


C = {'warnings.catch_warnings': Catch, 'warnings.simplefilter': simplefilter, 'warnings.filterwarnings': filterwarnings,
     'warnings.resetwarnings': resetwarnings}


def setup(ctx):
    H.ctx, H.g, H.logs, H.all = ctx, Ghost(), [], VList()
    H.action = ['default', 'ignore', 'error'][ctx.choose(3)]
    H.fine = False
    ctx.on_warn = warn
    ctx.roots.update(g=H.g, all=H.all)


class Message:
    """a recorded warning"""
    __pv_model__ = True

    def __init__(self):
        self.message = 'a warning'


class BadTemplate:
    """a failed check has been reported"""

    def instances(self, kinds):
        return [(p, q) for p, k in kinds.items() if k == 'bool' for q, j in kinds.items() if j == 'log']

    def formula(self, entry, now, p, q):
        return Implies(bt(now[p]), Or(length(now[q]) > 0, bt(entry[p])))


class GrowTemplate:
    """nothing is removed from a list of warnings"""

    def instances(self, kinds):
        return [(q,) for q, j in kinds.items() if j == 'log']

    def formula(self, entry, now, q):
        return length(now[q]) >= length(entry[q])


class Table:
    __pv_model__ = True

    def __init__(self, i):
        self.i = i

    def iterdicts(self, log=None, with_metadata=False, fname=None, _Row=None, strict=True):
        ctx, g = H.ctx, H.g
        n = ROWS(self.i)
        ctx.fact(n >= 0)
        g.total, g.taken = SInt.of(n), 0
        ctx.prove('problems of cells are reported', BoolVal(log is None))
        st = Stream(SSeq(n, lambda j: {}, 'iter'), [self.row])
        st.strict = strict
        return st

    def row(self, v, st):
        ctx, g = H.ctx, H.g
        g.taken = SInt.of(it(g.taken) + 1)
        if not H.fine and ctx.choose(2):
            ctx.cover('bad cell')
            if st.strict:
                raise ValueError('contract: bad cell')
            warn('bad cell')

    def check_primary_key(self, log=None):
        ctx, g = H.ctx, H.g
        ctx.prove('problems with keys are reported', BoolVal(log is None))
        g.pk = True
        if not H.fine and ctx.choose(2):
            ctx.cover('bad key')
            g.bad = True
            if ctx.choose(2):
                raise ValueError('contract: bad key')
            return False
        return True


def refs(self, data=None, log=None, strict=False):
    ctx, g = H.ctx, H.g
    ctx.prove('the strict check is made', BoolVal(strict is True and log is None))
    g.refs = True
    if not H.fine and ctx.choose(2):
        ctx.cover('bad reference')
        g.bad = True
        how = ctx.choose(3)
        if how == 1:
            warn('bad reference')
        elif how == 2:
            raise ValueError('contract: bad reference')
        return False
    if not H.fine and ctx.choose(2):
        warn('something else')
    return True


def next_table(v, st):
    complete('every table is read and its key checked')
    H.g.pk = False
    H.g.taken, H.g.total = 0, 1


def complete(what):
    g = H.g
    H.ctx.prove(what, Or(bt(g.bad), And(it(g.taken) == it(g.total), bt(g.pk))))


@harness('CSVW.is_valid', contracts=dict(C, **{'csvw.metadata.TableGroup.check_referential_integrity': refs}))
def is_valid(ctx):
    ctx.expect_cover('valid', 'invalid', 'bad cell', 'bad key', 'bad reference')
    setup(ctx)
    ctx.templates.extend([BadTemplate(), GrowTemplate()])
    g = H.g
    c = object.__new__(M.CSVW)
    early = ctx.choose(2)
    c.warnings = VList([Message()] if early else [])
    n = Int('tables')
    ctx.assume(n >= 0)
    c.t = M.TableGroup()
    c.tables = SSeq(n, Table, 'list')
    c.tables.hooks = (next_table,)
    ctx.roots['c'] = c
    try:
        r = c.is_valid
    except Exception as e:  # noqa
        ctx.prove('the check never fails', BoolVal(False), repr(e))
        return
    ctx.prove('no filter hides a warning', Not(bt(g.lost)))
    problem = Or(BoolVal(early == 1), bt(g.bad), length(H.all) > 0)
    ctx.prove('valid if and only if there is no problem', bt(r) == Not(problem))
    if ctx.branch(bt(r)):
        ctx.cover('valid')
        complete('every table is read and its key checked')
        ctx.prove('references are checked', bt(g.refs))
        return
    ctx.cover('invalid')
    H.fine = True
    c.tables = SSeq(n, Table, 'list')
    ctx.prove('once invalid it stays invalid', Not(bt(c.is_valid)))


@harness('CSVW.tablegroup', kind='shape', bound='one table, or a group')
def tablegroup(ctx):
    ctx.expect_cover('table', 'group')
    c = object.__new__(M.CSVW)
    d = {'@context': 'http://www.w3.org/ns/csvw', 'url': 't.csv', 'tableSchema': {'columns': [{'name': 'a'}]}}
    if ctx.choose(2):
        ctx.cover('group')
        c.t = M.TableGroup.fromvalue({'@context': 'http://www.w3.org/ns/csvw', 'tables': [d, dict(d, url='u.csv')]})
        c.tables = c.t.tables
        ctx.prove('the group itself', BoolVal(c.tablegroup is c.t))
        return
    ctx.cover('table')
    c.t = M.Table.fromvalue(d)
    c.t._fname = pathlib.Path('dir/md.json')
    c.tables = [c.t]
    tg = c.tablegroup
    ctx.prove('a group with the table', BoolVal(isinstance(tg, M.TableGroup) and list(tg.tables) == [c.t] and tg.tables[0] is c.t))


# ---------------------------------------------------------------- header
class HeaderOnly:
    """the line-numbered reader of a file with a header row and nothing else"""
    __pv_model__ = True

    def __init__(self, header):
        self.rows, self.comments = [(1, header)], []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __iter__(self):
        return self

    def __next__(self):
        if not self.rows:
            raise StopIteration
        return self.rows.pop()


COLUMNS = [
    [], [{'titles': {'de': 'A'}}, {'titles': {'de': 'B', 'en': 'C'}}], [{'name': 'a'}], [{'titles': 'A'}], [{'titles': ['A', 'B']}, {'name': 'b', 'titles': 'C'}], [{'titles': {'en': 'A', 'de': ['A', 'B']}}],
    [{'titles': {'de': 'A', 'en': ['A', 'B']}}, {'titles': {'und': 'A', 'de': 'B'}}], [{'name': 'a', 'titles': {'de': ['A', 'a'], 'en-GB': 'B'}}]]
LANGS = [('en', None), (None, 'en'), ('en-US', 'de'), ('de', 'en'), (None, 'fr'), ('de-AT', None)]


def has(titles, v, langs=None):
    titles = titles if isinstance(titles, dict) else {'und': titles}
    return Or(*[v == lift(x) for k, xs in titles.items() if langs is None or k.split('-')[0] in langs
                for x in (xs if isinstance(xs, list) else [xs])])


@harness('Table.iterdicts (header against description)', kind='shape',
         contracts=dict(C, **{'csvw.dsv.UnicodeReaderWithLineNumber': lambda f, *a, **k: HeaderOnly(list(H.header))}),
         bound='the columns of COLUMNS and languages of LANGS; up to three header cells of any text')
def header(ctx):
    ctx.expect_cover('compatible', 'incompatible', 'too many')
    setup(ctx)
    H.action = 'default'
    cols, (lang, glang) = COLUMNS[ctx.choose(len(COLUMNS))], LANGS[ctx.choose(len(LANGS))]
    H.header = [SVal(V.S(Int('header%d' % i))) for i in range(ctx.choose(4))]
    d = dict({'url': 't.csv', 'tableSchema': {'columns': cols}}, **({'lang': lang} if lang else {}))
    tg = M.TableGroup.fromvalue(dict(CTX, tables=[d], **({'lang': glang} if glang else {})))
    ctx.prove('the description is correct', length(H.all) == 0)
    rows = list(tg.tables[0].iterdicts(strict=False))
    ctx.prove('no row is invented', BoolVal(not rows))
    many = bool(cols) and len(H.header) > len(cols)
    langs = ['und', (lang or glang).split('-')[0]]
    bad = [BoolVal(many)]
    for x, c in zip(H.header, cols):
        x = lift(x)
        if 'name' not in c:
            bad.append(Not(has(c['titles'], x)))
        if c.get('titles'):
            bad.append(And(has(c['titles'], x), Not(has(c['titles'], x, langs)), *([x != lift(c['name'])] if 'name' in c else [])))
    ctx.cover('too many' if many else 'compatible' if ctx.branch(Not(Or(*bad))) else 'incompatible')
    ctx.prove('a header that does not match the description is a problem, and no other', (length(H.all) > 0) == Or(*bad))


# ---------------------------------------------------------------- loading
def may(what, exc=ValueError):
    """a problem while loading: a warning or an exception"""
    k = H.ctx.choose(3) if H.loaded is None or H.loaded == what else 0
    if k == 1:
        H.loaded = what
        H.ctx.cover('warned')
        warn(what)
    elif k == 2:
        H.loaded = what
        H.ctx.cover('failed')
        raise exc('contract: ' + what)


def get_json_(f):
    ctx = H.ctx
    if not H.is_json:
        raise M.json.decoder.JSONDecodeError('contract: not JSON', '', 0)
    may('reading metadata')
    return H.md


def locate(url=None):
    may('locating metadata')
    return H.md, H.no_header


def from_any(cls, url, data=None):
    H.ctx.prove('the metadata found is used', BoolVal(data is H.md))
    may('parsing metadata')
    return H.t


def validate_schema(self, strict=False):
    may('validating the schema')
    H.schema = strict
    return True


LOAD = dict(C, **{
    'csvw.metadata.get_json': get_json_, 'csvw.metadata.CSVW.locate_metadata': locate,
    'csvw.metadata.TableLike.from_url': from_any, 'csvw.metadata.TableLike.from_file': from_any,
    'csvw.metadata.TableGroup.from_url': from_any, 'csvw.metadata.TableGroup.from_file': from_any,
    'csvw.metadata.Table.from_url': from_any, 'csvw.metadata.Table.from_file': from_any,
    'csvw.metadata.TableGroup.validate_schema': validate_schema})
TAB = {'url': 't.csv', 'tableSchema': {'columns': [{'name': 'a'}, {'name': 'b'}]}}
CTX = {'@context': 'http://www.w3.org/ns/csvw'}
MDS = {
    'group': dict(CTX, tables=[TAB]), 'table': dict(CTX, **TAB), 'no context': TAB, 'other context': dict(TAB, **{'@context': 'http://x.org'}),
    'empty group': dict(CTX, tables=[]), 'no list': dict(CTX, tables={'url': 'x'})}


@harness('CSVW.__init__', contracts=LOAD, kind='shape', bound='the metadata documents of MDS')
def init(ctx):
    ctx.expect_cover('loaded', 'warned', 'failed', 'refused')
    setup(ctx)
    g = H.g
    what = sorted(MDS)[ctx.choose(len(MDS))]
    H.md = MDS[what]
    H.is_json, H.no_header, H.loaded, H.schema = ctx.choose(2) == 1, ctx.choose(2) == 1, None, None
    url = ['http://example.org/md.json', 'dir/md.json'][ctx.choose(2)]
    H.t = (M.TableGroup if 'tables' in H.md else M.Table).fromvalue(dict(CTX, **(
        {'tables': [TAB]} if 'tables' in H.md else TAB))) if what in ('group', 'table') else None
    validate = ctx.choose(2) == 1
    k, c = run(M.CSVW, url, validate=validate)
    wrong = what not in ('group', 'table')
    if k == 'exc':
        if wrong and not from_contract((k, c)):
            ctx.cover('refused')
            ctx.prove('metadata that cannot be processed', BoolVal(isinstance(c, ValueError)), repr(c))
        elif isinstance(c, UserWarning):
            ctx.prove('warnings become errors only if wanted', BoolVal(not validate and H.action == 'error'))
        else:
            ctx.prove('only failures of loading', BoolVal(from_contract((k, c))), repr(c))
        return
    ctx.prove('metadata that cannot be processed is refused', BoolVal(not wrong))
    ctx.cover('loaded')
    ctx.prove('the warnings issued so far are kept', And(
        BoolVal(not validate or not g.lost), BoolVal(len(c.warnings) == (len(H.all) if validate else 0))))
    ctx.prove('the filter is restored', BoolVal(not H.logs))
    ctx.prove('the description is kept', BoolVal(c.t is H.t), repr((what, type(c.t), type(H.t))))
    ctx.prove('with all its tables', BoolVal([t for t in c.tables] == (list(H.t.tables) if what == 'group' else [H.t])))


# ---------------------------------------------------------------- exit status
class Dataset:
    __pv_model__ = True

    def __init__(self):
        self.warnings = [Message()]

    @property
    def is_valid(self):
        if H.ctx.choose(2):
            H.ctx.cover('data cannot be processed')
            raise H.error('contract: data')
        H.verdict = fresh_bool('valid')
        return H.verdict


def csvw_(url, md_url=None, validate=False, **kw):
    H.ctx.prove('the given dataset is validated', BoolVal(url == 'dir/md.json' and md_url is None and validate is True))
    if H.ctx.choose(2):
        H.ctx.cover('metadata cannot be processed')
        raise H.error('contract: metadata')
    H.created += 1
    return Dataset()


class Exited(Exception):
    pass


def exit_(code=None):
    raise Exited(code)


CLI = {'csvw.metadata.CSVW': csvw_, 'builtins.print': lambda *a, **k: None, 'sys.exit': exit_}


@harness('csvwvalidate', contracts=CLI)
def cli(ctx):
    ctx.expect_cover('data cannot be processed', 'metadata cannot be processed', 'verdict')
    H.ctx, H.verdict, H.created = ctx, None, 0
    H.error = [ValueError, UnicodeError, M.json.JSONDecodeError][ctx.choose(3)]
    if H.error is M.json.JSONDecodeError:
        H.error = lambda m: M.json.JSONDecodeError(m, '', 0)
    elif H.error is UnicodeError:
        H.error = lambda m: UnicodeDecodeError('utf-8', b'x', 0, 1, m)
    args = argparse.Namespace(url='dir/md.json', verbose=ctx.choose(2) == 1)
    test = ctx.choose(2) == 1
    k, r = run(main.csvwvalidate, args, test=test) if test else run(main.csvwvalidate, args)
    if not test:
        ctx.prove('the process exits with a status', BoolVal(k == 'exc' and isinstance(r, Exited)), repr(r))
        r = r.args[0]
    else:
        ctx.prove('a status is returned', BoolVal(k == 'ok'), repr(r))
    if H.verdict is None:
        ctx.prove('2 if metadata or data cannot be processed', BoolVal(type(r) is int and r == 2), repr(r))
    else:
        ctx.cover('verdict')
        ctx.prove('0 for valid, 1 for invalid', it(r) == If(bt(H.verdict), 0, 1))
