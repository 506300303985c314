"""C01, bounded: rows written with many formats are read back."""
import csv
import io
import pathlib

from csvw.dsv import UnicodeReader, UnicodeWriter
from csvw.dsv_dialects import Dialect
from bounded.lib import Registry, Skip, require, same, tmpdir

check = Registry()
CHARS = ['a', 'b', ',', '"', "'", '\\', '\n', '\r', '\r\n', ' ', '\t', ';', '|', '#', 'ä', '', 'é\u4e00', '/', '\x0b', '\x0c',
         '\x1c', '\x85', '\u2028', '\x00', '0', '\ufeff', '""', '\\\\', '""""', ',,', '\n\n', '\\n', '\U0001f600']
ENC = ['utf-16', 'utf-8', 'utf-8-sig', 'utf-32-le', 'UTF-8']


def assume(cond):
    if not cond:
        raise Skip


def table(r, chars=CHARS):
    return [[''.join(r.choice(chars) for _ in range(r.choice([0, 1, 1, 2, 3, 6]))) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))]
            for _ in range(r.choice([0, 1, 2, 3, 8]))]


def spec(r):
    d = {}
    if r.random() < 0.5:
        for k, vs in (('delimiter', [';', '\t', '|', ' ', 'a', 'ä']), ('doubleQuote', [True, False]), ('quoteChar', ["'", None, '|']),
                      ('skipInitialSpace', [True]), ('encoding', ENC + ['UTF-8-BOM']),
                      ('lineTerminators', [['\n'], ['\r\n', '\n'], ['\r'], ['\r\n']])):
            if r.random() < 0.4:
                d[k] = r.choice(vs)
        return 'dialect', d
    for k, vs in (('delimiter', [';', '\t', '|', ' ']), ('quotechar', ["'", '|']), ('escapechar', ['\\', '/']), ('doublequote', [False, True]),
                  ('skipinitialspace', [True]), ('quoting', [0, 1, 2, 3]), ('lineterminator', ['\n', '\r\n', '\r']), ('encoding', ENC),
                  ('dialect', ['excel', 'excel-tab', 'unix'])):
        if r.random() < 0.3:
            d[k] = r.choice(vs)
    return 'params', d


def params(how, d):
    if how == 'dialect':
        return {'dialect': Dialect(commentPrefix=None, **d)}
    return dict(d)


def fmt(how, d):
    if how == 'dialect':
        q = d.get('quoteChar', '"')
        return d.get('delimiter', ','), q, None if d.get('doubleQuote', True) or q is None else '\\', d.get('skipInitialSpace', False)
    return (d.get('delimiter', '\t' if d.get('dialect') == 'excel-tab' else ','), d.get('quotechar', '"'), d.get('escapechar'),
            d.get('skipinitialspace', False))


def sensible(how, d, rows):
    delim, quote, esc, skip = fmt(how, d)
    assume(delim not in (quote, esc) and (quote is None or quote != esc))
    assume(not skip or (delim != ' ' and not any(c.startswith(' ') for row in rows for c in row)))
    assume(not (rows and rows[0] and rows[0][0].startswith('\ufeff')))


def write(target, how, d, rows, many):
    with UnicodeWriter(target, **params(how, d)) as w:
        if many:
            w.writerows(rows)
        else:
            for row in rows:
                w.writerow(row)
    return w


@check('round trip', gen=lambda r: spec(r) + (table(r), r.choice(['memory', 'str', 'path', 'file']), r.random() < 0.5), n=2500)
def roundtrip(x):
    how, d, rows, target, many = x
    sensible(how, d, rows)
    with tmpdir() as tmp:
        p = str(pathlib.Path(tmp) / 'x.csv')
        f = {'memory': None, 'str': p, 'path': pathlib.Path(p), 'file': None}[target]
        if target == 'file':
            f = io.StringIO(newline='')
        try:
            w = write(f, how, d, rows, many)
        except csv.Error:
            return
        if target in ('memory', 'file'):
            text = w.read() if target == 'memory' else f.getvalue().encode('utf-8')
            require(isinstance(text, bytes), 'the content is not bytes')
            text = text.decode('utf-8')
            source = io.StringIO(text, newline='')
        else:
            source = p
        with UnicodeReader(source, **params(how, d)) as rd:
            same(list(rd), rows, 'rows read back')
        if target in ('str', 'path'):
            with open(p, encoding=params(how, d)['dialect'].python_encoding if how == 'dialect' else d.get('encoding', 'utf-8'),
                      newline='') as fp:
                content = fp.read()
            term = d.get('lineTerminators', ['\r\n'])[0] if how == 'dialect' else d.get(
                'lineterminator', '\n' if d.get('dialect') == 'unix' else '\r\n')
            if rows:
                require(content.endswith(term), 'the line terminator')


@check('defaults', gen=lambda r: (table(r),), n=600)
def defaults(x):
    """text written without any parameters, read with the default dialect"""
    rows, = x
    sensible('params', {}, rows)
    rows = [row for row in rows if not (row and row[0].startswith('#'))]
    w = write(None, 'params', {}, rows, True)
    with UnicodeReader(io.StringIO(w.read().decode('utf8'), newline=''), dialect=Dialect()) as rd:
        same(list(rd), rows, 'rows read back')


def gen_dicts(r):
    keys = r.sample(['a', 'b', 'c c', 'ä', ''], r.choice([1, 2, 3]))
    return spec(r) + (keys, [[r.choice(CHARS) for _ in keys] for _ in range(r.choice([0, 1, 2, 5]))], r.choice([0, 0, 1, 2]),
                      r.choice([0, 1, 2]))


@check('dicts', gen=gen_dicts, n=500)
def dicts(x):
    how, d, keys, rows, before, after = x
    want = [['x', 'y']] * before + ([keys] if rows and not before else []) + rows
    sensible(how, d, want + [['x']])
    try:
        with UnicodeWriter(None, **params(how, d)) as w:
            for _ in range(before):
                w.writerow(['x', 'y'])
            w.writerows(dict(zip(keys, row)) for row in rows)
            if after == 1 and rows:
                w.writerows([dict(zip(keys, rows[0]))])
                want = want + rows[:1]
            elif after == 2:
                w.writerows([['z', 'z']])
                want = want + [['z', 'z']]
    except csv.Error:
        return
    with UnicodeReader(io.StringIO(w.read().decode('utf8'), newline=''), **params(how, d)) as rd:
        same(list(rd), want, 'rows read back')
