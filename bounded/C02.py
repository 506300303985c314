"""C02, bounded: reading generated DSV texts with every combination of dialect flags, against an oracle that
knows the rows the text was made of."""
import io
import itertools
import os
import pathlib

import attr

from csvw.dsv import UnicodeReader, UnicodeReaderWithLineNumber
from csvw.dsv_dialects import Dialect
from bounded.lib import Registry, require, same, tmpdir

check = Registry()
CELLS = ['', 'a', ' x ', '#c', '##c', '#', ' #c', '//', '/ a', '// n', '//// n', 'b c', '\t', '0', 'ä ', 'x\ny', '\n', 'a\n\nb', '"', 'q"q', 'rem', 'remember', 'mer', '- x', '\\', 'a\\b']
PREFIXES = ['#', '#', '#', None, '', '//', 'rem', '*', ' ', '"']
TRIM = {'true': str.strip, 'false': lambda s: s, 'start': str.lstrip, 'end': str.rstrip}


def gen(r):
    spec = {}
    if r.random() < 0.6:
        spec['commentPrefix'] = r.choice(PREFIXES)
    if r.random() < 0.4:
        spec['skipRows'] = r.choice([0, 1, 1, 2, 3, 5, 40])
    if r.random() < 0.4:
        spec['skipColumns'] = r.choice([0, 1, 1, 2, 7])
    if r.random() < 0.5:
        spec['skipBlankRows'] = r.random() < 0.7
    if r.random() < 0.5:
        spec['trim'] = r.choice(['true', 'false', 'start', 'end', True, False])
    if r.random() < 0.4:
        spec['delimiter'] = r.choice([';', '\t', '|'])
    if r.random() < 0.2:
        spec['quoteChar'] = r.choice(["'", '"'])
    if r.random() < 0.2:
        spec['doubleQuote'] = False
    if r.random() < 0.15:
        spec['encoding'] = r.choice(['UTF-8', 'utf-8', 'utf-16', 'UTF-8-BOM'])
    rows = [[r.choice(CELLS) for _ in range(r.choice([0, 1, 1, 2, 3, 3, 6]))] for _ in range(r.choice([0, 1, 2, 4, 7, 12]))]
    if r.random() < 0.3:
        rows += [['#c' if r.random() < 0.5 else 'v'] * r.choice([1, 2]) for _ in range(r.choice([3, 30]))]
    return spec, rows, r.choice(['\n', '\n', '\r\n']), r.choice(['path', 'str', 'file', 'lines']), r.randrange(10**6)


def fixed():
    rows = [['#c', 'x'], [], ['h', 'i'], [''], ['', ''], ['#', ''], ['a', 'x\ny'], ['##  d'], ['b', ' c ']]
    for sr, sc, sb, cp, trim in itertools.product((0, 1, 2, 3, 7), (0, 1, 3), (True, False), ('#', None, ''), ('true', 'false')):
        yield dict(skipRows=sr, skipColumns=sc, skipBlankRows=sb, commentPrefix=cp, trim=trim), rows, '\n', 'file', 0


def text_of(spec, rows, eol, seed):
    import random
    r = random.Random(seed)
    q, delim, dq = spec.get('quoteChar', '"'), spec.get('delimiter', ','), spec.get('doubleQuote', True)

    def fmt(c, alone):
        need = any(x in c for x in (q, delim, '\n', '\r', '\\', ' ')) or (alone and not c)
        if not need and r.random() < 0.8:
            return c
        return q + (c.replace(q, q + q) if dq else c.replace('\\', '\\\\').replace(q, '\\' + q)) + q
    return ''.join(delim.join(fmt(c, len(row) == 1) for c in row) + eol for row in rows)


def expected(spec, rows):
    prefix = spec.get('commentPrefix', '#')
    trim = spec.get('trim', 'false')
    trim = TRIM[str(trim).lower()]
    out, comments, line = [], [], -1
    for row in rows:
        line += 1 + sum(c.count('\n') for c in row)
        comment = bool(row and prefix and row[0].startswith(prefix))
        skipped = line < spec.get('skipRows', 0)
        blank = spec.get('skipBlankRows', False) and not any(row)
        if comment or (row and skipped):
            t = spec.get('delimiter', ',').join(row)
            while prefix and t.startswith(prefix):
                t = t[len(prefix):]
            comments.append((line, t.strip()))
        if not (comment or skipped or blank):
            out.append((line + 1, [trim(c) for c in row][spec.get('skipColumns', 0):]))
    return out, comments


@check('reading with a dialect', gen=gen, n=3000, fixed=fixed)
def reading(x):
    spec, rows, eol, how, seed = x
    text = text_of(spec, rows, eol, seed)
    want, comments = expected(spec, rows)
    d = Dialect(**spec)
    if seed % 4 == 1:       # the same dialect, made from another one which has been used
        other = Dialect(trim='start' if spec.get('trim') == 'true' else 'true', doubleQuote=not spec.get('doubleQuote', True), lineTerminators='x')
        other.trimmer('x'), other.as_python_formatting_parameters()
        d = other.updated(**attr.asdict(d))
    with tmpdir() as t:
        p = os.path.join(t, 'x.csv')
        enc = {'UTF-8-BOM': 'utf-8-sig'}.get(spec.get('encoding', 'utf-8'), spec.get('encoding', 'utf-8'))
        if enc.lower() == 'utf-8' and seed % 3 == 0:
            enc = 'utf-8-sig'
        with io.open(p, 'w', encoding=enc, newline='') as f:
            f.write(text)
        for cls in (UnicodeReaderWithLineNumber, UnicodeReader):
            src = {'path': pathlib.Path(p), 'str': p, 'file': io.StringIO(text, newline=''),
                   'lines': io.StringIO(text, newline='').readlines()}[how]
            with cls(src, dialect=d) as rd:
                got = list(rd)
            if cls is UnicodeReader:
                same(got, [r for _, r in want], 'rows')
            else:
                same(got, want, 'line numbers and rows')
            same(rd.comments, comments, 'comments')


@check('reading without a dialect', gen=lambda r: gen(r)[1:], n=300)
def plain(x):
    rows, eol, how, seed = x
    text = text_of({}, rows, eol, seed)
    with UnicodeReader(io.StringIO(text, newline='')) as rd:
        same(list(rd), rows, 'rows')
    same(rd.comments, [])
