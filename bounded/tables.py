"""Helpers for the bounded checks: CSV files and metadata written without csvw."""
import csv
import io
import json
import os
import warnings

import csvw
from csvw.metadata import TableGroup, Table


def csv_text(rows, **kw):
    f = io.StringIO(newline='')
    csv.writer(f, lineterminator=kw.pop('lineterminator', '\n'), **kw).writerows(rows)
    return f.getvalue()


def put(d, name, content):
    p = os.path.join(d, name)
    with open(p, 'wb') as f:
        f.write(content if isinstance(content, bytes) else content.encode('utf-8'))
    return p


def group(d, tables, **kw):
    """tables: [(url, schema dict, rows incl. header or None[, table props])]; writes md.json and the data"""
    ts = []
    for t in tables:
        url, schema, rows = t[:3]
        if rows is not None:
            put(d, url, csv_text(rows))
        ts.append(dict({'url': url, 'tableSchema': schema}, **(t[3] if len(t) > 3 else {})))
    md = dict({'@context': 'http://www.w3.org/ns/csvw', 'tables': ts}, **kw)
    return TableGroup.from_file(put(d, 'md.json', json.dumps(md)))


def table(d, schema, rows, url='t.csv', **kw):
    if rows is not None:
        put(d, url, csv_text(rows))
    md = dict({'@context': 'http://www.w3.org/ns/csvw', 'url': url, 'tableSchema': schema}, **kw)
    return Table.from_file(put(d, url + '-metadata.json', json.dumps(md)))


class Log:
    """records everything that is logged"""

    def __init__(self):
        self.messages = []

    def _add(self, level):
        def f(msg, *a):
            self.messages.append((level, msg % a if a else msg))
        return f

    def __getattr__(self, level):
        if level in ('warning', 'error', 'info', 'debug', 'warn', 'critical', 'exception'):
            return self._add(level)
        raise AttributeError(level)


def outcome(f, *a, **k):
    """('ok', result, warnings) or ('ValueError', None, warnings); other exceptions propagate"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            r = ('ok', f(*a, **k))
        except ValueError:
            r = ('ValueError', None)
    return r + ([str(x.message) for x in w],)
