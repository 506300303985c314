"""SQL statements with symbolic parts: from the pieces of a text to its structure."""
import re

from pv.h import *
from pv.values import Proxy


class Bad(Exception):
    """not the SQL we can read"""


def pieces(x):
    if isinstance(x, str):
        return [x]
    if isinstance(x, SVal) and x.t.get_id() in RT.concats:
        return RT.concats[x.t.get_id()][1]
    return [x]


def tokens(x):
    """('name', piece), ('text', pieces), ('value', piece), ('word', upper case), (punctuation, None)"""
    res, quote = [], None
    for p in pieces(x):
        if not isinstance(p, str):
            if quote is None:
                res.append(('value', p))
            else:
                quote[1].append(p)
            continue
        i = 0
        while i < len(p):
            c = p[i]
            if quote is not None:
                if c == quote[0]:
                    if p[i + 1:i + 2] == c:
                        quote[1].append(c)
                        i += 2
                        continue
                    res.append(('text' if quote[0] == "'" else 'name', quote[1]))
                    quote = None
                else:
                    quote[1].append(c)
                i += 1
            elif c in '`"\'':
                quote, i = (c, []), i + 1
            elif c.isspace():
                i += 1
            else:
                m = re.match(r'[A-Za-z_]\w*|-?\d[\w.+]*|>=|<=|!=|.', p[i:], re.S)
                t, i = m.group(), i + m.end()
                if t[0].isalpha() or t[0] == '_':
                    res.append(('word', t.upper()))
                elif t[0].isdigit() or t[0] == '-' and len(t) > 1:
                    res.append(('value', t))
                else:
                    res.append((t, None))
    if quote is not None:
        raise Bad('unterminated')
    return res


class Reader:
    def __init__(self, x):
        self.t, self.i = tokens(x), 0

    def at(self, *words):
        """are these words or punctuation next?"""
        for k, w in enumerate(words):
            if self.i + k >= len(self.t):
                return False
            t = self.t[self.i + k]
            if t != ('word', w) and t != (w, None):
                return False
        return True

    def maybe(self, *words):
        if self.at(*words):
            self.i += len(words)
            return True
        return False

    def need(self, *words):
        if not self.maybe(*words):
            raise Bad('{} expected: {}'.format(words, self.t[self.i:self.i + 4]))

    def end(self):
        return self.i >= len(self.t)

    def name(self):
        if self.end() or self.t[self.i][0] != 'name':
            raise Bad('name expected: {}'.format(self.t[self.i:self.i + 4]))
        r = self.t[self.i][1]
        if len(r) != 1 and not all(isinstance(p, str) for p in r):
            r = [RT.concat(r)]
        self.i += 1
        return r[0] if len(r) == 1 else ''.join(r)

    def names(self):
        self.need('(')
        res = [self.name()]
        while self.maybe(','):
            res.append(self.name())
        self.need(')')
        return res

    def word(self):
        if self.end() or self.t[self.i][0] != 'word':
            raise Bad('word expected: {}'.format(self.t[self.i:self.i + 4]))
        self.i += 1
        return self.t[self.i - 1][1]

    def operand(self):
        """('column', name) ('value', x) ('text', x) (function, operand) ('cast', operand, type)"""
        if self.maybe('CAST'):
            self.need('(')
            a = self.operand()
            self.need('AS')
            t = self.word()
            self.need(')')
            return 'cast', a, t
        if self.end():
            raise Bad('operand expected')
        k, v = self.t[self.i]
        if k == 'name':
            return 'column', self.name()
        if k == 'value':
            self.i += 1
            return 'value', v
        if k == 'text':
            self.i += 1
            return 'text', RT.concat(v) if len(v) != 1 else v[0]
        if k == '(':
            self.i += 1
            a = self.operand()
            self.need(')')
            return a
        f = self.word().lower()
        self.need('(')
        a = self.operand()
        self.need(')')
        return f, a

    def condition(self):
        """list of comparisons"""
        res = []
        while True:
            if self.maybe('('):
                res.extend(self.condition())
                self.need(')')
            else:
                a = self.operand()
                if self.maybe('BETWEEN'):
                    b = self.operand()
                    self.need('AND')
                    res.extend([(a, '>=', b), (a, '<=', self.operand())])
                else:
                    op = [o for o in ('>=', '<=', '>', '<', '=') if self.at(o)]
                    if not op and self.maybe('=', '='):
                        op = ['=']
                    elif not op:
                        raise Bad('operator expected: {}'.format(self.t[self.i:self.i + 4]))
                    else:
                        self.need(op[0])
                    b = self.operand()
                    flip = {'>=': '<=', '<=': '>=', '>': '<', '<': '>', '=': '='}
                    res.append((a, op[0], b) if a[0] not in ('value', 'text') else (b, flip[op[0]], a))
            if not self.maybe('AND'):
                return res

    def column(self):
        """(name, type, not null?, comparisons)"""
        n, t = self.name(), self.word()
        notnull, check = False, []
        while not self.end() and not self.at(',') and not self.at(')'):
            if self.maybe('NOT', 'NULL'):
                notnull = True
            elif self.maybe('CHECK', '('):
                check.extend(self.condition())
                self.need(')')
            else:
                raise Bad('constraint expected: {}'.format(self.t[self.i:self.i + 4]))
        return n, t, notnull, check

    def table(self):
        """(name, columns, primary key, foreign keys)"""
        self.need('CREATE', 'TABLE')
        self.maybe('IF', 'NOT', 'EXISTS')
        n, cols, pk, fks = self.name(), [], [], []
        self.need('(')
        while True:
            if self.maybe('PRIMARY', 'KEY'):
                if pk:
                    raise Bad('second primary key')
                pk = self.names()
            elif self.maybe('FOREIGN', 'KEY'):
                a = self.names()
                self.need('REFERENCES')
                t = self.name()
                b = self.names()
                acts = []
                while self.maybe('ON'):
                    acts.append((self.word(), self.word()))
                fks.append((a, t, b, acts))
            else:
                if pk or fks:
                    raise Bad('column after constraints')
                cols.append(self.column())
            if not self.maybe(','):
                break
        self.need(')')
        self.maybe(';')
        if not self.end():
            raise Bad('more after the table')
        return n, cols, pk, fks


def read(x, what):
    """what: column, table"""
    r = Reader(x)
    res = getattr(r, what)()
    if not r.end():
        raise Bad('more text: {}'.format(r.t[r.i:]))
    return res
