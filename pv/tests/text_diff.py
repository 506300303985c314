"""Differential test of the text model against CPython: every method on random concrete texts."""
import random
import re

from pv import boot  # noqa: F401
from pv import text as tx
from pv.text import SText

ALPHA = 'abAB01 9_-.,;:|\n\t\r%äßéΩ\u0660\u2003e+E/'


def T(s):
    return SText([ord(c) for c in s])


def norm(x):
    if isinstance(x, SText):
        return ''.join(chr(c) for c in x.chars)
    if isinstance(x, (list, tuple)):
        return type(x)(norm(y) for y in x) if type(x) is tuple else [norm(y) for y in x]
    return x


def call(f):
    try:
        return 'ok', norm(f())
    except (ValueError, IndexError, TypeError) as e:
        return 'exc', type(e)


def main(n=20000, seed=1):
    r = random.Random(seed)

    def t(k=8):
        return ''.join(r.choice(ALPHA) for _ in range(r.randrange(k)))
    METH = ['find', 'rfind', 'index', 'count', 'startswith', 'endswith', 'replace', 'split', 'rsplit', 'partition', 'rpartition', 'strip',
            'lstrip', 'rstrip', 'ljust', 'rjust', 'zfill', 'isdigit', 'isdecimal', 'isalpha', 'isalnum', 'isspace', 'removeprefix',
            'removesuffix', 'lower', 'upper']
    PATS = [r'(\d+)-(\d*)', r'[a-c]+?(b|B)?', r'^\s*(?P<x>\w+)', r'(Z|[+-][0-2][0-9]:[0-5][0-9])$', r'([0-9]{1,3},)*[0-9]+', r'(a|ab)(c|b01)?$', r'\s+',
            r'[^\W\d]+', r'(?:x|a)*b', r'.+$', r'\ba', r'(.)\1', r'(?!a).', r'a??b', r'(,,)+', r'\.{0,2}']
    for k in range(n):
        s = t(12)
        m = r.choice(METH)
        a = {'replace': (t(3) or 'a', t(3)), 'ljust': (r.randrange(10), '0'), 'rjust': (r.randrange(10), '0'), 'zfill': (r.randrange(10),)}.get(m)
        if a is None:
            if m.startswith('is') or m in ('lower', 'upper'):
                a = ()
            elif m in ('strip', 'lstrip', 'rstrip', 'split'):
                a = r.choice([(), (t(3) or ' ',)])
            elif m == 'rsplit':
                a = (t(2) or ',', r.choice([1, -1]))
            else:
                a = (t(3) or 'b',)
        want = call(lambda: getattr(s, m)(*a))
        got = call(lambda: getattr(T(s), 'm_' + m)(*a))
        assert want == got, (s, m, a, want, got)
        assert call(lambda: int(s)) == call(lambda: (lambda v: v if isinstance(v, int) else v.t.as_long())(tx.parse_int(T(s)))), s
        d = t(6).translate({ord(c): str(r.randrange(10)) for c in 'abABe'})
        assert call(lambda: int(d)) == call(lambda: (lambda v: v if isinstance(v, int) else v.t.as_long())(tx.parse_int(T(d)))), d
        p = re.compile(r.choice(PATS))
        for name in ('match', 'search', 'fullmatch'):
            x, y = getattr(p, name)(s), tx.pattern_method(p, name, T(s), (), {})
            assert (x is None) == (y is None or y is False), (p, name, s)
            if x:
                assert x.span() == y.span() and x.groups() == norm(y.groups()), (p, name, s, x, y.span(), y.groups())
        assert [x.span() for x in p.finditer(s)] == [x.span() for x in tx.Matcher(p, T(s)).finditer()], (p, s)
        assert p.sub(r'<\g<0>>', s) == norm(tx.sub(p, r'<\g<0>>', T(s))), (p, s)
        assert [x for x in p.split(s)] == norm(tx.split(p, T(s))), (p, s)
        u = t(4)
        assert (s < u) == (T(s) < u) and (s >= u) == (T(s) >= u)
        assert (u in s) == T(s).contains(u)
    print('text model agrees with CPython')


if __name__ == '__main__':
    main()
