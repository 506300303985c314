"""Texts with symbolic characters.

SText: a text of known length whose characters are code points (ints or z3 integers).  The string
methods, formatting and regular expressions (a backtracking matcher over the parsed pattern of the real
code) are executed character by character; tests of characters become branches.
"""
import re
import sys
import unicodedata

import z3

try:
    import re._parser as sre_parse
    import re._constants as sc
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as sc

from .core import Ctx, Unsupported
from . import values as vv
from .values import V, Proxy, SInt, SVal, SBool, VList, VDict, sbool, bt, it, is_sym, nativize

CACHE = {}


def ctx():
    return Ctx.cur


def simp(c):
    if isinstance(c, int):
        return c
    c = z3.simplify(c)
    return c.as_long() if z3.is_int_value(c) else c


def ranges(name):
    """maximal ranges of code points with a property"""
    if name not in CACHE:
        f = {'digit': lambda c: unicodedata.category(c) == 'Nd', 'space': str.isspace,
             'word': lambda c: c.isalnum() or c == '_', 'mn': lambda c: unicodedata.category(c) == 'Mn',
             'alpha': str.isalpha, 'alnum': str.isalnum, 'isdigit': str.isdigit, 'cc': lambda c: unicodedata.category(c) == 'Cc',
             're_space': lambda c: bool(re.match(r'\s', c)), 'decimal': str.isdecimal,
             'xid_continue': lambda c: ('a' + c).isidentifier()}[name]
        out, start = [], None
        for c in range(sys.maxunicode + 2):
            ok = c <= sys.maxunicode and bool(f(chr(c)))
            if ok and start is None:
                start = c
            elif not ok and start is not None:
                out.append((start, c - 1))
                start = None
        CACHE[name] = out
    return CACHE[name]


def within(c, rs):
    if isinstance(c, int):
        return any(a <= c <= b for a, b in rs)
    return z3.Or(*[c == a if a == b else z3.And(a <= c, c <= b) for a, b in rs]) if rs else False


def in_class(c, name):
    """bool or formula: the character has the property"""
    if isinstance(c, int):
        return within(c, ranges(name))
    low = [(a, min(b, 127)) for a, b in ranges(name) if a < 128]
    if known(c < 128):
        return within(c, low)
    return within(c, ranges(name))


def known(f):
    """is the formula implied on this path?"""
    f = z3.simplify(f)
    if z3.is_true(f):
        return True
    if z3.is_false(f):
        return False
    c = ctx()
    k = f.get_id()
    if c.known.get(k) is not None:
        return c.known[k]
    return c.check(z3.Not(f)) == z3.unsat


def test(f):
    if isinstance(f, bool):
        return f
    return ctx().branch(f)


def chars_of(x):
    if isinstance(x, str):
        return [ord(c) for c in x]
    if isinstance(x, SText):
        return x.chars
    raise Unsupported('characters of {}'.format(type(x).__name__))


def text(chars):
    chars = [simp(c) for c in chars]
    if all(isinstance(c, int) for c in chars):
        return ''.join(chr(c) for c in chars)
    return SText(chars)


def concat(pieces):
    for p in pieces:
        h = getattr(type(p), 'concat_texts', None)
        if h is not None:
            return h(pieces)
    out = []
    for p in pieces:
        out.extend(chars_of(p))
    return text(out)


class Text(Proxy):
    __slots__ = ()
    __pv_text__ = True


def ceq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return a == b


def conj(fs):
    out = []
    for f in fs:
        if isinstance(f, bool):
            if not f:
                return False
            continue
        out.append(f)
    return z3.And(*out) if out else True


class SText(Text):
    __slots__ = ('chars',)

    def __init__(self, chars):
        self.chars = chars

    # ------------------------------------------------------------ basics
    def length(self):
        return len(self.chars)

    def __bool__(self):
        return bool(self.chars)

    def same(self, o):
        if isinstance(o, Text) and not isinstance(o, SText):
            return o.same(self)
        if not isinstance(o, (str, SText)):
            return False
        o = chars_of(o)
        if len(o) != len(self.chars):
            return False
        f = conj(ceq(a, b) for a, b in zip(self.chars, o))
        return f if isinstance(f, bool) else sbool(f)

    def __eq__(self, o):
        if isinstance(o, SVal):
            raise Unsupported('comparison of a text and an opaque value')
        return self.same(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else sbool(z3.Not(r.t))

    __hash__ = Proxy.__hash__

    def less(self, o, strict):
        a, b = self.chars, chars_of(o)
        for x, y in zip(a, b):
            if test(x == y if not (isinstance(x, int) and isinstance(y, int)) else bool(x == y)):
                continue
            return test(x < y)
        return len(a) < len(b) if strict else len(a) <= len(b)

    def __lt__(self, o):
        return self.less(o, True)

    def __le__(self, o):
        return self.less(o, False)

    def __gt__(self, o):
        return not self.less(o, False)

    def __ge__(self, o):
        return not self.less(o, True)

    def __repr__(self):
        return 'SText({})'.format(''.join(chr(c) if isinstance(c, int) else '?' for c in self.chars))

    def __pv_term__(self):
        key = ('text',) + tuple(c if isinstance(c, int) else ('t', c.get_id()) for c in self.chars)
        terms = ctx().__dict__.setdefault('text_terms', {})
        if key not in terms:
            terms[key] = (V.S(z3.Int(ctx().fresh('text'))), list(self.chars))
        return terms[key][0]

    # ------------------------------------------------------------ items
    def item(self, k):
        n = len(self.chars)
        if isinstance(k, slice):
            if any(isinstance(x, Proxy) for x in (k.start, k.stop, k.step)):
                raise Unsupported('slice with symbolic bounds')
            return text(self.chars[k])
        if isinstance(k, SInt):
            for j in range(-n, n):
                if test(k.t == j):
                    return text([self.chars[j]])
            raise IndexError('string index out of range')
        return text([self.chars[k]])

    def items(self):
        return [text([c]) for c in self.chars]

    def find_at(self, sub, i):
        """formula: sub occurs at i"""
        sub = chars_of(sub)
        if i + len(sub) > len(self.chars):
            return False
        return conj(ceq(a, b) for a, b in zip(self.chars[i:], sub))

    def contains(self, sub):
        fs = [self.find_at(sub, i) for i in range(len(self.chars) - len(chars_of(sub)) + 1)]
        if any(f is True for f in fs):
            return True
        fs = [f for f in fs if f is not False]
        return sbool(z3.Or(*fs)) if fs else False

    # ------------------------------------------------------------ methods
    def m_find(self, sub, start=0):
        for i in range(start, len(self.chars) - len(chars_of(sub)) + 1):
            if test(self.find_at(sub, i)):
                return i
        return -1

    def m_rfind(self, sub):
        for i in reversed(range(len(self.chars) - len(chars_of(sub)) + 1)):
            if test(self.find_at(sub, i)):
                return i
        return -1

    def m_index(self, sub, start=0):
        i = self.m_find(sub, start)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def m_count(self, sub):
        return len(self.m_split(sub)) - 1

    def m_startswith(self, p):
        if isinstance(p, tuple):
            return any(test(bt(self.m_startswith(q))) if not isinstance(self.m_startswith(q), bool) else self.m_startswith(q) for q in p)
        f = self.find_at(p, 0)
        return f if isinstance(f, bool) else sbool(f)

    def m_endswith(self, p):
        if isinstance(p, tuple):
            return any(test(bt(self.m_endswith(q))) for q in p)
        k = len(self.chars) - len(chars_of(p))
        f = self.find_at(p, k) if k >= 0 else False
        return f if isinstance(f, bool) else sbool(f)

    def m_replace(self, old, new, count=-1):
        o, n = chars_of(old), chars_of(new)
        if not o:
            raise Unsupported('replace of the empty text')
        out, i = [], 0
        while i < len(self.chars):
            if count != 0 and test(self.find_at(old, i)):
                out.extend(n)
                i += len(o)
                count -= 1
            else:
                out.append(self.chars[i])
                i += 1
        return text(out)

    def m_split(self, sep=None, maxsplit=-1):
        out, cur, i = VList(), [], 0
        if sep is None:
            while i < len(self.chars):
                if test(in_class(self.chars[i], 'space')):
                    if cur:
                        out.append(text(cur))
                        cur = []
                        if maxsplit > 0:
                            raise Unsupported('split with a limit')
                else:
                    cur.append(self.chars[i])
                i += 1
            if cur:
                out.append(text(cur))
            return out
        k = len(chars_of(sep))
        while i < len(self.chars):
            if maxsplit != 0 and test(self.find_at(sep, i)):
                out.append(text(cur))
                cur = []
                i += k
                maxsplit -= 1
            else:
                cur.append(self.chars[i])
                i += 1
        out.append(text(cur))
        return out

    def m_rsplit(self, sep=None, maxsplit=-1):
        if maxsplit == -1:
            return self.m_split(sep)
        if maxsplit == 1 and sep is not None:
            i = self.m_rfind(sep)
            if i < 0:
                return VList([self])
            return VList([text(self.chars[:i]), text(self.chars[i + len(chars_of(sep)):])])
        raise Unsupported('rsplit')

    def m_partition(self, sep):
        i = self.m_find(sep)
        if i < 0:
            return self, '', ''
        return text(self.chars[:i]), sep, text(self.chars[i + len(chars_of(sep)):])

    def m_rpartition(self, sep):
        i = self.m_rfind(sep)
        if i < 0:
            return '', '', self
        return text(self.chars[:i]), sep, text(self.chars[i + len(chars_of(sep)):])

    def stripped(self, chars, left, right):
        def hit(c):
            if chars is None:
                return in_class(c, 'space')
            fs = [ceq(c, x) for x in chars_of(chars)]
            if any(f is True for f in fs):
                return True
            fs = [f for f in fs if f is not False]
            return z3.Or(*fs) if fs else False
        a, b = 0, len(self.chars)
        while left and a < b and test(hit(self.chars[a])):
            a += 1
        while right and b > a and test(hit(self.chars[b - 1])):
            b -= 1
        return text(self.chars[a:b])

    def m_strip(self, chars=None):
        return self.stripped(chars, True, True)

    def m_lstrip(self, chars=None):
        return self.stripped(chars, True, False)

    def m_rstrip(self, chars=None):
        return self.stripped(chars, False, True)

    def m_ljust(self, n, fill=' '):
        return text(self.chars + [ord(fill)] * (n - len(self.chars)))

    def m_rjust(self, n, fill=' '):
        return text([ord(fill)] * (n - len(self.chars)) + self.chars)

    def m_zfill(self, n):
        pad = [48] * (n - len(self.chars))
        if self.chars and test(z3.Or(self.chars[0] == 43, self.chars[0] == 45) if not isinstance(self.chars[0], int)
                               else self.chars[0] in (43, 45)):
            return text(self.chars[:1] + pad + self.chars[1:])
        return text(pad + self.chars)

    def cased(self, a, b, off, other):
        out = []
        for c in self.chars:
            if isinstance(c, int):
                out.extend(ord(x) for x in getattr(chr(c), other)())
            elif test(c < 128):
                out.append(z3.If(z3.And(c >= a, c <= b), c + off, c))
            else:
                raise Unsupported('case of non-ASCII characters')
        return text(out)

    def m_lower(self):
        return self.cased(65, 90, 32, 'lower')

    def m_upper(self):
        return self.cased(97, 122, -32, 'upper')

    def all_class(self, name):
        return bool(self.chars) and all(test(in_class(c, name)) for c in self.chars)

    def m_isdigit(self):
        return self.all_class('isdigit')

    def m_isdecimal(self):
        return self.all_class('decimal')

    def m_isalpha(self):
        return self.all_class('alpha')

    def m_isalnum(self):
        return self.all_class('alnum')

    def m_isspace(self):
        return self.all_class('space')

    def m_isascii(self):
        return all(test(c < 128) for c in self.chars)

    def m_removeprefix(self, p):
        return text(self.chars[len(chars_of(p)):]) if test(self.find_at(p, 0)) else self

    def m_removesuffix(self, p):
        r = self.m_endswith(p)
        return text(self.chars[:len(self.chars) - len(chars_of(p))]) if chars_of(p) and test(r if isinstance(r, bool) else r.t) else self

    def m_translate(self, table):
        out = []
        for c in self.chars:
            for k, v in table.items():
                if test(ceq(c, k)):
                    out.extend([] if v is None else [v] if isinstance(v, int) else chars_of(v))
                    break
            else:
                out.append(c)
        return text(out)


def fresh_char(base='ch'):
    c = z3.Int(ctx().fresh(base))
    ctx().assume(z3.And(c >= 0, c <= 0x10ffff, z3.Not(z3.And(c >= 0xd800, c <= 0xdfff))))
    return c


def fresh_digit(base='dg'):
    c = z3.Int(ctx().fresh(base))
    ctx().assume(z3.And(c >= 48, c <= 57))
    return c


def fresh_text(n, base='ch'):
    return SText([fresh_char(base) for _ in range(n)]) if n else ''


# ---------------------------------------------------------------- numbers
def digits_of(v, width):
    """exactly `width` decimal digits of a natural number below 10**width"""
    return [simp(48 + (v / (10 ** (width - 1 - k))) % 10) for k in range(width)]


def int_text(v, spec=''):
    """'{:spec}'.format(v) for a symbolic integer; the number of digits is branched on"""
    m = re.fullmatch(r'(0?)(\d*)d?', spec or '')
    if not m:
        raise Unsupported('format spec {}'.format(spec))
    width = int(m.group(2) or 0)
    t = it(v)
    neg = test(t < 0)
    a = -t if neg else t
    for n in range(1, 25):
        if test(a < 10 ** n):
            break
    else:
        raise Unsupported('formatting an integer without bound')
    ds = digits_of(a, n)
    pad = width - n - (1 if neg else 0)
    if m.group(1):
        return text(([45] if neg else []) + [48] * pad + ds)
    return text([32] * pad + ([45] if neg else []) + ds)


def digit_value(c):
    """(formula that c is a decimal digit, its value)"""
    if isinstance(c, int):
        try:
            return True, unicodedata.decimal(chr(c))
        except ValueError:
            return False, 0
    if known(z3.And(c >= 48, c <= 57)):
        return True, c - 48
    rs = ranges('decimal')
    if known(c < 128):
        rs = rs[:1]
    val = z3.IntVal(0)
    for a, b in rs:
        for k in range(a, b + 1, 10):
            val = z3.If(z3.And(c >= k, c < k + 10), c - k, val)
    return within(c, rs), val


def parse_int(x):
    s = x.m_strip() if isinstance(x, SText) else x.strip()
    cs = list(chars_of(s))
    sign = 1
    if cs and test(ceq(cs[0], 45)):
        sign, cs = -1, cs[1:]
    elif cs and test(ceq(cs[0], 43)):
        cs = cs[1:]
    if not cs:
        raise ValueError('invalid literal for int() with base 10')
    total, last = z3.IntVal(0), False
    for k, c in enumerate(cs):
        ok, v = digit_value(c)
        if test(ok):
            total, last = total * 10 + v, True
            continue
        if last and k + 1 < len(cs) and test(ceq(c, 95)):
            last = False
            continue
        raise ValueError('invalid literal for int() with base 10')
    return SInt.of(z3.simplify(total * sign))


# ---------------------------------------------------------------- regular expressions
class SMatch:
    __pv_model__ = True
    __pv_symbolic__ = True

    def __init__(self, s, pattern, start, end, groups):
        self.s, self.re, self.string = s, pattern, s
        self.spans = dict(groups)
        self.spans[0] = (start, end)

    def span(self, g=0):
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise IndexError('no such group')
            g = self.re.groupindex[g]
        if not 0 <= g <= self.re.groups:
            raise IndexError('no such group')
        return self.spans.get(g) or (-1, -1)

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def one(self, g, default=None):
        a, b = self.span(g)
        return default if a < 0 else text(chars_of(self.s)[a:b])

    def group(self, *gs):
        gs = gs or (0,)
        r = tuple(self.one(g) for g in gs)
        return r if len(r) > 1 else r[0]

    __getitem__ = group

    def groups(self, default=None):
        return tuple(self.one(k, default) for k in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        d = VDict()
        for k in self.re.groupindex:
            d[k] = self.one(k, default)
        return d

    @property
    def lastindex(self):
        raise Unsupported('lastindex')


class Matcher:
    def __init__(self, pattern, s):
        self.p = pattern
        if isinstance(pattern.pattern, bytes):
            raise Unsupported('bytes pattern')
        if pattern.flags & (re.I | re.X | re.L | re.A):
            raise Unsupported('flags of a pattern')
        key = (pattern.pattern, pattern.flags)
        if key not in CACHE:
            CACHE[key] = sre_parse.parse(pattern.pattern, pattern.flags & ~re.U)
        self.tree = CACHE[key]
        self.cs = chars_of(s)
        self.s = s

    def cls(self, c, items):
        """does the character belong to the set?"""
        neg, fs = False, []
        for op, av in items:
            if op is sc.NEGATE:
                neg = True
            elif op is sc.LITERAL:
                fs.append(ceq(c, av))
            elif op is sc.RANGE:
                fs.append(within(c, [av]))
            elif op is sc.CATEGORY:
                fs.append(self.cat(c, av))
            else:
                raise Unsupported('set item {}'.format(op))
        if any(f is True for f in fs):
            f = True
        else:
            fs = [f for f in fs if f is not False]
            f = z3.Or(*fs) if fs else False
        if neg:
            return not f if isinstance(f, bool) else z3.Not(f)
        return f

    def cat(self, c, av):
        name = {sc.CATEGORY_DIGIT: 'digit', sc.CATEGORY_SPACE: 're_space', sc.CATEGORY_WORD: 'word'}.get(av)
        if name:
            return in_class(c, name)
        name = {sc.CATEGORY_NOT_DIGIT: 'digit', sc.CATEGORY_NOT_SPACE: 're_space', sc.CATEGORY_NOT_WORD: 'word'}.get(av)
        if not name:
            raise Unsupported('category {}'.format(av))
        f = in_class(c, name)
        return not f if isinstance(f, bool) else z3.Not(f)

    def m(self, nodes, i, g, k):
        """matches the nodes from position i; k(i, groups) is the continuation"""
        if not nodes:
            return k(i, g)
        (op, av), rest = nodes[0], nodes[1:]
        n = len(self.cs)
        cs = self.cs

        def one(f):
            return test(f) and self.m(rest, i + 1, g, k)
        if op is sc.LITERAL:
            return i < n and one(ceq(cs[i], av))
        if op is sc.NOT_LITERAL:
            f = i < n and ceq(cs[i], av)
            return i < n and one(not f if isinstance(f, bool) else z3.Not(f))
        if op is sc.ANY:
            return i < n and one(True if self.p.flags & re.S else (
                cs[i] != 10 if isinstance(cs[i], int) else z3.Not(cs[i] == 10)))
        if op is sc.IN:
            return i < n and one(self.cls(cs[i], av))
        if op is sc.AT:
            if av in (sc.AT_BEGINNING_STRING,) or (av is sc.AT_BEGINNING and not self.p.flags & re.M):
                ok = i == 0
            elif av is sc.AT_END_STRING:
                ok = i == n
            elif av is sc.AT_END and not self.p.flags & re.M:
                ok = i == n or (i == n - 1 and test(ceq(cs[i], 10)))
            elif av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
                a = i > 0 and test(in_class(cs[i - 1], 'word'))
                b = i < n and test(in_class(cs[i], 'word'))
                ok = (a != b) == (av is sc.AT_BOUNDARY)
            else:
                raise Unsupported('position {}'.format(av))
            return ok and self.m(rest, i, g, k)
        if op is sc.SUBPATTERN:
            gid, add, rem, sub = av
            if add or rem:
                raise Unsupported('inline flags')

            def done(j, g2):
                if gid is not None:
                    g2 = dict(g2)
                    g2[gid] = (i, j)
                return self.m(rest, j, g2, k)
            return self.m(list(sub), i, g, done)
        if op is sc.BRANCH:
            for alt in av[1]:
                r = self.m(list(alt), i, g, lambda j, g2: self.m(rest, j, g2, k))
                if r:
                    return r
            return None
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)

            def rep(count, j, g2, last):
                def more():
                    if count >= hi or (last == j and count > lo):
                        return None
                    return self.m(sub, j, g2, lambda j2, g3: rep(count + 1, j2, g3, j))
                if count < lo:
                    return more()
                if op is sc.MAX_REPEAT:
                    return more() or self.m(rest, j, g2, k)
                return self.m(rest, j, g2, k) or more()
            return rep(0, i, g, None)
        if op is sc.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            if i + b - a > n or not test(conj(ceq(x, y) for x, y in zip(cs[a:b], cs[i:]))):
                return None
            return self.m(rest, i + b - a, g, k)
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            d, sub = av
            if d < 0:
                raise Unsupported('lookbehind')
            hit = self.m(list(sub), i, g, lambda j, g2: (j, g2))
            if op is sc.ASSERT:
                return hit and self.m(rest, i, hit[1], k)
            return None if hit else self.m(rest, i, g, k)
        raise Unsupported('pattern {}'.format(op))

    def at(self, i, full=False, advance=False):
        r = self.m(list(self.tree), i, {}, lambda j, g: (j, g) if (not full or j == len(self.cs)) and not (
            advance and j == i) else None)
        return SMatch(self.s, self.p, i, r[0], r[1]) if r else None

    def search(self, i=0, advance=False):
        for k in range(i, len(self.cs) + 1):
            m = self.at(k, advance=advance and k == i)
            if m:
                return m
        return None

    def finditer(self):
        i, advance = 0, False
        while i <= len(self.cs):
            m = self.search(i, advance)
            if m is None:
                return
            yield m
            i, advance = m.end(), m.end() == m.start()


def expand(template, m):
    out, i = [], 0
    for x in re.finditer(r'\\(?:(\d)|g<(\w+)>|(.))', template):
        out.extend(chars_of(template[i:x.start()]))
        i = x.end()
        g = x.group(1) or x.group(2)
        if g is not None:
            out.extend(chars_of(m.one(int(g) if g.isdigit() else g, '')))
        elif x.group(3) == '\\':
            out.append(92)
        elif x.group(3) == 'n':
            out.append(10)
        else:
            raise Unsupported('replacement template')
    out.extend(chars_of(template[i:]))
    return out


def pattern_method(p, name, s, args, kw):
    mt = Matcher(p, s)
    if name == 'match':
        return mt.at(0)
    if name == 'fullmatch':
        return mt.at(0, full=True)
    if name == 'search':
        return mt.search()
    if name == 'finditer':
        return iter(list(mt.finditer()))
    if name == 'findall':
        out = VList()
        for m in mt.finditer():
            out.append(m.group(0) if not p.groups else m.one(1, '') if p.groups == 1 else m.groups(''))
        return out
    raise Unsupported('pattern method ' + name)


def sub(p, repl, s, count=0):
    from .rt import RT
    cs, out, i = chars_of(s), [], 0
    k = 0
    for m in Matcher(p, s).finditer():
        if count and k >= count:
            break
        k += 1
        out.extend(cs[i:m.start()])
        out.extend(expand(repl, m) if isinstance(repl, str) else chars_of(RT.call(repl, m)))
        i = m.end()
    return text(out + list(cs[i:]))


def split(p, s, maxsplit=0):
    cs, out, i, k = chars_of(s), VList(), 0, 0
    for m in Matcher(p, s).finditer():
        if maxsplit and k >= maxsplit:
            break
        k += 1
        out.append(text(cs[i:m.start()]))
        out.extend(m.groups())
        i = m.end()
    out.append(text(cs[i:]))
    return out


def install():
    from . import rt
    from .rt import BUILTINS, METHOD_MODELS, is_str

    def pattern(p, flags=0):
        if isinstance(p, Proxy):
            raise Unsupported('symbolic pattern')
        return re.compile(p, flags)

    def wrap(name):
        def meth(p, s, *args, **kw):
            if isinstance(s, Text):
                return s.regex(p, name, args, kw) if hasattr(type(s), 'regex') else pattern_method(p, name, s, args, kw)
            if is_sym(s):
                con = ctx().s.contracts.get('re.Pattern.' + name)
                if con is None:
                    raise Unsupported('regular expression on an opaque text')
                ctx().s.used_contracts.add('re.Pattern.' + name)
                return con(p, s, *args, **kw)
            return getattr(p, name)(s, *args, **kw)

        def func(p, s, flags=0):
            return meth(p if isinstance(p, re.Pattern) else pattern(p, flags), s)
        METHOD_MODELS[(re.Pattern, name)] = meth
        BUILTINS[id(getattr(re, name))] = (getattr(re, name), func)
    for name in ('match', 'fullmatch', 'search', 'finditer', 'findall'):
        wrap(name)

    def sub_m(p, repl, s, count=0):
        if isinstance(s, Text):
            return s.regex_sub(p, repl, count) if hasattr(type(s), 'regex_sub') else sub(p, repl, s, count)
        if isinstance(s, str) and not is_sym(repl) and not callable(repl):
            return p.sub(repl, s, count)
        if isinstance(s, str):
            return sub(p, repl, s, count)
        raise Unsupported('re.sub on a symbolic value')

    def split_m(p, s, maxsplit=0):
        if isinstance(s, Text):
            return split(p, s, maxsplit)
        if isinstance(s, str):
            return VList(p.split(s, maxsplit))
        raise Unsupported('re.split on a symbolic value')
    METHOD_MODELS[(re.Pattern, 'sub')] = sub_m
    METHOD_MODELS[(re.Pattern, 'split')] = split_m

    def re_sub(p, repl, s, count=0, flags=0):
        return sub_m(p if isinstance(p, re.Pattern) else pattern(p, flags), repl, s, count)
    BUILTINS[id(re.sub)] = (re.sub, re_sub)
    BUILTINS[id(re.split)] = (re.split, lambda p, s, maxsplit=0, flags=0: split_m(
        p if isinstance(p, re.Pattern) else pattern(p, flags), s, maxsplit))
