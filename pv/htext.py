"""Texts of arbitrary length.

A base text has a length n and characters code(0), ..., code(n-1), all uninterpreted. A text is a sequence of segments:
single characters and views of a base, i.e. the concatenation of f(code(0)), f(code(1)), ... for a function f from a
character to at most one character. Operations that treat each character on its own (replacing, deleting, translating,
filtering) change f; a text contains a character iff there is an index whose image it is. Nothing bounds the length.
"""
import re
import sys

import z3

try:
    import re._parser as sre
    import re._constants as sc
except ImportError:     # pragma: no cover
    import sre_parse as sre
    import sre_constants as sc

from .core import Unsupported
from . import text as tx
from . import values as vv
from .values import V, SInt, SBool, Proxy, sbool, bt, it, VList
from .text import Text, SText, ctx, test, ranges, simp


def term(c):
    return z3.IntVal(c) if isinstance(c, int) else c


def tr(f):
    return z3.BoolVal(f) if isinstance(f, bool) else f


def neg(f):
    return (not f) if isinstance(f, bool) else z3.Not(f)


def conj(*fs):
    fs = [f for f in fs if f is not True]
    if any(f is False for f in fs):
        return False
    return True if not fs else fs[0] if len(fs) == 1 else z3.And(*fs)


def disj(*fs):
    fs = [f for f in fs if f is not False]
    if any(f is True for f in fs):
        return True
    return False if not fs else fs[0] if len(fs) == 1 else z3.Or(*fs)


def char_class(c, name, f=None):
    """exact for ASCII characters, an uninterpreted property of the others"""
    if isinstance(c, int):
        return tx.within(c, ranges(name))
    low = [(a, min(b, 127)) for a, b in ranges(name) if a < 128]
    low = tx.within(c, low)
    p = vv.uf('class_' + name, vv.INT, vv.BOOL)(c)
    if not isinstance(low, bool):
        return z3.If(c < 128, low, p)
    return z3.And(c >= 128, p) if not low else z3.Or(c < 128, p)


class Base:
    def __init__(self, name, axiom=None, n=None):
        c = ctx()
        self.name = c.fresh(name)
        self.axiom = axiom
        self.n = z3.Int(self.name + '.n') if n is None else n
        self.code = z3.Function(self.name + '.char', z3.IntSort(), z3.IntSort())
        k = z3.Int(self.name + '.k')
        x = self.code(k)
        c.keep.append((self.n, k, x))
        c.assume(self.n >= 0)
        c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < self.n), z3.And(
            x >= 0, x <= sys.maxunicode, *([tr(axiom(x))] if axiom else []))), patterns=[x]))

    def index(self):
        """an index bound by a quantifier"""
        k = z3.Int('qk.' + self.name)
        return k, z3.And(k >= 0, k < self.n)


class View:
    """f: character term -> (kept, character)"""
    def __init__(self, base, f, solid):
        self.base, self.f, self.solid = base, f, solid
        self.key = None

    def at(self, k):
        return self.f(self.base.code(k))


def same_char(a, b):
    return a == b if isinstance(a, int) and isinstance(b, int) else term(a) == term(b)


def mk(segs):
    segs = [s for s in segs if not (isinstance(s, View) and s.f is None)]
    if not any(isinstance(s, View) for s in segs):
        return tx.text(segs)
    return HText(segs)


def segs_of(x):
    if isinstance(x, HText):
        return x.segs
    return tx.chars_of(x)


def one(x):
    """the only character of a text"""
    if isinstance(x, (str, SText)):
        c = tx.chars_of(x)
        if len(c) == 1:
            return c[0]
    raise Unsupported('text of several characters in an operation on a text of unknown length')


def ctx_partition(t, sep):
    from .rt import RT
    return RT.meth(t, 'partition', sep)


class HText(Text):
    __slots__ = ('segs', 'key', 'len_')

    def __init__(self, segs):
        self.segs = segs
        self.key = None
        self.len_ = None

    # ------------------------------------------------------------ characters
    def map(self, g):
        """g: character -> (kept, character)"""
        out = []
        for s in self.segs:
            if isinstance(s, View):
                def f(c, s=s):
                    keep, x = s.f(c)
                    keep2, y = g(x)
                    return conj(keep, keep2), y
                c = z3.Int('any.char')
                solid = s.solid and f(c)[0] is True
                out.append(View(s.base, f, solid))
            else:
                keep, y = g(s)
                if test(keep):
                    out.append(simp(y))
        return mk(out)

    def exists(self, phi):
        fs = []
        for s in self.segs:
            if isinstance(s, View):
                k, dom = s.base.index()
                keep, x = s.at(k)
                body = z3.simplify(tr(conj(keep, phi(x))))
                if not z3.is_false(body):
                    fs.append(z3.Exists([k], z3.And(dom, body)))
            else:
                fs.append(phi(s))
        return disj(*fs)

    def forall(self, phi):
        return neg(self.exists(lambda c: neg(phi(c))))

    def is_solid(self):
        return all(not isinstance(s, View) or s.solid for s in self.segs)

    def length(self):
        if self.len_ is None:
            c = ctx()
            n = z3.IntVal(0)
            for s in self.segs:
                if not isinstance(s, View):
                    n = n + 1
                elif s.solid:
                    n = n + s.base.n
                else:
                    x = z3.Int(c.fresh('qklen'))
                    c.fact(z3.And(x >= 0, x <= s.base.n))
                    c.fact((x == 0) == tr(HText([s]).forall(lambda ch: False)))
                    n = n + x
            self.len_ = z3.simplify(n)
        return SInt.of(self.len_)

    def char(self, k):
        """character at index k of a text all of whose characters are kept"""
        if not self.is_solid():
            raise Unsupported('index into a filtered text')
        r, start, parts = None, z3.IntVal(0), []
        for s in self.segs:
            if isinstance(s, View):
                parts.append((start, s.base.n, s))
                start = start + s.base.n
            else:
                parts.append((start, 1, s))
                start = start + 1
        for st, n, s in reversed(parts):
            x = term(s.at(k - st)[1] if isinstance(s, View) else s)
            r = x if r is None else z3.If(k < st + n, x, r)
        return z3.simplify(r)

    def __bool__(self):
        if any(not isinstance(s, View) for s in self.segs):
            return True
        return test(self.exists(lambda c: True))

    # ------------------------------------------------------------ comparison
    def pointwise(self, o):
        """formula: both texts have the same segments, character by character (sufficient for equality)"""
        a, b = self.segs, segs_of(o)
        if len(a) != len(b):
            return False
        fs = []
        for x, y in zip(a, b):
            if isinstance(x, View) != isinstance(y, View):
                return False
            if not isinstance(x, View):
                fs.append(same_char(x, y))
                continue
            if x.base is not y.base:
                return False
            k, dom = x.base.index()
            (k1, c1), (k2, c2) = x.at(k), y.at(k)
            fs.append(z3.ForAll([k], z3.Implies(dom, z3.And(tr(k1) == tr(k2), z3.Implies(tr(k1), term(c1) == term(c2))))))
        return conj(*fs)

    def same(self, o):
        if not isinstance(o, (str, Text)):
            return False
        if isinstance(o, HText):
            if o is self:
                return True
            f = self.pointwise(o)
            e = vv.lift(self) == vv.lift(o)
            if f is not False:
                ctx().fact(z3.Implies(tr(f), e))
            ctx().fact(z3.Implies(e, it(self.length()) == it(o.length())))
            return e
        cs = tx.chars_of(o)
        if self.is_solid():
            n = it(self.length())
            f = conj(n == len(cs), *[self.char(z3.IntVal(i)) == c for i, c in enumerate(cs)])
            if isinstance(o, str):
                ctx().fact(tr(f) == (vv.lift(self) == vv.lift(o)))
            return f
        n = it(self.length())
        e = z3.Bool(ctx().fresh('qksame'))
        # equal texts have the same length and characters
        ctx().fact(z3.Implies(e, z3.And(n == len(cs), tr(self.forall(lambda c: disj(*[same_char(c, x) for x in cs]))),
                                        *[tr(self.exists(lambda c, x=x: same_char(c, x))) for x in cs])))
        if not cs:
            ctx().fact(e == (n == 0))
        return e

    def __eq__(self, o):
        if isinstance(o, Proxy) and not isinstance(o, Text):
            return sbool(vv.lift(self) == vv.lift(o))
        return sbool(self.same(o))

    def __ne__(self, o):
        return vv.not_(self.__eq__(o))

    __hash__ = None

    def __repr__(self):
        return 'text({})'.format(' '.join(
            '{}{}'.format(s.base.name, '' if s.solid else '?') if isinstance(s, View) else
            (repr(chr(s)) if isinstance(s, int) else str(s)) for s in self.segs))

    def __pv_term__(self):
        if self.key is None:
            # the same part of a text is the same text
            s = self.segs[0] if len(self.segs) == 1 and isinstance(self.segs[0], View) else None
            self.key = s.key if s is not None and s.key is not None else V.S(z3.Int(ctx().fresh('qktext')))
            if s is not None:
                s.key = self.key
        return self.key

    def __pv_concrete__(self, model):
        if not self.is_solid():
            return repr(self)
        n = model.eval(it(self.length()), model_completion=True).as_long()
        return ''.join(chr(min(max(0, model.eval(self.char(z3.IntVal(i)), model_completion=True).as_long()), sys.maxunicode))
                       for i in range(min(n, 30)))

    # ------------------------------------------------------------ parts
    def part(self, start, n):
        """n characters from index start on (terms)"""
        if len(self.segs) == 1 and self.segs[0].solid:
            b = self.segs[0].base
            r = Base(b.name, n=n)
            k = z3.Int(r.name + '.k')
            f = self.segs[0]
            ctx().assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), r.code(k) == f.at(k + start)[1]), patterns=[r.code(k)]))
            return mk([View(r, lambda c: (True, c), True)])
        if not self.is_solid():
            raise Unsupported('part of a filtered text')
        r = Base('part', n=n)
        k = z3.Int(r.name + '.k')
        ctx().assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), r.code(k) == self.char(k + start)), patterns=[r.code(k)]))
        return mk([View(r, lambda c: (True, c), True)])

    def item(self, k):
        n = it(self.length())
        if isinstance(k, slice):
            if k.step is not None:
                raise Unsupported('slice with step')
            if isinstance(k.start, int) and k.stop is None and 0 <= k.start <= len(self.segs) and not any(
                    isinstance(c, View) for c in self.segs[:k.start]):
                return mk(self.segs[k.start:])

            def bound(x, default):
                if x is None:
                    return default
                x = it(x)
                return z3.If(x < 0, z3.If(n + x < 0, 0, n + x), z3.If(x > n, n, x))
            lo, hi = bound(k.start, z3.IntVal(0)), bound(k.stop, n)
            if not self.is_solid():
                return vv.fresh_str('part')
            return self.part(z3.simplify(lo), z3.simplify(z3.If(hi > lo, hi - lo, 0)))
        k = it(k)
        if not test(z3.And(k < n, k >= -n)):
            raise IndexError('string index out of range')
        return SText([self.char(z3.simplify(z3.If(k < 0, k + n, k)))])

    def contains(self, sub):
        cs = segs_of(sub)
        if any(isinstance(c, View) for c in cs):
            raise Unsupported('text of unknown length in a text')
        if not cs:
            return True
        if len(cs) == 1:
            return sbool(self.exists(lambda c: same_char(c, cs[0])))
        return sbool(self.adjacent([lambda c, x=x: same_char(c, x) for x in cs]))

    def adjacent(self, phis):
        """somewhere there are consecutive characters with these properties"""
        if not self.is_solid():
            # over-approximation: every property has a character
            e = z3.Bool(ctx().fresh('qkadj'))
            ctx().fact(z3.Implies(e, tr(conj(*[self.exists(p) for p in phis]))))
            return e
        k = z3.Int('qk.adjacent')
        n = it(self.length())
        return z3.Exists([k], z3.And(k >= 0, k <= n - len(phis), *[tr(p(self.char(k + j))) for j, p in enumerate(phis)]))

    def m_replace(self, old, new, count=-1):
        if count != -1:
            raise Unsupported('replace with a count')
        x = one(old)
        new = tx.chars_of(new)
        if len(new) > 1:
            raise Unsupported('replace by a longer text')

        def g(c):
            eq = same_char(c, x)
            if not new:
                return neg(eq), c
            if isinstance(eq, bool):
                return True, new[0] if eq else c
            return True, z3.If(eq, term(new[0]), term(c))
        return self.map(g)

    def m_translate(self, table):
        table = dict(table)

        def g(c):
            keep, y = True, c
            for k, v in table.items():
                eq = same_char(c, k)
                if v is None or v == '':
                    keep = conj(keep, neg(eq))
                    continue
                v = v if isinstance(v, int) else one(v)
                y = (v if eq else y) if isinstance(eq, bool) else z3.If(eq, term(v), term(y))
            return keep, y
        return self.map(g)

    def cased(self, name):
        """exact for ASCII; other characters become unknown non-ASCII characters, but for the exceptions, of which the first
        character of the result is kept (the only longer result is that of U+0130)"""
        lower = name == 'lower'
        exc = {}
        for c in ranges_exceptions(name):
            exc[c] = ord((chr(c).lower() if lower else chr(c).upper())[0])
        f = vv.uf('char_' + name, vv.INT, vv.INT)

        def g(c):
            if isinstance(c, int):
                s = chr(c).lower() if lower else chr(c).upper()
                if len(s) != 1:
                    raise Unsupported('case of a character')
                return True, ord(s)
            a, b, off = (65, 90, 32) if lower else (97, 122, -32)
            y = f(c)
            r = z3.If(y >= 128, y, 128)
            for k, v in exc.items():
                r = z3.If(c == k, v, r)
            return True, z3.If(c < 128, z3.If(z3.And(c >= a, c <= b), c + off, c), r)
        return self.map(g)

    def m_lower(self):
        return self.cased('lower')

    def m_upper(self):
        if not test(self.forall(lambda c: c < 128)):
            raise Unsupported('upper case of a text')
        return self.map(lambda c: (True, chr(c).upper() and ord(chr(c).upper())) if isinstance(c, int) else (
            True, z3.If(z3.And(c >= 97, c <= 122), c - 32, c)))

    # ------------------------------------------------------------ separators
    def cut(self, sep, free=False):
        """the parts between occurrences of a character, which are all known"""
        x = one(sep)
        parts, cur = [], []
        for s in self.segs:
            if isinstance(s, View):
                if not free and test(HText([s]).exists(lambda c: same_char(c, x))):
                    raise Unsupported('split of a text of unknown length')
                cur.append(s)
            elif test(same_char(s, x)):
                parts.append(cur)
                cur = []
            else:
                cur.append(s)
        return [mk(p) for p in parts + [cur]]

    def m_split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported('split at blanks')
        if maxsplit < 0 and any(isinstance(c, View) and test(HText([c]).exists(lambda ch: same_char(ch, one(sep)))) for c in self.segs):
            return HParts(self, sep)
        if maxsplit >= 0:
            parts, rest = VList(), self
            while len(parts) < maxsplit:
                head, found, tail = rest.m_partition(sep) if isinstance(rest, HText) else ctx_partition(rest, sep)
                if not found:
                    break
                parts.append(head)
                rest = tail
            parts.append(rest)
            return parts
        return VList(self.cut(sep, True))

    def m_partition(self, sep):
        x = one(sep)
        cur = []
        for k, s in enumerate(self.segs):
            if isinstance(s, View):
                if test(HText([s]).exists(lambda c: same_char(c, x))):
                    raise Unsupported('partition of a text of unknown length')
            elif test(same_char(s, x)):
                return mk(cur), sep, mk(self.segs[k + 1:])
            cur.append(s)
        return self, '', ''

    def m_count(self, sub):
        x = one(sub)
        n = 0
        for s in self.segs:
            if isinstance(s, View):
                if test(HText([s]).exists(lambda c: same_char(c, x))):
                    k = z3.Int(ctx().fresh('count'))
                    ctx().assume(k >= 1)
                    n = n + k
            elif test(same_char(s, x)):
                n = n + 1
        return n if isinstance(n, int) else SInt.of(n)

    def m_lstrip(self, chars=None):
        return self.m_strip(chars, right=False)

    def m_rstrip(self, chars=None):
        return self.m_strip(chars, left=False)

    def m_strip(self, chars=None, left=True, right=True):
        if not self.is_solid():
            raise Unsupported('strip of a filtered text')
        if chars is None:
            def sp(c):
                return char_class(c, 'space')
        else:
            cs = tx.chars_of(chars)

            def sp(c):
                return disj(*[same_char(c, x) for x in cs])
        if not test(self.exists(lambda c: neg(sp(c)))):
            return ''
        c = ctx()
        n = it(self.length())
        lo, hi = z3.Int(c.fresh('lo')) if left else z3.IntVal(0), z3.Int(c.fresh('hi')) if right else n
        k = z3.Int(c.fresh('qk'))
        c.assume(z3.And(0 <= lo, lo < hi, hi <= n, *([tr(neg(sp(self.char(lo))))] if left else []),
                        *([tr(neg(sp(self.char(hi - 1))))] if right else [])))
        c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n, z3.Or(k < lo, k >= hi)), tr(sp(self.char(k))))))
        return self.part(lo, hi - lo)

    def all_class(self, name):
        return sbool(conj(it(self.length()) > 0, self.forall(lambda c: char_class(c, name))))

    def m_isdigit(self):
        return self.all_class('isdigit')

    def m_isalnum(self):
        return self.all_class('alnum')

    def m_isspace(self):
        return self.all_class('space')

    def m_isascii(self):
        return sbool(self.forall(lambda c: c < 128))

    def m_startswith(self, p):
        cs = tx.chars_of(p)
        return sbool(conj(it(self.length()) >= len(cs), *[self.char(z3.IntVal(i)) == c for i, c in enumerate(cs)]))

    def m_endswith(self, p):
        cs = tx.chars_of(p)
        n = it(self.length())
        return sbool(conj(n >= len(cs), *[self.char(n - len(cs) + i) == c for i, c in enumerate(cs)]))

    def m_encode(self, encoding='utf-8', errors='strict'):
        if encoding == 'ascii' and errors == 'ignore':
            return HBytes(self.map(lambda c: (c < 128, c)))
        if encoding == 'ascii':
            if test(self.exists(lambda c: c >= 128)):
                raise UnicodeEncodeError('ascii', '?', 0, 1, 'ordinal not in range(128)')
            return HBytes(self)
        if encoding in ('utf-8', 'utf8', 'UTF-8'):
            return HBytes(self, 'utf-8')
        raise Unsupported('encode')

    # ------------------------------------------------------------ building
    @staticmethod
    def concat_texts(pieces):
        out = []
        for p in pieces:
            if not isinstance(p, (str, Text)):
                return vv.fresh_str('text')
            out += segs_of(p)
        return mk(out)

    def comp_text(self, kind, fn):
        """characters mapped and filtered by a comprehension"""
        if kind not in ('gen', 'list'):
            raise Unsupported('comprehension of characters')
        c = ctx()
        x = z3.Int(c.fresh('ci'))
        c.assume(z3.And(x >= 0, x <= sys.maxunicode))
        res = c.enumerate(lambda: list(fn([SText([x])])))
        outs = []
        for k, cond, r in res:
            if k != 'ok':
                raise Unsupported('exception in a comprehension of characters')
            if len(r) > 1:
                raise Unsupported('nested comprehension of characters')
            outs.append((cond, None if not r or r[0] == '' else one(r[0])))

        def g(ch):
            keep, y = disj(*[cond for cond, r in outs if r is not None]), None
            for cond, r in outs:
                if r is not None:
                    y = term(r) if y is None else z3.If(cond, term(r), y)
            if y is None:
                return False, ch
            t = term(ch)
            return (keep if isinstance(keep, bool) else z3.substitute(keep, (x, t))), z3.simplify(z3.substitute(y, (x, t)))
        return Chars(self.map(g))

    # ------------------------------------------------------------ regular expressions
    def regex(self, p, name, args, kw):
        nodes = list(sre.parse(p.pattern, p.flags))
        while len(nodes) == 1 and nodes[0][0] is sc.SUBPATTERN:
            nodes = list(nodes[0][1][-1])
        flat, start, end = [], name in ('match', 'fullmatch'), None
        for op, av in nodes:
            if op is sc.AT and av is sc.AT_BEGINNING or av is sc.AT_BEGINNING_STRING:
                start = True
            elif op is sc.AT and av is sc.AT_END:
                end = '$'
            elif op is sc.AT and av is sc.AT_END_STRING:
                end = end or 'z'
            else:
                if end:
                    raise Unsupported('regular expression on a text of unknown length')
                while op is sc.SUBPATTERN and len(av[-1]) == 1:
                    op, av = av[-1][0]
                flat.append((op, av))
        if name == 'fullmatch':
            end = 'z'
        if start and end and len(flat) == 1 and flat[0][0] in (sc.MAX_REPEAT, sc.MIN_REPEAT) and flat[0][1][0] <= 1 \
                and flat[0][1][1] is sc.MAXREPEAT:
            lo, _, sub = flat[0][1]
            cls = self.char_set(p, list(sub))
            f = self.forall(cls)
            if lo == 1:
                f = conj(f, it(self.length()) > 0)
            if end == '$':
                b = z3.Bool(ctx().fresh('match'))
                ctx().assume(z3.Implies(tr(f), b))
                ctx().assume(z3.Implies(b, tr(self.forall(lambda c: disj(cls(c), same_char(c, 10))))))
                f = b
            return HMatch(self) if test(f) else None
        if name == 'search' and not start and not end:
            phis = []
            for j, (op, av) in enumerate(flat):
                if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                    lo, hi, sub = av
                    if hi is not sc.MAXREPEAT and hi != lo or (hi is sc.MAXREPEAT and j not in (0, len(flat) - 1)):
                        raise Unsupported('regular expression on a text of unknown length')
                    phis += [self.char_set(p, list(sub))] * lo
                else:
                    phis.append(self.char_set(p, [(op, av)]))
            if not phis:
                raise Unsupported('regular expression on a text of unknown length')
            f = self.exists(phis[0]) if len(phis) == 1 else self.adjacent(phis)
            return HMatch(self) if test(f) else None
        raise Unsupported('regular expression on a text of unknown length: ' + p.pattern)

    def char_set(self, p, nodes):
        """property of characters matched by a set"""
        while len(nodes) == 1 and nodes[0][0] is sc.SUBPATTERN:
            nodes = list(nodes[0][1][-1])
        if len(nodes) != 1 or p.flags & re.IGNORECASE:
            raise Unsupported('regular expression on a text of unknown length')
        op, av = nodes[0]
        if op is sc.LITERAL:
            return lambda c: same_char(c, av)
        if op is sc.NOT_LITERAL:
            return lambda c: neg(same_char(c, av))
        if op is sc.ANY:
            return lambda c: neg(same_char(c, 10)) if not p.flags & re.DOTALL else True
        if op is sc.BRANCH:
            subs = [self.char_set(p, list(b)) for b in av[1]]
            return lambda c: disj(*[s(c) for s in subs])
        if op is sc.CATEGORY:
            return self.char_set(p, [(sc.IN, [(op, av)])])
        if op is sc.IN:
            ascii_ = bool(p.flags & re.ASCII)

            def phi(c):
                fs, negate = [], False
                for o, a in av:
                    if o is sc.NEGATE:
                        negate = True
                    elif o is sc.LITERAL:
                        fs.append(same_char(c, a))
                    elif o is sc.RANGE:
                        fs.append(a[0] <= c <= a[1] if isinstance(c, int) else z3.And(c >= a[0], c <= a[1]))
                    elif o is sc.CATEGORY:
                        n = str(a).lower()
                        cls = {'digit': 'digit', 'space': 're_space', 'word': 'word'}[n.rpartition('_')[2]]
                        f = char_class(c, cls)
                        if ascii_:
                            f = conj(c < 128, f)
                        fs.append(neg(f) if '_not_' in n else f)
                    else:
                        raise Unsupported('character set')
                f = disj(*fs)
                return neg(f) if negate else f
            return phi
        raise Unsupported('regular expression on a text of unknown length')

    def regex_sub(self, p, repl, count=0):
        if count:
            raise Unsupported('sub with count')
        if p.pattern == '':
            raise Unsupported('sub of nothing')
        nodes = list(sre.parse(p.pattern, p.flags))
        while len(nodes) == 1 and nodes[0][0] is sc.SUBPATTERN:
            nodes = list(nodes[0][1][-1])
        if len(nodes) == 1 and nodes[0][0] is sc.BRANCH and all(len(b) == 1 for b in nodes[0][1][1]):
            alts = [list(b)[0] for b in nodes[0][1][1]]
        elif len(nodes) == 1:
            alts = [nodes[0]]
        else:
            raise Unsupported('sub of several characters')
        flat = []
        for op, av in alts:
            if op is sc.IN and all(o is sc.LITERAL for o, _ in av):
                flat += [(o, a) for o, a in av]
            else:
                flat.append((op, av))
        rules = []
        for op, av in flat:
            if op is sc.LITERAL:
                r = repl
                if callable(repl):
                    from .rt import RT
                    r = RT.call(repl, HMatch(self, chr(av)))
                elif isinstance(repl, str) and '\\' in repl:
                    r = re.sub(re.escape(chr(av)), repl, chr(av))
                rules.append((lambda c, av=av: same_char(c, av), r))
                continue
            if callable(repl) or (isinstance(repl, str) and '\\' in repl):
                raise Unsupported('sub of a set of characters')
            if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                if av[0] != 1 or repl != '' or op is sc.MIN_REPEAT:
                    raise Unsupported('sub of repeated characters')
                rules.append((self.char_set(p, list(av[2])), repl))
            else:
                rules.append((self.char_set(p, [(op, av)]), repl))
        for _, r in rules:
            if len(tx.chars_of(r)) > 1:
                raise Unsupported('sub by a longer text')

        def g(c):
            keep, y = True, c
            for phi, r in reversed(rules):
                f = phi(c)
                r = tx.chars_of(r)
                if isinstance(f, bool):
                    if f:
                        keep, y = (True, r[0]) if r else (False, c)
                    continue
                if r:
                    keep = disj(f, keep)
                    y = z3.If(f, term(r[0]), term(y))
                else:
                    keep = conj(neg(f), keep)
            return keep, y
        return self.map(g)


EXC = {}


def ranges_exceptions(name):
    """non-ASCII characters with an ASCII character in their lower (upper) case form"""
    if name not in EXC:
        EXC[name] = [c for c in range(128, sys.maxunicode + 1)
                     if any(ord(x) < 128 for x in getattr(chr(c), name)())]
    return EXC[name]


class HMatch:
    __pv_model__ = True
    __pv_symbolic__ = True

    def __init__(self, s, text=None):
        self.s, self.text = s, text

    def group(self, g=0):
        if self.text is None or g != 0:
            raise Unsupported('group of a match in a text of unknown length')
        return self.text

    def __getitem__(self, g):
        return self.group(g)


class HBytes:
    __pv_model__ = True
    __pv_symbolic__ = True

    def __init__(self, text, encoding='ascii'):
        self.text, self.encoding = text, encoding

    def decode(self, encoding='utf-8', errors='strict'):
        if encoding not in (self.encoding, 'utf-8', 'utf8', 'ascii') or self.encoding == 'utf-8' and encoding == 'ascii':
            raise Unsupported('decode')
        return self.text


class HParts:
    """the parts between occurrences of a separator in a text of unknown length"""
    __pv_model__ = True
    __pv_symbolic__ = True

    def __init__(self, text, sep):
        self.text, self.sep = text, sep

    def generic(self):
        """an arbitrary part"""
        c = ctx()
        n = it(self.text.length())
        lo, ln = z3.Int(c.fresh('ci')), z3.Int(c.fresh('ci'))
        c.assume(z3.And(lo >= 0, ln >= 0, lo + ln <= n))
        p = self.text.part(lo, ln)
        x = one(self.sep)
        c.assume(tr(p.forall(lambda ch: neg(same_char(ch, x)))))
        return p

    def __iter__(self):
        raise Unsupported('iteration over the parts of a text')

    def join_texts(self, sep):
        if sep == self.sep:
            return self.text
        return self.text.m_replace(self.sep, sep)

    def comp_text(self, kind, fn):
        """parts, each of them mapped"""
        if kind not in ('gen', 'list'):
            raise Unsupported('comprehension of parts')

        def one_part():
            p = self.generic()
            r = list(fn([p]))
            if len(r) != 1 or not isinstance(r[0], (str, Text)):
                raise Unsupported('comprehension of parts')
            r = r[0]
            f = p.pointwise(r) if isinstance(r, Text) else False
            same = f is not False and ctx().valid(tr(f))[0] == 'valid'
            props = [] if not isinstance(r, HText) else [q for q in CHARS if ctx().valid(tr(r.forall(q)))[0] == 'valid']
            return r, same, props
        outs = []
        for k, cond, r in ctx().enumerate(one_part, fresh=True):
            if k != 'ok':
                raise Unsupported('exception in a comprehension of parts: {!r}'.format(r))
            outs.append(r)
        return MappedParts(self, outs)


def ascii_alnum(c):
    return tx.within(c, [(48, 57), (65, 90), (97, 122)])


# properties of characters tried as invariants of parts
CHARS = [ascii_alnum, lambda c: c < 128]


class MappedParts:
    __pv_model__ = True
    __pv_symbolic__ = True

    def __init__(self, parts, outs):
        self.parts, self.outs = parts, outs

    def __iter__(self):
        raise Unsupported('iteration over the parts of a text')

    def join_texts(self, sep):
        if all(same for _, same, _ in self.outs):
            return self.parts.join_texts(sep)
        # every character is one of the separator or of a part
        seps = tx.chars_of(sep)
        x = z3.Int('qk.char')

        def axiom(c):
            fs = [same_char(c, s) for s in seps]
            for r, _, props in self.outs:
                for s in segs_of(r):
                    if not isinstance(s, View):
                        fs.append(same_char(c, s) if isinstance(s, int) else c >= 0)
                        continue
                    keep, y = s.f(x)
                    if z3.is_expr(y) and y.eq(x):
                        fs.append(True if keep is True else z3.substitute(tr(keep), (x, c)))
                    else:
                        fs.append(z3.Exists([x], tr(conj(x >= 0, keep, same_char(c, y)))))
                    fs[-1] = conj(fs[-1], *[q(c) for q in props])
                    if s.base.axiom is not None and z3.is_expr(y) and y.eq(x):
                        fs[-1] = conj(fs[-1], s.base.axiom(c))
            return disj(*fs)
        return htext('joined', axiom)


class Chars:
    """characters to be joined"""
    __pv_model__ = True

    def __init__(self, text):
        self.text = text

    @staticmethod
    def join_texts(x, sep):
        if sep != '':
            raise Unsupported('join of characters')
        return x.text


def htext(name, axiom=None):
    """an arbitrary text; axiom: property of every character"""
    return HText([View(Base(name, axiom), lambda c: (True, c), True)])


def control(c):
    """ASCII control characters which are no white space"""
    return tx.within(c, [(0, 8), (14, 27), (127, 127)])


class SCat:
    """category of a symbolic character"""
    __pv_model__ = True
    __pv_symbolic__ = True

    def __init__(self, c):
        self.c = c

    def is_(self, name):
        n = 'cat_' + name
        if n not in tx.CACHE:
            import unicodedata
            tx.CACHE[n] = classes(lambda ch: unicodedata.category(ch) == name)
        return char_class(self.c, n)

    def __eq__(self, o):
        return sbool(self.is_(o)) if isinstance(o, str) else False

    def __ne__(self, o):
        return vv.not_(self.__eq__(o))

    __hash__ = None


def classes(f):
    out, start = [], None
    for c in range(sys.maxunicode + 2):
        ok = c <= sys.maxunicode and bool(f(chr(c)))
        if ok and start is None:
            start = c
        elif not ok and start is not None:
            out.append((start, c - 1))
            start = None
    return out


def install():
    import unicodedata
    from .rt import BUILTINS
    orig = unicodedata.category

    def category(c):
        if isinstance(c, SText) and len(c.chars) == 1:
            return SCat(c.chars[0])
        if isinstance(c, Proxy):
            raise Unsupported('category')
        return orig(c)
    BUILTINS[id(orig)] = (orig, category)

    norm = unicodedata.normalize

    def normalize(form, s):
        """contract: ASCII text is unchanged; other text becomes some text"""
        if not isinstance(s, Text):
            return norm(form, s)
        if not isinstance(s, HText):
            raise Unsupported('normalize')
        if test(s.forall(lambda c: c < 128)):
            return s
        r = htext('normalized')
        # control characters neither appear nor vanish
        ctx().assume(tr(r.exists(control)) == tr(s.exists(control)))
        return r
    BUILTINS[id(norm)] = (norm, normalize)
