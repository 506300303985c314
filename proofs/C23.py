"""C23: name normalisation yields usable identifiers."""
import keyword
import string

from pv.h import *
from pv.text import Text, SText, test, chars_of
from pv.htext import HText, htext, same_char, disj, tr, ascii_alnum, control
from csvw import utils

HARNESSES, harness = registry()

ASSUMPTIONS = [
    'unicodedata.normalize leaves ASCII text alone; its result has ASCII control characters iff the text has',
    'unicodedata.category and str.lower: exact for ASCII, uninterpreted for other characters',
]


def chars(t, phi):
    """every character of a text satisfies phi"""
    if isinstance(t, HText):
        return tr(t.forall(phi))
    return And(*[tr(phi(z3.IntVal(c) if isinstance(c, int) else c)) for c in chars_of(t)])


def lower(c):
    return Not(And(c >= 65, c <= 90))


def word(c):
    return Or(ascii_alnum(c), c == 95)


def is_keyword(t):
    return Or(*[eq(t, k) for k in keyword.kwlist])


def first(t):
    return t.char(z3.IntVal(0)) if isinstance(t, HText) else z3.IntVal(chars_of(t)[0]) if isinstance(chars_of(t)[0], int) else chars_of(t)[0]


def text(ctx, name='s'):
    s = htext(name)
    ctx.assume(Not(tr(s.exists(control))))
    return inp('text', s)


# ------------------------------------------------------------------ slug
def _slug(kw):
    @harness('slug: characters, {}'.format(kw or 'defaults'))
    def h(ctx):
        k, r = run(utils.slug, text(ctx), **kw)
        ok = k == 'ok' and isinstance(r, (str, Text))
        ctx.prove('a text', BoolVal(ok), repr(r))
        if not ok:
            return
        ctx.prove('ASCII letters and digits', chars(r, ascii_alnum))
        if kw.get('lowercase', True):
            ctx.prove('lower case', chars(r, lower))
        if isinstance(r, str):
            ctx.prove('idempotent', BoolVal(utils.slug(r, **kw) == r))
            return
        k, r2 = run(utils.slug, r, **kw)
        ctx.prove('idempotent', And(BoolVal(k == 'ok'), tr(r2.pointwise(r)) if isinstance(r2, HText) else
                                    Not(tr(r.exists(lambda c: BoolVal(True)))) if r2 == '' else BoolVal(False)), repr(r2))

    @harness('slug: letters and digits are left alone, {}'.format(kw or 'defaults'))
    def same(ctx):
        s = inp('text', htext('s', ascii_alnum if not kw.get('lowercase', True) else lambda c: And(ascii_alnum(c), lower(c))))
        k, r = run(utils.slug, s, **kw)
        ctx.prove('unchanged', And(BoolVal(k == 'ok'), tr(r.pointwise(s)) if isinstance(r, HText) else BoolVal(False)), repr(r))


for _kw in ({}, {'lowercase': False}):
    _slug(_kw)


# ------------------------------------------------------------------ normalize_name
def slug_contract(s, remove_whitespace=True, lowercase=True):
    """proved above"""
    if not isinstance(s, Text):
        return utils.slug(s, remove_whitespace, lowercase)
    if not remove_whitespace:
        raise Unsupported('slug')
    Ctx.cur.prove('slug: no control characters', Not(tr(s.exists(control))))

    def normal(c):
        return And(ascii_alnum(c), lower(c)) if lowercase else ascii_alnum(c)
    if test(s.forall(normal)):
        return s
    return htext('slug', normal)


CON = {rt.qualname(utils.slug): slug_contract}


def identifier(t):
    """non-empty ASCII identifier, no keyword"""
    if isinstance(t, str):
        return BoolVal(t.isidentifier() and t.isascii() and not keyword.iskeyword(t))
    return And(length(t) > 0, chars(t, word), Or(length(t) == 0, Not(And(first(t) >= 48, first(t) <= 57))), Not(is_keyword(t)))


@harness('normalize_name: an identifier', contracts=CON)
def identifiers(ctx):
    k, r = run(utils.normalize_name, text(ctx))
    ok = k == 'ok' and isinstance(r, (str, Text))
    ctx.prove('a text', BoolVal(ok), repr(r))
    if ok:
        ctx.prove('an identifier', identifier(r), repr(r))


@harness('normalize_name: identifiers are left alone', contracts=CON)
def unchanged(ctx):
    s = inp('text', htext('s', word))
    ctx.assume(length(s) > 0)
    ctx.assume(Not(And(s.char(z3.IntVal(0)) >= 48, s.char(z3.IntVal(0)) <= 57)))
    ctx.assume(Not(is_keyword(s)))
    k, r = run(utils.normalize_name, s)
    ctx.prove('unchanged', And(BoolVal(k == 'ok'), tr(r.pointwise(s)) if isinstance(r, HText) else BoolVal(False)), repr(r))


@harness('normalize_name: keywords', kind='proved')
def keywords(ctx):
    for w in keyword.kwlist:
        k, r = run(utils.normalize_name, w)
        ctx.prove('an underscore is appended', BoolVal(k == 'ok' and r == w + '_'), repr(r))
