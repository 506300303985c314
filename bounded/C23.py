"""C23, bounded: slugs and normalised names of real texts."""
import collections
import keyword
import random
import string
import sys
import unicodedata

from csvw import utils
from bounded.lib import Registry, require, Skip

check = Registry()
ALNUM = set(string.ascii_letters + string.digits)
BAD = {chr(c) for c in range(128) if unicodedata.category(chr(c)) == 'Cc' and not chr(c).isspace()}


def good_slug(s):
    r = utils.slug(s)
    require(set(r) <= set(string.ascii_lowercase + string.digits), 'slug({!r}) = {!r}'.format(s, r))
    require(utils.slug(r) == r, 'slug of {!r}'.format(r))
    r = utils.slug(s, lowercase=False)
    require(set(r) <= ALNUM, 'slug({!r}, lowercase=False) = {!r}'.format(s, r))
    require(utils.slug(r, lowercase=False) == r, 'slug of {!r}'.format(r))
    w = utils.slug(s, remove_whitespace=False)
    require(set(w) <= set(string.ascii_lowercase + string.digits + ' '), 'slug({!r}, remove_whitespace=False) = {!r}'.format(s, w))
    require(utils.slug(s) == w.replace(' ', ''), 'slugs of {!r}'.format(s))
    if set(s) <= ALNUM:
        require(r == s and utils.slug(s) == s.lower(), 'slug({!r}) = {!r}'.format(s, r))


def good_name(s):
    r = utils.normalize_name(s)
    require(r.isascii() and r.isidentifier() and not keyword.iskeyword(r), 'normalize_name({!r}) = {!r}'.format(s, r))
    if s.isascii() and s.isidentifier():
        require(r == (s + '_' if keyword.iskeyword(s) else s), 'normalize_name({!r}) = {!r}'.format(s, r))
    require(utils.normalize_name(r) == r, 'normalize_name({!r}) = {!r}'.format(r, utils.normalize_name(r)))


@check('every character', fixed=[(lo, min(lo + 0x1000, sys.maxunicode + 1)) for lo in range(0, sys.maxunicode + 1, 0x1000)])
def every(case):
    lo, hi = case
    for c in map(chr, range(lo, hi)):
        if c in BAD or 0xd800 <= ord(c) < 0xe000 or unicodedata.category(c) in ('Cn', 'Co'):
            continue
        good_slug('A' + c)
        good_name('1' + c + 'b')
    if lo < 0x3000 or 0xf000 <= lo < 0x10000 or 0x1d000 <= lo < 0x20000:
        for c in map(chr, range(lo, hi)):
            if c not in BAD and not 0xd800 <= ord(c) < 0xe000:
                good_name('clas' + c + 's')
                good_name(c)


KW = [w for w in keyword.kwlist] + [w.title() for w in keyword.kwlist] + ['None_', '_class', 'match', 'print', '__init__', '_', '__', '1', '1a', '_1', 'a1']


def gen(r):
    t = r.random()
    if t < 0.3:
        s = r.choice(KW)
        for _ in range(r.randrange(3)):
            k = r.randrange(len(s) + 1)
            s = s[:k] + r.choice(['', '-', ' ', '.', '_', '\u0308', '\u0301', '\t', '\xad', '!', '\u200b', 'a', '1', '\xe4']) + s[k:]
        return (s,)
    alpha = r.choice(['ab1_', 'aB1_-. ', 'a\xe4\u0308\u0130\u212a\xdf\u01c5\ufb01\u0661\u4e2d\U0001f600\n\t -._9', ''.join(chr(r.randrange(32, 0x3000)) for _ in range(6))])
    return (''.join(r.choice(alpha) for _ in range(r.randrange(8))),)


@check('texts', fixed=[(w,) for w in KW] + [('',), ('cl\xe4ss',), ('\xefmport',), ('is ',), ('if-',), ('for!',), ('-',), ('a__b',), ('a-b.c d',), (' x',), ('\u200bclass',)],
       gen=gen, n=4000)
def texts(case):
    s = case[0]
    if set(s) & BAD:
        raise Skip()
    good_slug(s)
    good_name(s)
