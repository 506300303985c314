"""The run-time dispatch object (`VC_`) of instrumented code."""
import re
import string as _string
import types
import operator
import functools
import collections
import builtins
import warnings
import decimal
import inspect

import attr
import z3

from .core import Ctx, Unsupported, PathEnd, Restart
from . import values as vv
from . import text as tx
from .text import Text, SText
from .values import (
    V, Proxy, SBool, SInt, SVal, SSeq, VList, VSet, VDict, LogBase, Poison, MISSING,
    lift, mk, sbool, bt, it, not_, is_sym, nativize, con_name, uf, lit, hashing, dkeys, ditems, INT,
    BOOL, SETV, MAPV)

BUILTINS = {}
MODELS = {}     # library callables -> model
METHOD_MODELS = {}   # (type, name) -> model(obj, *args)


def builtin(f):
    def deco(g):
        BUILTINS[id(f)] = (f, g)
        return g
    return deco


def model(*fs):
    def deco(g):
        for f in fs:
            MODELS[id(f)] = (f, g)
        return g
    return deco


def ctx():
    return Ctx.cur


def qualname(f):
    f = getattr(f, '__func__', f)
    return '{}.{}'.format(getattr(f, '__module__', None), getattr(f, '__qualname__', None))


def is_ours(f):
    return (getattr(f, '__module__', None) or '').split('.')[0] == 'csvw'


class SFilter(Proxy):
    """A filtered map over 0..n-1: keep(i) and val(i)."""

    def __init__(self, n, keep, val, kind='list'):
        self.n, self.keep, self.val, self.kind = n, keep, val, kind

    def nonempty(self):
        i = z3.Int(ctx().fresh('fi'))
        return z3.Exists([i], z3.And(i >= 0, i < self.n, self.keep(i)))

    def __bool__(self):
        return ctx().branch(self.nonempty())

    def __eq__(self, o):
        return RT.eq(self, o)
    __hash__ = Proxy.__hash__


class Stream:
    """An iterator over a symbolic sequence, with ghost observers."""

    def __init__(self, seq, hooks=(), label='IT'):
        self.seq, self.pos, self.hooks, self.label = seq, 0, tuple(hooks), label

    def __iter__(self):
        return self

    def more(self):
        return ctx().branch(it(self.pos) < self.seq.n)

    def __next__(self):
        if not self.more():
            raise StopIteration
        v = self.seq.get(it(self.pos))
        self.pos = SInt.of(it(self.pos) + 1)
        for h in self.hooks:
            h(v, self)
        return v


class Gen(VList):
    """An evaluated generator expression (consumed once)."""


class SuperMeth:
    pass


STR_RET = {'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'title', 'ljust', 'rjust', 'zfill',
           'removeprefix', 'removesuffix', 'capitalize', 'casefold', 'center', 'expandtabs', 'swapcase',
           'translate'}
STR_BOOL = {'startswith', 'endswith', 'isdigit', 'isalpha', 'isspace', 'isupper', 'islower', 'isalnum',
            'isidentifier', 'isnumeric', 'isdecimal', 'isascii', 'isprintable'}
STR_LIST = {'split', 'splitlines', 'rsplit'}
STR_INT = {'count', 'find', 'rfind'}
STR_TUP = {'partition', 'rpartition'}


def is_str(x):
    return isinstance(x, (str, Text)) or (isinstance(x, SVal) and con_name(x.t) == 'S')


class Runtime:
    def __init__(self):
        self.concats = {}

    # ------------------------------------------------------------ helpers
    def inactive(self):
        return Ctx.cur is None

    def truth(self, x):
        return bool(x)

    def as_str(self, x):
        """str(x)"""
        if is_str(x):
            return str(x) if isinstance(x, str) and type(x) is not str and not isinstance(x, Proxy) else x
        if isinstance(x, SInt) and ctx().digits:
            return tx.int_text(x)
        if isinstance(x, (SInt, SVal, SBool)):
            t = lift(x)
            so = V.S(uf('str_of', V, INT)(t))
            if con_name(t) in ('I', 'B', 'O', 'L', 'T', 'none'):
                return SVal(so)
            return mk(z3.If(V.is_S(t), t, so))
        if isinstance(x, Proxy):
            return SVal(V.S(uf('str_of', V, INT)(lift(x))))
        m = getattr(type(x), '__str__', None)
        if m is not None and is_ours(m):
            return self.call(m, x)
        if isinstance(x, BaseException) and not is_sym(x.args):
            return str(x)
        if isinstance(x, BaseException):
            return self.as_str(x.args[0]) if len(x.args) == 1 else SVal(V.S(z3.Int(ctx().fresh('exc'))))
        if is_sym(x):
            return SVal(V.S(uf('str_of', V, INT)(lift(x))))
        if hasattr(x, '__pv_term__'):
            return SVal(V.S(uf('str_of', V, INT)(lift(x))))
        return str(nativize(x))

    def concat(self, pieces):
        if any(isinstance(p, Text) for p in pieces):
            return tx.concat(pieces)
        flat = []
        for p in pieces:
            if isinstance(p, SVal) and p.t.get_id() in self.concats:
                flat.extend(self.concats[p.t.get_id()][1])
            else:
                flat.append(p)
        out = []
        for p in flat:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        if not out:
            return ''
        if len(out) == 1:
            return out[0]
        f = uf('concat%d' % len(out), *([V] * len(out)), INT)
        t = V.S(f(*[lift(p) for p in out]))
        r = SVal(z3.simplify(t))
        self.concats[r.t.get_id()] = (r.t, out)
        if getattr(ctx(), 'concat_facts', False) and any(isinstance(p, str) for p in out):
            ctx().fact(r.t != lit(''))
        return r

    def fmt_value(self, x, spec):
        con = ctx().s.contracts.get('format')
        if con is not None and is_sym(x):
            r = con(x, spec)
            if r is not NotImplemented:
                return r
        if isinstance(x, SInt) and ctx().digits:
            return tx.int_text(x, spec)
        if isinstance(x, Text) and spec:
            raise Unsupported('format spec for a text')
        if spec:
            if not is_sym(x) and not is_sym(spec):
                return format(x, spec)
            return SVal(V.S(uf('fmt', V, V, INT)(lift(x), lift(spec))))
        return self.as_str(x)

    def fstr(self, *parts):
        out = []
        for p in parts:
            if isinstance(p, tuple):
                v, conv, spec = p
                if conv == 114:
                    v = repr(v) if not is_sym(v) else SVal(V.S(uf('repr_of', V, INT)(lift(v))))
                elif conv == 115:
                    v = self.as_str(v)
                out.append(self.fmt_value(v, spec))
            else:
                out.append(p)
        return self.concat(out)

    def format(self, template, args, kw):
        if not isinstance(template, str):
            return SVal(V.S(uf('format_sym%d' % len(args), *([V] * (1 + len(args))), INT)(
                lift(template), *[lift(a) for a in args])))
        out, auto = [], 0
        for literal, field, spec, conv in _string.Formatter().parse(template):
            out.append(literal)
            if field is None:
                continue
            m = re.match(r'([^.\[]*)(.*)$', field)
            name, rest = m.groups()
            if name == '':
                v = args[auto]
                auto += 1
            elif name.isdigit():
                v = args[int(name)]
            else:
                v = kw[name]
            for am in re.finditer(r'\.(\w+)|\[(\w+)\]', rest):
                v = getattr(v, am.group(1)) if am.group(1) else self.getitem(
                    v, int(am.group(2)) if am.group(2).isdigit() else am.group(2))
            if conv == 'r':
                v = repr(v) if not is_sym(v) else SVal(V.S(uf('repr_of', V, INT)(lift(v))))
            if '{' in spec:
                raise Unsupported('nested format spec')
            out.append(self.fmt_value(v, spec))
        return self.concat(out)

    # ------------------------------------------------------------ operators
    def eq(self, a, b):
        if self.inactive():
            return a == b
        if a is b and not isinstance(a, (float, decimal.Decimal, Poison)):
            return True
        for x in (a, b):
            if isinstance(x, Poison):
                x._no('==')
        if isinstance(a, Text) or isinstance(b, Text):
            return a.__eq__(b) if isinstance(a, Text) else b.__eq__(a)
        if isinstance(a, (SInt, SBool)) and not isinstance(b, (list, tuple, dict, set, SSeq, SFilter)):
            return a.__eq__(b) if not isinstance(b, str) and b is not None else False
        if isinstance(b, (SInt, SBool)) and not isinstance(a, (list, tuple, dict, set, SSeq, SFilter)):
            return b.__eq__(a) if not isinstance(a, str) and a is not None else False
        seqs = (list, tuple, SSeq, SFilter)
        if isinstance(a, seqs) and isinstance(b, seqs):
            return self.same_seq(a, b)
        if isinstance(a, VSet) or isinstance(b, VSet):
            return self.same_set(a, b)
        if isinstance(a, dict) and isinstance(b, dict):
            return self.same_dict(a, b)
        if isinstance(a, SVal) or isinstance(b, SVal):
            s, o = (a, b) if isinstance(a, SVal) else (b, a)
            m = getattr(type(o), '__eq__', None)
            if is_ours(m):
                return m(o, s)
            if isinstance(o, (dict, set)) and not isinstance(o, (VDict, VSet)):
                return self.const_eq(s, o)
            if isinstance(o, (VDict, VSet)):
                if con_name(s.t) not in (None, 'O') or con_name(s.t) == 'O' and ctx().valid(
                        z3.And(*[V.otag(s.t) != vv.tag(c) for c in (dict, set, collections.OrderedDict)])):
                    return False
                raise Unsupported('== between a value and a container')
            return sbool(s.t == lift(o))
        if isinstance(a, seqs) and isinstance(b, seqs) is False and isinstance(a, Proxy):
            return False if b is None or isinstance(b, (str, int)) else self.same_seq(a, b)
        if isinstance(b, (SSeq, SFilter)):
            return self.eq(b, a)
        r = a == b
        return r

    def const_eq(self, s, o):
        return sbool(s.t == lift(o))

    def ne(self, a, b):
        if self.inactive():
            return a != b
        return not_(self.eq(a, b))

    def seq(self, x, strict=True):
        """SSeq view of a list-like value, or None"""
        if isinstance(x, SSeq):
            return x
        if isinstance(x, VList) and x.base is not None:
            if isinstance(x.base, LogBase):
                return None
            tail = list(x)
            if not tail:
                return x.base
            b = x.base

            def at(i):
                r = None
                for k in reversed(range(len(tail))):
                    r = tail[k] if r is None else self.merge([(i == b.n + k, tail[k]), (None, r)])
                return self.merge([(i < b.n, b.get(i)), (None, r)])
            return SSeq(b.n + len(tail), at, 'list')
        if isinstance(x, SVal):
            return self.val_seq(x)
        return None

    def val_seq(self, x):
        c = con_name(x.t)
        if c == 'L':
            return vv.seq_from_term(x.t, 'list')
        if c == 'T':
            return vv.seq_from_term(x.t, 'tuple')
        if c == 'S':
            n = vv.slen(x.t)
            ctx().fact(n >= 0)
            ctx().fact((n == 0) == (V.s(x.t) == 0))
            r = SSeq(n, lambda i: SVal(V.S(uf('str_char', V, INT, INT)(x.t, i))), 'list')
            r.chars_of = x
            return r
        if ctx().branch(V.is_L(x.t)):
            return vv.seq_from_term(x.t, 'list')
        if ctx().branch(V.is_T(x.t)):
            return vv.seq_from_term(x.t, 'tuple')
        raise Unsupported('iterating a value that may not be a sequence')

    def same_seq(self, a, b):
        ka = a.kind if isinstance(a, (SSeq, SFilter)) else ('tuple' if isinstance(a, tuple) else 'list')
        kb = b.kind if isinstance(b, (SSeq, SFilter)) else ('tuple' if isinstance(b, tuple) else 'list')
        if ka != kb:
            return False
        if isinstance(a, SFilter) or isinstance(b, SFilter):
            if isinstance(a, SFilter) and isinstance(b, SFilter):
                i = z3.Int(ctx().fresh('qi'))
                return sbool(z3.And(a.n == b.n, z3.ForAll([i], z3.Implies(
                    z3.And(i >= 0, i < a.n),
                    z3.And(a.keep(i) == b.keep(i),
                           z3.Implies(a.keep(i), bt(self.eq(a.val(i), b.val(i)))))))))
            f, o = (a, b) if isinstance(a, SFilter) else (b, a)
            if isinstance(o, (list, tuple)) and not getattr(o, 'base', None) and len(o) == 0:
                return sbool(z3.Not(f.nonempty()))
            so = self.seq(o)
            if so is not None:
                i = z3.Int(ctx().fresh('qi'))
                # sufficient: nothing is filtered and the elements agree
                r = z3.Bool(ctx().fresh('feq'))
                full = z3.And(f.n == so.n, z3.ForAll([i], z3.Implies(
                    z3.And(i >= 0, i < f.n), z3.And(f.keep(i), bt(self.eq(f.val(i), so.get(i)))))))
                ctx().fact(z3.Implies(full, r))
                return SBool(r)
            return SBool(z3.Bool(ctx().fresh('unknown_eq')))
        la = isinstance(a, VList) and isinstance(a.base, LogBase)
        lb = isinstance(b, VList) and isinstance(b.base, LogBase)
        if la or lb:
            if la and lb and a.base is b.base:
                x, y = list(a), list(b)
                if len(x) != len(y):
                    return False
                return self.conj([self.eq(p, q) for p, q in zip(x, y)])
            return SBool(z3.Bool(ctx().fresh('unknown_eq')))
        sa, sb = self.seq(a), self.seq(b)
        if sa is None and sb is None:
            x, y = list(a), list(b)
            if len(x) != len(y):
                return False
            return self.conj([self.eq(p, q) for p, q in zip(x, y)])
        if sa is not None and sb is not None:
            if sa.key is not None and sb.key is not None:
                if z3.eq(sa.key, sb.key):
                    return True
            i = z3.Int(ctx().fresh('qi'))
            body = bt(self.eq(sa.get(i), sb.get(i)))
            ext = z3.And(sa.n == sb.n, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < sa.n), body)))
            if sa.key is not None and sb.key is not None:
                ext = z3.Or(sa.key == sb.key, ext)
            return sbool(ext)
        s, lst = (sa, list(b)) if sa is not None else (sb, list(a))
        return self.conj([sbool(s.n == len(lst))] + [
            self.eq(s.get(z3.IntVal(k)), e) for k, e in enumerate(lst)])

    def conj(self, xs):
        ts = []
        for x in xs:
            if isinstance(x, bool):
                if not x:
                    return False
                continue
            if x is NotImplemented:
                return False
            ts.append(bt(x))
        return sbool(z3.And(*ts)) if ts else True

    def to_set(self, x):
        if isinstance(x, VSet):
            return x
        if isinstance(x, (set, frozenset)):
            return self.mkset(list(x))
        return None

    def same_set(self, a, b):
        a, b = self.to_set(a), self.to_set(b)
        if a is None or b is None:
            return False
        return sbool(a.arr == b.arr)

    def same_dict(self, a, b):
        if getattr(a, 'map', None) or getattr(b, 'map', None):
            if getattr(a, 'map', None) and getattr(b, 'map', None):
                x = z3.Const(ctx().fresh('qk'), V)
                return sbool(z3.And(a.map[0] == b.map[0], z3.ForAll([x], z3.Implies(
                    z3.Select(a.map[0], x), z3.Select(a.map[1], x) == z3.Select(b.map[1], x)))))
            raise Unsupported('comparing a partially known dict')
        ia, ib = ditems(a), ditems(b)
        if len(ia) != len(ib):
            # symbolic keys in V-dicts are pairwise different by construction
            return False
        conds = []
        ordered = isinstance(a, collections.OrderedDict) and isinstance(b, collections.OrderedDict) and \
            getattr(a, 'od', True) and getattr(b, 'od', True)
        if ordered:
            for (k1, v1), (k2, v2) in zip(ia, ib):
                conds += [self.eq(k1, k2), self.eq(v1, v2)]
            return self.conj(conds)
        for k1, v1 in ia:
            hit = self.dget(b, k1)
            if hit is MISSING:
                return False
            conds.append(self.eq(v1, hit))
        return self.conj(conds)

    def is_(self, a, b):
        if self.inactive():
            return a is b
        if a is b:
            return True
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported('is on a lost value')
        for x, y in ((a, b), (b, a)):
            if y is None and isinstance(x, SVal):
                return sbool(V.is_none(x.t))
            if (y is True or y is False) and isinstance(x, SBool):
                return sbool(x.t == z3.BoolVal(y))
            if (y is True or y is False) and isinstance(x, SVal):
                return sbool(x.t == V.B(z3.BoolVal(y)))
        if isinstance(a, SVal) and isinstance(b, SVal):
            return sbool(a.t == b.t)
        if isinstance(a, SVal) or isinstance(b, SVal):
            s, o = (a, b) if isinstance(a, SVal) else (b, a)
            if o is not None and not isinstance(o, (bool, int, str, tuple, list, dict, set, Proxy)):
                return sbool(s.t == lift(o))
        return False

    def is_not(self, a, b):
        return not_(self.is_(a, b))

    def in_(self, x, c):
        if self.inactive():
            return x in c
        if isinstance(c, VSet):
            return sbool(z3.Select(c.arr, lift(x)))
        if isinstance(c, VDict) and c.map:
            return sbool(z3.Select(c.map[0], lift(x)))
        if isinstance(c, dict):
            if not is_sym(x) and not any(is_sym(k) for k in dkeys(c)):
                return x in c
            return self.dget(c, x) is not MISSING
        if isinstance(c, (set, frozenset)):
            if not is_sym(x):
                return x in c
            return self.disj([self.eq(x, e) for e in c])
        if isinstance(c, (list, tuple)) and getattr(c, 'base', None) is None:
            if not is_sym(x) and not is_sym(c):
                return x in c
            return self.disj([self.eq(x, e) for e in list(c)])
        if isinstance(c, VList) and isinstance(c.base, LogBase):
            raise Unsupported('membership in a partially known list')
        if isinstance(c, SFilter):
            i = z3.Int(ctx().fresh('fi'))
            return sbool(z3.Exists([i], z3.And(i >= 0, i < c.n, c.keep(i), bt(self.eq(c.val(i), x)))))
        if isinstance(c, Text):
            return c.contains(x)
        if is_str(c):
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            if isinstance(c, str) and isinstance(x, SText):
                return SText(tx.chars_of(c)).contains(x)
            return sbool(uf('str_contains', V, V, BOOL)(lift(c), lift(x)))
        h = getattr(c, '__contains__', None)
        if h is not None and not isinstance(c, Proxy) and \
                (is_ours(h) or getattr(type(c), '__pv_symbolic__', False)):
            return h(x)
        s = self.seq(c)
        if s is not None:
            if s.key is not None:
                # membership in a sequence value: a defined predicate
                p = uf('seq_contains', V, V, BOOL)
                t = p(s.key, lift(x))
                k = s.key.get_id()
                if k not in ctx().seqfacts:
                    ctx().seqfacts[k] = s.key
                    x0, i0 = z3.Const(ctx().fresh('fx'), V), z3.Int(ctx().fresh('fi'))
                    w = uf('seq_index', V, V, INT)(s.key, x0)
                    ctx().fact(z3.ForAll([x0], z3.Implies(p(s.key, x0), z3.And(
                        w >= 0, w < s.n, lift(s.get(w)) == x0)), patterns=[p(s.key, x0)]))
                    ctx().fact(z3.ForAll([i0], z3.Implies(z3.And(i0 >= 0, i0 < s.n), p(s.key, lift(s.get(i0))))))
                return sbool(t)
            i = z3.Int(ctx().fresh('fi'))
            return sbool(z3.Exists([i], z3.And(i >= 0, i < s.n, bt(self.eq(s.get(i), x)))))
        if is_sym(x) or is_sym(c):
            raise Unsupported('in {}'.format(type(c).__name__))
        return x in c

    def disj(self, xs):
        ts = []
        for x in xs:
            if isinstance(x, bool):
                if x:
                    return True
                continue
            ts.append(bt(x))
        return sbool(z3.Or(*ts)) if ts else False

    def not_in(self, x, c):
        return not_(self.in_(x, c))

    def mod(self, a, b):
        if self.inactive() or (not is_sym(a) and not is_sym(b)):
            return a % b
        if isinstance(a, str):
            args = list(b) if isinstance(b, tuple) else [b]
            out, pos = [], 0
            for m in re.finditer(r'%(.)', a):
                out.append(a[pos:m.start()])
                pos = m.end()
                if m.group(1) == '%':
                    out.append('%')
                elif m.group(1) in 'sd':
                    out.append(self.as_str(args.pop(0)))
                else:
                    raise Unsupported('% format')
            out.append(a[pos:])
            return self.concat(out)
        if isinstance(a, SInt) and isinstance(b, int) and b > 0:
            return SInt.of(a.t % b)
        raise Unsupported('%')

    def add(self, a, b):
        if self.inactive() or (not is_sym(a) and not is_sym(b)):
            r = a + b
            return VList(r) if type(r) is list and not self.inactive() else r
        if is_str(a) and is_str(b):
            return self.concat([a, b])
        if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)):
            return SInt.of(it(a) + it(b))
        if isinstance(a, (list, SSeq)) and isinstance(b, (list, SSeq)):
            r = self.to_list(a)
            self.extend(r, b)
            return r
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, SInt) or isinstance(b, SInt):
            return SInt.of(it(a) + it(b))
        raise Unsupported('+ on {} and {}'.format(type(a).__name__, type(b).__name__))

    def sub(self, a, b):
        if self.inactive():
            return a - b
        if isinstance(a, (set, VSet, Gen)) or (isinstance(b, (set, VSet)) and isinstance(a, (list, VDict))):
            return self.set_diff(a, b)
        if isinstance(a, type({}.keys())):
            a = self.mkset(list(a))
            return self.set_diff(a, b)
        return a - b

    def bor(self, a, b):
        if self.inactive():
            return a | b
        if isinstance(a, (set, VSet)) and isinstance(b, (set, VSet)):
            x, y = self.to_set(a), self.to_set(b)
            el = None if x.elems is None or y.elems is None else self.dedupe(x.elems + y.elems)
            return VSet(z3.SetUnion(x.arr, y.arr), el)
        if is_sym(a) or is_sym(b):
            raise Unsupported('|')
        return a | b

    def set_diff(self, a, b):
        x, y = self.to_set(a), self.to_set(b)
        if x is None or y is None:
            raise Unsupported('set difference')
        arr = z3.SetDifference(x.arr, y.arr)
        el = None
        if x.elems is not None and y.elems is not None and not is_sym(x) and not is_sym(y):
            el = [e for e in x.elems if e not in y.elems]
        r = VSet(arr, el)
        return r

    def dedupe(self, elems):
        out = []
        for e in elems:
            if not any(e is o or (not is_sym(e) and not is_sym(o) and type(e) is type(o) and e == o)
                       for o in out):
                out.append(e)
        return out

    # ------------------------------------------------------------ containers
    def mklist(self, x):
        if self.inactive():
            return x
        return VList(x)

    def mkset(self, elems):
        if self.inactive():
            return set(elems)
        arr = z3.K(V, z3.BoolVal(False))
        for e in elems:
            arr = z3.Store(arr, lift(e), True)
        return VSet(arr, self.dedupe(list(elems)))

    def mkdict(self, items):
        if self.inactive():
            d = {}
            for k, v in items:
                if k is Ellipsis:
                    d.update(v)
                else:
                    d[k] = v
            return d
        d = VDict()
        for k, v in items:
            if k is Ellipsis:
                self.dupdate(d, v)
            else:
                self.dset(d, k, v)
        return d

    def dget(self, d, k):
        """value under key k, or MISSING (branches on symbolic equality)"""
        if getattr(d, 'map', None):
            if ctx().branch(z3.Select(d.map[0], lift(k))):
                return mk(z3.Select(d.map[1], lift(k)))
            return MISSING
        keys = dkeys(d)
        if not is_sym(k) and not any(is_sym(x) for x in keys):
            return dict.get(d, nativize(k) if isinstance(k, tuple) else k, MISSING)
        for x in keys:
            if bool(self.eq(x, k)):
                with hashing():
                    return dict.__getitem__(d, x)
        return MISSING

    def dset(self, d, k, v):
        if getattr(d, 'map', None):
            d.map = (z3.Store(d.map[0], lift(k), True), z3.Store(d.map[1], lift(k), lift(v)))
            return
        keys = dkeys(d)
        if isinstance(k, (list, VDict, VSet, VList)):
            raise TypeError('unhashable type')
        if not is_sym(k) and not any(is_sym(x) for x in keys):
            if isinstance(d, collections.OrderedDict):
                collections.OrderedDict.__setitem__(d, k, v)
            else:
                dict.__setitem__(d, k, v)
            return
        if not isinstance(d, collections.OrderedDict):
            raise Unsupported('symbolic key stored in a native dict')
        for x in keys:
            if bool(self.eq(x, k)):
                with hashing():
                    collections.OrderedDict.__setitem__(d, x, v)
                return
        with hashing():
            collections.OrderedDict.__setitem__(d, k, v)

    def ddel(self, d, k):
        if getattr(d, 'map', None):
            d.map = (z3.Store(d.map[0], lift(k), False), d.map[1])
            return
        for x in dkeys(d):
            if bool(self.eq(x, k)):
                with hashing():
                    collections.OrderedDict.__delitem__(d, x) if isinstance(d, collections.OrderedDict) \
                        else dict.__delitem__(d, x)
                return
        raise KeyError(k)

    def dupdate(self, d, o, kw=None):
        if isinstance(o, dict):
            if getattr(o, 'map', None):
                raise Unsupported('update from a partially known dict')
            for k, v in ditems(o):
                self.dset(d, k, v)
        elif o is not None and hasattr(type(o), '__pv_items__'):
            for k, v in o.__pv_items__():
                self.dset(d, k, v)
        elif o is not None:
            s = self.seq(o) if not isinstance(o, (list, tuple)) or getattr(o, 'base', None) else None
            if s is not None and s.maxlen is None:
                raise Unsupported('dict from a symbolic sequence')
            for k, v in self.iterable(o):
                self.dset(d, k, v)
        for k, v in (kw or {}).items():
            self.dset(d, k, v)

    def slice(self, a, b, c):
        return slice(a, b, c)

    def getitem(self, o, k):
        if self.inactive():
            return o[k]
        if isinstance(o, VList) and o.base is not None:
            s = self.seq(o)
            if s is None:
                raise Unsupported('subscript of a partially known list')
            o = s
        if isinstance(o, SSeq):
            return self.seq_item(o, k)
        if isinstance(o, SFilter):
            raise Unsupported('subscript of a filtered sequence')
        if isinstance(o, dict):
            r = self.dget(o, k)
            if r is MISSING:
                if hasattr(type(o), '__missing__') or (
                        isinstance(o, VDict) and getattr(o, 'factory', None)):
                    r = o.factory()
                    self.dset(o, k, r)
                    return r
                raise KeyError(k)
            return r
        if isinstance(o, (list, tuple)):
            if isinstance(k, slice):
                if any(isinstance(x, Proxy) for x in (k.start, k.stop, k.step)):
                    return self.seq_item(self.list_seq(o), k)
                r = o[k]
                return VList(r) if isinstance(o, list) else r
            if isinstance(k, Proxy):
                k = self.concrete_index(k, len(o))
            return o[k]
        if isinstance(o, Text):
            return o.item(k)
        if is_str(o) and isinstance(o, SVal):
            return self.str_item(o, k)
        if isinstance(o, SVal):
            m = METHOD_MODELS.get(('SVal', '__getitem__'))
            if con_name(o.t) == 'S':
                return self.str_item(o, k)
            if isinstance(k, (int, slice)) or isinstance(k, SInt):
                return self.seq_item(self.val_seq(o), k)
            raise Unsupported('subscript of a symbolic value')
        if isinstance(o, str) and (isinstance(k, Proxy) or isinstance(k, slice) and any(
                isinstance(x, Proxy) for x in (k.start, k.stop, k.step))):
            raise Unsupported('symbolic index into a string')
        m = getattr(type(o), '__getitem__', None)
        if is_ours(m):
            return self.call(m, o, k)
        return o[k]

    def str_item(self, s, k):
        c = ctx()
        if isinstance(k, slice):
            ts = [V.none if x is None else lift(x) for x in (k.start, k.stop, k.step)]
            return SVal(V.S(uf('str_slice', V, V, V, V, INT)(s.t, *ts)))
        n = vv.slen(s.t)
        c.fact(n >= 0)
        c.fact((n == 0) == (V.s(s.t) == 0))
        kk = it(k)
        if not c.branch(z3.And(kk < n, kk >= -n)):
            raise IndexError('string index out of range')
        return SVal(V.S(uf('str_char', V, INT, INT)(s.t, z3.simplify(z3.If(kk < 0, kk + n, kk)))))

    def list_seq(self, o):
        if isinstance(o, VList) and isinstance(o.base, LogBase):
            raise Unsupported('items of a partially known list')
        items = list(o)

        def at(i):
            r = None
            for k in reversed(range(len(items))):
                r = items[k] if r is None else self.merge([(i == k, items[k]), (None, r)])
            return r
        return SSeq(z3.IntVal(len(items)), at, 'tuple' if isinstance(o, tuple) else 'list',
                    maxlen=len(items))

    def concrete_index(self, k, n):
        for i in range(n):
            if ctx().branch(it(k) == i):
                return i
        for i in range(1, n + 1):
            if ctx().branch(it(k) == -i):
                return -i
        raise IndexError('index out of range')

    def seq_item(self, s, k):
        c = ctx()
        if isinstance(k, slice):
            if k.step is not None:
                raise Unsupported('slice with step')
            lo = it(k.start) if k.start is not None else z3.IntVal(0)
            hi = it(k.stop) if k.stop is not None else s.n
            n = s.n

            def clamp(x):
                x = z3.If(x < 0, z3.If(x + n < 0, z3.IntVal(0), x + n), x)
                return z3.If(x > n, n, x)
            lo, hi = z3.simplify(clamp(lo)), z3.simplify(clamp(hi))
            m = z3.simplify(z3.If(hi - lo > 0, hi - lo, z3.IntVal(0)))
            r = SSeq(m, lambda i: s.get(i + lo), s.kind, maxlen=s.maxlen)
            if s.key is not None:
                if k.start == 0 and k.stop is None or (k.start is None and k.stop is None):
                    r.key = s.key
            return VList(base=r) if s.kind == 'list' else r
        kk = it(k)
        if not c.branch(z3.And(kk < s.n, kk >= -s.n)):
            raise IndexError('index out of range')
        return s.get(z3.simplify(z3.If(kk < 0, kk + s.n, kk)))

    def setitem(self, v, o, k):
        if self.inactive():
            o[k] = v
            return
        if isinstance(o, dict):
            m = type(o).__setitem__
            if is_ours(m):
                return m(o, k, v)
            return self.dset(o, k, v)
        if isinstance(o, VList):
            if o.base is not None or isinstance(k, Proxy):
                raise Unsupported('assignment into a partially known list')
        if isinstance(o, Proxy):
            raise Unsupported('item assignment on a symbolic value')
        o[k] = v

    def delitem(self, o, k):
        if self.inactive():
            del o[k]
            return
        if isinstance(o, dict):
            return self.ddel(o, k)
        if isinstance(o, Proxy) or is_sym(k):
            raise Unsupported('del item')
        del o[k]

    OPS = {'Add': 'add', 'Sub': 'sub', 'BitOr': 'bor', 'Mod': 'mod'}

    def binop(self, op, a, b):
        n = self.OPS.get(op)
        if n:
            return getattr(self, n)(a, b)
        f = {'Mult': operator.mul, 'Div': operator.truediv, 'FloorDiv': operator.floordiv,
             'BitAnd': operator.and_, 'Pow': operator.pow}[op]
        return f(a, b)

    def aug(self, op, a, b):
        if self.inactive():
            f = {'Add': operator.iadd, 'Sub': operator.isub, 'BitOr': operator.ior,
                 'Mult': operator.imul, 'Mod': operator.imod, 'BitAnd': operator.iand,
                 'Div': operator.itruediv, 'FloorDiv': operator.ifloordiv}[op]
            return f(a, b)
        if isinstance(a, list) and op == 'Add':
            self.extend(a, b)
            return a
        if isinstance(a, VSet) and op in ('BitOr', 'Sub', 'BitAnd'):
            r = self.binop(op, a, b)
            a.arr, a.elems = r.arr, r.elems
            return a
        return self.binop(op, a, b)

    def augitem(self, op, o, k, v):
        self.setitem(self.aug(op, self.getitem(o, k), v), o, k)

    def augattr(self, op, o, k, v):
        setattr(o, k, self.aug(op, getattr(o, k), v))

    def unpack(self, x, n):
        if self.inactive():
            return x
        if isinstance(x, (tuple, list)) and getattr(x, 'base', None) is None:
            return x
        if isinstance(x, (SSeq, VList, SVal)):
            s = self.seq(x)
            if s is None:
                raise Unsupported('unpacking')
            if not ctx().branch(s.n == n):
                raise ValueError('not enough/too many values to unpack')
            return tuple(s.get(z3.IntVal(i)) for i in range(n))
        return x

    def to_list(self, x):
        if isinstance(x, (VList,)):
            r = VList(list(x))
            if x.base is not None:
                r.base = x.base
            return r
        if isinstance(x, SSeq):
            if x.kind != 'list':
                x = SSeq(x.n, x.at, 'list', None, x.maxlen)
            return VList(base=x)
        if isinstance(x, SFilter):
            return x
        if isinstance(x, SVal):
            return self.to_list(self.val_seq(x))
        return VList(self.iterable(x))

    def extend(self, a, b):
        s = None
        if isinstance(b, (SSeq, SVal)) or (isinstance(b, VList) and b.base is not None):
            s = self.seq(b)
            if s is None:
                if a.base is None and not list.__len__(a):
                    a.base = b.base
                    list.extend(a, list(b))
                    return
                raise Unsupported('extend by a partially known list')
            if a.base is None and not list.__len__(a):
                a.base = s
                return
            sa = self.seq(a) if a.base is not None else self.list_seq(list(a))
            if sa is None:
                raise Unsupported('extend of a partially known list')

            def at(i):
                return self.merge([(i < sa.n, sa.get(i)), (None, s.get(i - sa.n))]) \
                    if not z3.is_int_value(z3.simplify(sa.n)) or sa.n.as_long() else s.get(i)
            list.clear(a)
            a.base = SSeq(sa.n + s.n, at, 'list')
            return
        if isinstance(b, SFilter):
            raise Unsupported('extend by a filtered sequence')
        list.extend(a, self.iterable(b))

    # ------------------------------------------------------------ iteration
    def iterable(self, x):
        """native iterator over a concrete-length iterable"""
        if self.inactive():
            return iter(x)
        if isinstance(x, Poison):
            x._no('iteration')
        if isinstance(x, Text) and not isinstance(x, SText):
            raise Unsupported('iteration over a text of unknown length')
        if isinstance(x, SText):
            return iter(x.items())
        if isinstance(x, SSeq) and x.maxlen is not None:
            def unrolled():
                for k in range(x.maxlen):
                    if not ctx().branch(x.n > k):
                        return
                    yield x.get(z3.IntVal(k))
            return unrolled()
        if isinstance(x, Proxy) or (isinstance(x, VList) and x.base is not None):
            raise Unsupported('native iteration over a symbolic sequence')
        if isinstance(x, VSet):
            if x.elems is None:
                raise Unsupported('iteration over a symbolic set')
            return iter(list(x.elems))
        if isinstance(x, VDict):
            if x.map:
                raise Unsupported('iteration over a partially known dict')
            return iter(dkeys(x))
        if isinstance(x, Gen):
            items = list(x)
            list.clear(x)
            return iter(items)
        m = getattr(type(x), '__iter__', None)
        if is_ours(m):
            return self.call(m, x)
        if isinstance(x, (Stream, EnumStream, LazyGen)):
            raise Unsupported('native iteration over a stream')
        return iter(x)

    def symbolic_iter(self, x):
        """a Stream if x must be iterated symbolically, else None"""
        if isinstance(x, Stream):
            return x
        if isinstance(x, SSeq):
            return None if x.maxlen is not None else Stream(x, x.hooks)
        if isinstance(x, VList) and x.base is not None:
            s = self.seq(x)
            if s is None:
                raise Unsupported('iteration over a partially known list')
            return None if s.maxlen is not None else Stream(s)
        if isinstance(x, SVal):
            return Stream(self.val_seq(x))
        if isinstance(x, SFilter):
            st = Stream(SSeq(x.n, x.val, x.kind))
            st.keep = x.keep
            return st
        return None

    def loop(self, lid, x, isfor, names):
        from . import loops
        return loops.make(self, lid, x, isfor, names)

    def merge(self, cases):
        """value of the first case whose condition holds (the last one is the default)"""
        vals = [v for _, v in cases]
        v0 = vals[0]
        if len(vals) == 1 or all(v is v0 for v in vals):
            return v0
        if all(isinstance(v, (bool, SBool)) for v in vals):
            r = bt(vals[-1])
            for c, v in reversed(cases[:-1]):
                r = z3.If(c, bt(v), r)
            return sbool(r)
        if all(isinstance(v, (int, SInt)) and not isinstance(v, bool) for v in vals):
            r = it(vals[-1])
            for c, v in reversed(cases[:-1]):
                r = z3.If(c, it(v), r)
            return SInt.of(r)
        if all(isinstance(v, tuple) for v in vals) and len({len(v) for v in vals}) == 1:
            return tuple(self.merge([(c, v[k]) for c, v in cases]) for k in range(len(v0)))
        h = getattr(type(v0), '__pv_merge__', None)
        if h is not None:
            return h(cases)
        if all(is_str(v) for v in vals):
            r = V.s(lift(vals[-1]))
            for c, v in reversed(cases[:-1]):
                r = z3.If(c, V.s(lift(v)), r)
            return mk(V.S(z3.simplify(r)))
        r = lift(vals[-1])
        for c, v in reversed(cases[:-1]):
            r = z3.If(c, lift(v), r)
        return mk(r)

    def subst(self, v, i, j):
        if isinstance(v, SVal):
            t = z3.substitute(v.t, (i, j))
            r = mk(t)
            if v.t.get_id() in self.concats and isinstance(r, SVal):
                self.concats.setdefault(r.t.get_id(), (
                    r.t, [self.subst(p, i, j) for p in self.concats[v.t.get_id()][1]]))
            return r
        if isinstance(v, SInt):
            return SInt.of(z3.substitute(v.t, (i, j)))
        if isinstance(v, SBool):
            return sbool(z3.substitute(v.t, (i, j)))
        if isinstance(v, tuple):
            return tuple(self.subst(x, i, j) for x in v)
        if isinstance(v, SSeq):
            return SSeq(z3.substitute(v.n, (i, j)), lambda k: self.subst(v.get(k), i, j), v.kind,
                        None if v.key is None else z3.substitute(v.key, (i, j)), v.maxlen)
        if isinstance(v, VList):
            return VList([self.subst(x, i, j) for x in list(v)],
                         None if v.base is None else self.subst(v.base, i, j))
        if isinstance(v, VDict) and not v.map:
            d = VDict()
            d.od = v.od
            with hashing():
                for k, x in ditems(v):
                    collections.OrderedDict.__setitem__(d, self.subst(k, i, j), self.subst(x, i, j))
            return d
        h = getattr(v, '__pv_subst__', None)
        if h is not None:
            return h(i, j)
        if is_sym(v):
            raise Unsupported('substitution in {}'.format(type(v).__name__))
        return v

    def comp(self, kind, cid, fn, x, filt):
        if self.inactive():
            r = fn(x)
            return r if kind == 'list' else set(r) if kind == 'set' else dict(r) if kind == 'dict' \
                else iter(r)
        h = getattr(type(x), 'comp_text', None)
        if h is not None:
            return h(x, kind, fn)
        st = self.symbolic_iter(x)
        if kind == 'gen' and (
                (isinstance(x, Stream) and x.hooks) or isinstance(x, (EnumStream, LazyGen)) or (
                    st is None and not isinstance(x, (list, tuple, dict, VList, VSet))
                    and is_ours(getattr(type(x), '__next__', None)))):
            return LazyGen(x, fn)
        if st is None:
            r = fn(self.iterable(x))
            if kind == 'list':
                return VList(r)
            if kind == 'gen':
                return Gen(r)
            if kind == 'set':
                return self.mkset(r)
            return self.mkdict(r)
        if not isinstance(x, Stream) or not x.hooks:
            r = self.map_summary(cid, fn, st)
        else:
            raise Unsupported('comprehension over an observed stream')
        if kind == 'list':
            return self.to_list(r)
        if kind == 'gen':
            return r
        if kind == 'set':
            return self.set_of(r)
        if kind == 'dict':
            return self.dict_of(r)

    def dict_of(self, r):
        h = ctx().dict_summary
        if h is not None:
            return h(r)
        raise Unsupported('dict comprehension over a symbolic sequence')

    def map_summary(self, cid, fn, st):
        c = ctx()
        s = st.seq
        i = z3.Int(c.fresh('ci'))
        if not (isinstance(st.pos, int) and st.pos == 0):
            pos = it(st.pos)
            s0 = s
            s = SSeq(s0.n - pos, lambda k: s0.get(k + pos), s0.kind)
            st.pos = SInt.of(s0.n)
        keep0 = getattr(st, 'keep', None)

        def elem():
            c.assume(z3.And(i >= 0, i < s.n))
            if keep0 is not None:
                c.assume(keep0(i))
            return fn([s.get(i)])
        c.nwarn = []
        c.mapping = getattr(c, 'mapping', 0) + 1      # contracts must not change ghost state for an arbitrary element
        try:
            res = c.enumerate(elem)
        finally:
            c.mapping -= 1
        dom = z3.And(i >= 0, i < s.n)
        if c.nwarn:
            c.elem_warns.append((i, dom if keep0 is None else z3.And(dom, keep0(i)), z3.Or(*c.nwarn)))
        oks = [(cond, r) for k, cond, r in res if k == 'ok']
        excs = [(cond, r) for k, cond, r in res if k == 'exc']
        if excs:
            k = c.choose(1 + len(excs))
            if k > 0:
                cond, e = excs[k - 1]
                w = z3.Int(c.fresh('wit'))
                c.assume(z3.substitute(z3.And(dom, cond), (i, w)))
                raise e
            bad = z3.Or(*[cond for cond, _ in excs])
            c.assume(z3.ForAll([i], z3.Implies(dom, z3.Not(bad))))
        if not oks:
            # no element can be evaluated: the sequence is empty on this path
            c.assume(s.n == 0)
            return SSeq(z3.IntVal(0), lambda k: None, 'list', maxlen=0)
        if any(len(r) > 1 for _, r in oks):
            raise Unsupported('nested comprehension over a symbolic sequence')
        kept = [(cond, r[0]) for cond, r in oks if len(r)]
        if keep0 is None and all(len(r) for _, r in oks):
            val = self.merge([(cond, v) for cond, v in kept])
            if isinstance(val, SVal) and s.key is not None:
                d = s.get(i)
                if isinstance(d, SVal) and z3.eq(d.t, val.t):
                    return s        # identity map
            return SSeq(s.n, lambda k: self.subst(val, i, k), 'list')
        if not kept:
            return SSeq(z3.IntVal(0), lambda k: None, 'list', maxlen=0)
        keep = z3.simplify(z3.Or(*[cond for cond, _ in kept]))
        if keep0 is not None:
            keep = z3.And(keep0(i), keep)
        val = self.merge(kept)
        return SFilter(s.n, lambda k: z3.substitute(keep, (i, k)), lambda k: self.subst(val, i, k))

    def set_of(self, x):
        """set(x)"""
        if isinstance(x, VSet):
            return VSet(x.arr, None if x.elems is None else list(x.elems))
        if isinstance(x, Stream):
            raise Unsupported('set of a stream')
        s = None
        if isinstance(x, (SSeq, SVal)) or (isinstance(x, VList) and x.base is not None):
            s = self.seq(x)
            if s is None:
                raise Unsupported('set of a partially known list')
            if s.maxlen is not None:
                return self.mkset(list(self.iterable(s)))
            keep, val, n = (lambda i: z3.BoolVal(True)), s.get, s.n
        elif isinstance(x, SFilter):
            keep, val, n = x.keep, x.val, x.n
        else:
            return self.mkset(list(self.iterable(x)))
        c = ctx()
        nm = c.fresh('setof')
        a = z3.Const(nm, SETV)
        if s is not None and s.key is not None:
            a = uf('setof', V, SETV)(s.key)
        i, k = z3.Int(nm + '.i'), z3.Const(nm + '.k', V)
        c.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n, keep(i)), z3.Select(a, lift(val(i))))))
        w = uf(nm + '.w', V, INT)
        c.fact(z3.ForAll([k], z3.Implies(z3.Select(a, k), z3.And(
            w(k) >= 0, w(k) < n, keep(w(k)), lift(val(w(k))) == k)), patterns=[z3.Select(a, k)]))
        return VSet(a, None)

    # ------------------------------------------------------------ calls
    def call(self, f, *args, **kw):
        if self.inactive():
            return f(*args, **kw)
        return self.call_(False, f, args, kw)

    def call_(self, direct, f, args, kw):
        b = BUILTINS.get(id(f))
        c = ctx()
        if b is not None:
            if c.s.contracts:
                con = c.s.contracts.get('builtin:' + getattr(f, '__name__', ''))
                if con is not None and (is_sym(args) or is_sym(kw)):
                    c.s.used_contracts.add(f.__name__)
                    return con(*args, **kw)
            return b[1](*args, **kw)
        if isinstance(f, Proxy):
            raise Unsupported('call of a symbolic value')
        q = qualname(f)
        con = c.s.contracts.get(q)
        if con is not None:
            c.s.used_contracts.add(q)
            if isinstance(f, types.MethodType):
                return con(f.__self__, *args, **kw)
            return con(*args, **kw)
        m = MODELS.get(id(f))
        if m is not None:
            c.s.models_used.add(q)
            return m[1](*args, **kw)
        if isinstance(f, functools.partial):
            return self.call(f.func, *f.args, *args, **dict(f.keywords, **kw))
        if getattr(f, '__name__', '') == '__contains__' and len(args) == 1 and not kw and isinstance(
                getattr(f, '__self__', None), (set, frozenset, dict, list, tuple, str)):
            return self.in_(args[0], f.__self__)
        if not direct and isinstance(f, types.BuiltinMethodType) and not isinstance(
                f.__self__, types.ModuleType) and f.__self__ is not None:
            return self.meth(f.__self__, f.__name__, *args, **kw)
        if isinstance(f, (operator.itemgetter,)):
            return self.itemgetter(f, *args)
        if getattr(f, '__pv_model__', False) or getattr(type(f), '__pv_model__', False):
            return f(*args, **kw)
        if is_ours(f) or is_ours(type(f)) or (isinstance(f, type) and is_ours(f)):
            c.s.functions.add(q)
            return f(*args, **kw)
        if isinstance(f, type) and (issubclass(f, BaseException) or issubclass(f, tuple) and hasattr(f, '_fields')):
            return f(*args, **kw)
        if isinstance(f, types.FunctionType) and f.__module__ and f.__module__.startswith(('pv', 'proofs')):
            return f(*args, **kw)
        if isinstance(f, types.MethodType) and (f.__func__.__module__ or '').startswith(('pv', 'proofs')):
            return f(*args, **kw)
        if isinstance(f, types.MethodType):
            mm = METHOD_MODELS.get((type(f.__self__), f.__name__))
            if mm is not None:
                return mm(f.__self__, *args, **kw)
        if is_sym(args) or is_sym(kw) or (isinstance(f, types.MethodType) and is_sym(f.__self__)):
            raise Unsupported('call of {} with a symbolic argument'.format(q))
        r = f(*[nativize(a) for a in args], **{k: nativize(v) for k, v in kw.items()})
        return r

    def itemgetter(self, g, o):
        _, keys = g.__reduce__()
        if len(keys) == 1:
            return self.getitem(o, keys[0])
        return tuple(self.getitem(o, k) for k in keys)

    def star(self, pos, kws):
        args = []
        for k, v in pos:
            if k == '*':
                s = self.symbolic_iter(v) if not isinstance(v, (tuple,)) else None
                if s is not None:
                    args.append(StarSeq(s.seq))
                else:
                    args.extend(list(self.iterable(v)))
            else:
                args.append(v)
        kw, symkw = {}, []
        for k, v in kws:
            if k is None:
                if hasattr(type(v), '__pv_items__') and not isinstance(v, dict):
                    symkw.append(v)
                    continue
                for kk, x in ditems(v):
                    if isinstance(kk, Proxy):
                        symkw.append((kk, x))
                    else:
                        kw[kk] = x
            else:
                kw[k] = v
        return args, kw, symkw

    def xcall(self, f, pos, kws):
        if self.inactive():
            args, kw = [], {}
            for k, v in pos:
                args.extend(v) if k == '*' else args.append(v)
            for k, v in kws:
                kw.update(v) if k is None else kw.update({k: v})
            return f(*args, **kw)
        args, kw, symkw = self.star(pos, kws)
        if any(isinstance(a, StarSeq) for a in args) or symkw:
            m = XMODELS.get(id(f)) or ctx().s.contracts.get('x:' + qualname(f))
            if m is None:
                raise Unsupported('star call of {} with symbolic arguments'.format(qualname(f)))
            return (m[1] if isinstance(m, tuple) else m)(args, kw, symkw)
        return self.call(f, *args, **kw)

    def xmeth(self, o, name, pos, kws):
        if self.inactive():
            return self.xcall(getattr(o, name), pos, kws)
        args, kw, symkw = self.star(pos, kws)
        if any(isinstance(a, StarSeq) for a in args) or symkw:
            h = getattr(o, 'x_' + name, None) if getattr(type(o), '__pv_model__', False) else None
            if h is None:
                f = getattr(o, name)
                if id(f) in XMODELS and isinstance(o, types.ModuleType):
                    return XMODELS[id(f)][1](args, kw, symkw)
                h0 = ctx().s.contracts.get('x:' + qualname(f))
                if h0 is None:
                    raise Unsupported('star call of {} with symbolic arguments'.format(name))
                return h0(o, args, kw, symkw)
            return h(args, kw, symkw)
        return self.meth(o, name, *args, **kw)

    def meth(self, o, name, *args, **kw):
        if self.inactive():
            return getattr(o, name)(*args, **kw)
        if isinstance(o, Poison):
            o._no('method ' + name)
        if isinstance(o, Text) or (isinstance(o, str) and any(isinstance(a, Text) for a in args)):
            if name == 'join':
                return self.join(o, args[0])
            if name == 'format':
                if isinstance(o, Text):
                    raise Unsupported('format of a symbolic template')
                return self.format(o, args, kw)
            f = ctx().s.contracts.get('Text.' + name)
            if f is not None:
                ctx().s.used_contracts.add('str.' + name)
                return f(o, *args, **kw)
            f = getattr(type(o) if isinstance(o, Text) else SText, 'm_' + name, None)
            if f is None:
                raise Unsupported('str.{} on a symbolic text'.format(name))
            return f(SText(tx.chars_of(o)) if isinstance(o, str) else o, *args, **kw)
        if isinstance(o, str) or (isinstance(o, SVal) and con_name(o.t) == 'S'):
            return self.str_meth(o, name, args, kw)
        if isinstance(o, dict) and not is_ours(getattr(type(o), name, None)):
            if isinstance(o, VDict) or is_sym(args):
                return self.dict_meth(o, name, args, kw)
        if isinstance(o, VSet):
            return self.set_meth(o, name, args, kw)
        if isinstance(o, (set, frozenset)) and is_sym(args):
            return self.set_meth(self.mkset(list(o)), name, args, kw)
        if isinstance(o, list) and not is_ours(getattr(type(o), name, None)):
            return self.list_meth(o, name, args, kw)
        if isinstance(o, SSeq):
            if name in ('index', 'count'):
                raise Unsupported('sequence method ' + name)
            raise Unsupported('method {} on a symbolic sequence'.format(name))
        if isinstance(o, SVal):
            m = METHOD_MODELS.get(('SVal', name))
            if m is not None:
                return m(o, *args, **kw)
            if name in STR_RET | STR_BOOL | STR_LIST | STR_INT | STR_TUP | {'join', 'format', 'encode'}:
                if ctx().branch(V.is_S(o.t)):
                    return self.str_meth(SVal(V.S(V.s(o.t))), name, args, kw)
                raise AttributeError("object has no attribute '%s'" % name)
            raise Unsupported('method {} on a symbolic value'.format(name))
        if isinstance(o, Proxy):
            raise Unsupported('method {} on {}'.format(name, type(o).__name__))
        f = getattr(o, name)
        for k in type(o).__mro__:
            mm = METHOD_MODELS.get((k, name))
            if mm is not None:
                return mm(o, *args, **kw)
        return self.call_(True, f, args, kw)

    # -- strings
    def str_meth(self, o, name, args, kw):
        if name == 'format':
            return self.format(o, args, kw)
        if name == 'join':
            return self.join(o, args[0])
        if not isinstance(o, Proxy) and not is_sym(args) and not is_sym(kw):
            r = getattr(o, name)(*[nativize(a) for a in args], **kw)
            return VList(r) if isinstance(r, list) else r
        c = ctx()
        con = c.s.contracts.get('builtins.str.' + name)
        if con is not None:
            c.s.used_contracts.add('builtins.str.' + name)
            return con(o, *args, **kw)
        if name == 'startswith' and isinstance(args[0], tuple):
            return self.disj([self.str_meth(o, name, (a,), {}) for a in args[0]])
        if name in ('startswith', 'endswith') and isinstance(args[0], str) and args[0] == '':
            return True
        ts = [lift(o)] + [lift(a) for a in args] + [lift(kw[k]) for k in sorted(kw)]
        nm = 'str_{}{}{}'.format(name, len(args), ''.join('_' + k for k in sorted(kw)))
        sorts = [V] * len(ts)
        if name in STR_RET:
            return SVal(V.S(uf(nm, *sorts, INT)(*ts)))
        if name in STR_BOOL:
            return sbool(uf(nm, *sorts, BOOL)(*ts))
        if name in STR_INT:
            return SInt(uf(nm, *sorts, INT)(*ts))
        if name in STR_LIST:
            t = V.L(uf(nm, *sorts, V)(*ts))
            f = uf(nm + '_at', V, INT, INT)
            n = vv.slen(t)
            c.fact(n >= 1)
            c.fact(t != V.L(V.nil))
            return VList(base=SSeq(n, lambda i: SVal(V.S(f(t, i))), 'list', key=t))
        if name in STR_TUP:
            return tuple(SVal(V.S(uf('%s_%d' % (nm, k), *sorts, INT)(*ts))) for k in range(3))
        if name == 'encode':
            return SVal(V.O(z3.IntVal(vv.tag(bytes)), uf(nm, *sorts, INT)(*ts)))
        raise Unsupported('str.{} on a symbolic string'.format(name))

    def join(self, sep, x):
        h = getattr(type(x), 'join_texts', None)
        if h is not None:
            return h(x, sep)
        con = None if self.inactive() else ctx().s.contracts.get('builtins.str.join')
        if con is not None:
            r = con(sep, x)
            if r is not NotImplemented:
                ctx().s.used_contracts.add('builtins.str.join')
                return r
        st = self.symbolic_iter(x)
        if st is not None:
            s = st.seq
            if isinstance(x, SFilter):
                raise Unsupported('join of a filtered sequence')
            t = lift(s) if s.key is None else s.key
            return SVal(V.S(uf('str_join', V, V, INT)(lift(sep), t)))
        items = list(self.iterable(x))
        if not is_sym(items) and not is_sym(sep):
            return sep.join(items)
        for i in items:
            if not is_str(i):
                if isinstance(i, SVal):
                    if not ctx().branch(V.is_S(i.t)):
                        raise TypeError('sequence item: expected str instance')
                else:
                    raise TypeError('sequence item: expected str instance')
        out = []
        for k, i in enumerate(items):
            if k:
                out.append(sep)
            out.append(i)
        return self.concat(out)

    # -- dicts
    def dict_meth(self, d, name, args, kw):
        if name == 'get':
            r = self.dget(d, args[0])
            return (args[1] if len(args) > 1 else None) if r is MISSING else r
        if getattr(d, 'map', None) and name not in ('setdefault', 'pop', 'update'):
            raise Unsupported('dict.{} on a partially known dict'.format(name))
        if name == 'items':
            return VList(tuple(x) for x in ditems(d))
        if name == 'keys':
            return DKeys(dkeys(d))
        if name == 'values':
            return VList(v for _, v in ditems(d))
        if name == 'setdefault':
            r = self.dget(d, args[0])
            if r is MISSING:
                r = args[1] if len(args) > 1 else None
                self.dset(d, args[0], r)
            return r
        if name == 'pop':
            r = self.dget(d, args[0])
            if r is MISSING:
                if len(args) > 1:
                    return args[1]
                raise KeyError(args[0])
            self.ddel(d, args[0])
            return r
        if name == 'update':
            return self.dupdate(d, args[0] if args else None, kw)
        if name == 'copy':
            r = VDict()
            r.od = getattr(d, 'od', False)
            self.dupdate(r, d)
            return r
        if name == 'clear':
            with hashing():
                collections.OrderedDict.clear(d)
            return
        raise Unsupported('dict.{}'.format(name))

    # -- sets
    def set_meth(self, s, name, args, kw):
        if name == 'add':
            x = args[0]
            if isinstance(x, (list, dict, set)):
                raise TypeError('unhashable type')
            s.arr = z3.Store(s.arr, lift(x), True)
            if s.elems is not None:
                s.elems = self.dedupe(s.elems + [x])
            return
        if name in ('discard', 'remove'):
            if name == 'remove' and not bool(self.in_(args[0], s)):
                raise KeyError(args[0])
            s.arr = z3.Store(s.arr, lift(args[0]), False)
            if s.elems is not None:
                s.elems = [e for e in s.elems if e != args[0]] if not is_sym(s) and not is_sym(args) else None
            return
        if name == 'update':
            for a in args:
                o = self.set_of(a)
                r = self.bor(s, o)
                s.arr, s.elems = r.arr, r.elems
            return
        if name == 'union':
            r = s
            for a in args:
                r = self.bor(r, self.set_of(a))
            return r
        if name == 'difference':
            return self.set_diff(s, self.set_of(args[0]))
        if name in ('issubset', 'issuperset'):
            o = self.set_of(args[0])
            a, b = (s, o) if name == 'issubset' else (o, s)
            if a.elems is not None:
                return self.conj([self.in_(e, b) for e in a.elems])
            return sbool(z3.IsSubset(a.arr, b.arr))
        if name == 'intersection':
            o = self.set_of(args[0])
            return VSet(z3.SetIntersect(s.arr, o.arr), None)
        if name == 'isdisjoint':
            o = self.set_of(args[0])
            return sbool(z3.SetIntersect(s.arr, o.arr) == z3.K(V, z3.BoolVal(False)))
        if name == 'copy':
            return self.set_of(s)
        raise Unsupported('set.{}'.format(name))

    # -- lists
    def list_meth(self, o, name, args, kw):
        sym = is_sym(o) or is_sym(args)
        if name == 'append':
            list.append(o, args[0])
            return
        if name == 'extend':
            return self.extend(o, args[0])
        if getattr(o, 'base', None) is not None:
            if name == 'copy':
                return self.to_list(o)
            b = o.base
            if name == 'count' and getattr(b, 'chars_of', None) is not None and \
                    not list.__len__(o) and isinstance(args[0], str) and len(args[0]) == 1:
                return self.str_meth(b.chars_of, 'count', args, {})
            raise Unsupported('list.{} on a partially known list'.format(name))
        if name == 'copy':
            return VList(list(o))
        if name in ('pop', 'insert', 'reverse', 'clear'):
            if is_sym(args[:1]):
                raise Unsupported('list.' + name)
            return getattr(list, name)(o, *args)
        if name == 'index' and sym:
            for k, e in enumerate(list(o)):
                if bool(self.eq(e, args[0])):
                    return k
            raise ValueError('not in list')
        if name == 'remove' and sym:
            for k, e in enumerate(list(o)):
                if bool(self.eq(e, args[0])):
                    list.pop(o, k)
                    return
            raise ValueError('not in list')
        if name == 'count' and sym:
            return sum_terms([self.eq(e, args[0]) for e in list(o)])
        if name == 'sort':
            r = BUILTINS[id(sorted)][1](VList(list(o)), *args, **kw)
            o[:] = list(r)
            return
        if sym:
            raise Unsupported('list.{} with symbolic contents'.format(name))
        return getattr(o, name)(*args, **kw)


class StarSeq:
    """*args taken from a symbolic sequence"""

    def __init__(self, seq):
        self.seq = seq


class DKeys(VList):
    """dict.keys(): list-like, with set operations handled by the runtime"""

    def __sub__(self, o):
        return RT.set_diff(RT.mkset(list(self)), o)


XMODELS = {}


def sum_terms(xs):
    return SInt.of(z3.Sum(*[it(x) for x in xs]) if xs else z3.IntVal(0))


RT = Runtime()


# ---------------------------------------------------------------- builtins
@builtin(len)
def _len(x):
    if isinstance(x, Poison):
        x._no('len')
    if isinstance(x, Text):
        return x.length()
    if isinstance(x, SSeq):
        return SInt.of(x.n)
    if isinstance(x, VList) and x.base is not None:
        if isinstance(x.base, LogBase):
            return SInt.of(x.base.n + list.__len__(x))
        return SInt.of(x.base.n + list.__len__(x))
    if isinstance(x, VSet):
        if x.elems is not None and (not is_sym(x) or len(x.elems) <= 1):
            return len(x.elems)
        return SInt(uf('card', SETV, INT)(x.arr))
    if isinstance(x, VDict) and x.map:
        raise Unsupported('len of a partially known dict')
    if isinstance(x, SFilter):
        raise Unsupported('len of a filtered sequence')
    if isinstance(x, SVal):
        c = con_name(x.t)
        ctx_ = ctx()
        if c == 'O' and z3.is_int_value(x.t.arg(0)) and vv.TAG_LEN.get(x.t.arg(0).as_long()) is not None:
            if not vv.TAG_LEN[x.t.arg(0).as_long()]:
                raise TypeError('object has no len()')
            n = vv.slen(x.t)
            ctx_.fact(n >= 0)
            ctx_.fact((n == 0) == z3.Not(vv.truthyO(x.t)))
            return SInt(n)
        if c in ('S', 'T', 'L') or ctx_.branch(z3.Or(V.is_S(x.t), V.is_L(x.t), V.is_T(x.t), z3.And(
                V.is_O(x.t), uf('has_len', INT, BOOL)(V.otag(x.t))))):
            n = vv.slen(x.t)
            ctx_.fact(n >= 0)
            ctx_.fact(z3.Implies(V.is_S(x.t), (n == 0) == (V.s(x.t) == 0)))
            ctx_.fact(z3.Implies(V.is_L(x.t), (n == 0) == (V.l(x.t) == V.nil)))
            ctx_.fact(z3.Implies(V.is_T(x.t), (n == 0) == (V.t(x.t) == V.nil)))
            return SInt(n)
        raise TypeError('object has no len()')
    if isinstance(x, (SInt, SBool)):
        raise TypeError('object has no len()')
    m = getattr(type(x), '__len__', None)
    if is_ours(m) or getattr(type(x), '__pv_model__', False):
        return m(x)
    return len(x)


def _classes(c):
    if isinstance(c, tuple):
        r = []
        for x in c:
            r.extend(_classes(x))
        return r
    return [c]


@builtin(isinstance)
def _isinstance(x, c):
    if isinstance(x, Poison):
        x._no('isinstance')
    cs = _classes(c)
    if getattr(type(x), '__pv_class__', None) is not None:
        return any(issubclass(type(x).__pv_class__, k) for k in cs)
    if isinstance(x, SInt):
        return any(issubclass(int, k) for k in cs)
    if isinstance(x, Text):
        return any(issubclass(str, k) for k in cs)
    if isinstance(x, SBool):
        return any(issubclass(bool, k) for k in cs)
    if isinstance(x, (SSeq, SFilter)):
        base = tuple if x.kind == 'tuple' else list
        return any(issubclass(base, k) for k in cs)
    if isinstance(x, SVal):
        fs = []
        for k in cs:
            if k is object:
                return True
            if issubclass(str, k):
                fs.append(V.is_S(x.t))
            if k is bool or issubclass(bool, k):
                fs.append(V.is_B(x.t))
            if issubclass(int, k):
                fs.append(V.is_I(x.t))
            if issubclass(list, k):
                fs.append(V.is_L(x.t))
            if issubclass(tuple, k):
                fs.append(V.is_T(x.t))
            if k is type(None):
                fs.append(V.is_none(x.t))
            for tc, n in vv.TAGS.items():
                if tc is not object and issubclass(tc, k):
                    fs.append(z3.And(V.is_O(x.t), V.otag(x.t) == n))
            if k not in vv.TAGS and k not in (str, bool, int, list, tuple, type(None)):
                # Objects of a known class are of another one only if it is a subclass.
                others = [n for tc, n in vv.TAGS.items() if tc is not object and not issubclass(k, tc)]
                fs.append(z3.And(V.is_O(x.t), *[V.otag(x.t) != n for n in others] + [uf('inst_' + k.__name__, V, BOOL)(x.t)]))
        return sbool(z3.Or(*fs)) if fs else False
    return isinstance(x, c)


@builtin(str)
def _str(x=''):
    return RT.as_str(x)


@builtin(repr)
def _repr(x):
    con = ctx().s.contracts.get('repr')
    if con is not None and is_sym(x):
        r = con(x)
        if r is not NotImplemented:
            return r
    if is_sym(x):
        return SVal(V.S(uf('repr_of', V, INT)(lift(x))))
    return repr(nativize(x))


@builtin(bool)
def _bool(x=False):
    if isinstance(x, SBool):
        return x
    if isinstance(x, SVal):
        return sbool(vv.truth_term(x.t))
    if isinstance(x, SInt):
        return sbool(x.t != 0)
    if isinstance(x, VSet):
        return set_truth(x)
    if isinstance(x, VList) and x.base is not None:
        return bool(_truth(x))
    return bool(x)


def set_truth(x):
    if x.elems is not None:
        return bool(x.elems)
    return sbool(x.arr != z3.K(V, z3.BoolVal(False)))


def _truth(x):
    if isinstance(x, VList) and x.base is not None:
        return True if list.__len__(x) else ctx().branch(x.base.n > 0)
    return bool(x)


def _vlist_bool(self):
    if self.base is None:
        return list.__len__(self) > 0
    return _truth(self)


VList.__bool__ = _vlist_bool
VSet.__bool__ = lambda self: bool(set_truth(self))


def _vdict_bool(self):
    if self.map:
        raise Unsupported('truth of a partially known dict')
    return collections.OrderedDict.__len__(self) > 0


VDict.__bool__ = _vdict_bool


@builtin(int)
def _int(x=0, *a):
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return SInt(it(x))
    if isinstance(x, SText):
        return tx.parse_int(x)
    if isinstance(x, SVal):
        m = MODELS.get('int')
        if m:
            return m(x)
        raise Unsupported('int() of a symbolic value')
    if is_sym(x):
        raise Unsupported('int()')
    return int(x, *a)


@builtin(float)
def _float(x=0.0):
    m = MODELS.get('float')
    if isinstance(x, Proxy):
        if m:
            return m(x)
        raise Unsupported('float() of a symbolic value')
    return float(x)


@builtin(list)
def _list(x=()):
    return RT.to_list(x)


@builtin(tuple)
def _tuple(x=()):
    st = RT.symbolic_iter(x)
    if st is not None:
        if isinstance(x, SFilter):
            return SFilter(x.n, x.keep, x.val, 'tuple')
        s = st.seq
        return SSeq(s.n, s.at, 'tuple', s.key if s.kind == 'tuple' else None, s.maxlen)
    return tuple(RT.iterable(x))


@builtin(set)
def _set(x=()):
    return RT.set_of(x)


@builtin(frozenset)
def _frozenset(x=()):
    return RT.set_of(x)


@builtin(dict)
def _dict(x=None, /, **kw):
    d = VDict()
    RT.dupdate(d, x, kw)
    return d


@builtin(collections.OrderedDict)
def _odict(x=None, **kw):
    d = VDict()
    d.od = True
    RT.dupdate(d, x, kw)
    return d


@builtin(collections.defaultdict)
def _defaultdict(factory=None, x=None, **kw):
    d = VDict()
    d.factory = lambda: RT.call(factory)
    RT.dupdate(d, x, kw)
    return d


@builtin(sorted)
def _sorted(x, key=None, reverse=False):
    items = list(RT.iterable(x))
    keys = [RT.call(key, i) if key else i for i in items]
    if len(items) <= 1:
        return VList(items)
    if is_sym(keys):
        if not all(isinstance(k, (int, SInt)) for k in keys):
            raise Unsupported('sorting by symbolic keys')
        order = sort_perm(keys)
        items = [items[k] for k in order]
        return VList(reversed(items) if reverse else items)
    order = sorted(range(len(items)), key=lambda k: nativize(keys[k]), reverse=reverse)
    return VList(items[k] for k in order)


def sort_perm(keys):
    """branches over the orders of a short key list (insertion sort, stable)"""
    order = []
    for k in range(len(keys)):
        p = len(order)
        while p > 0 and bool(keys[k] < keys[order[p - 1]]):
            p -= 1
        order.insert(p, k)
    return order


@builtin(enumerate)
def _enumerate(x, start=0):
    st = RT.symbolic_iter(x)
    if st is not None:
        if isinstance(x, (SFilter,)):
            raise Unsupported('enumerate of a filtered sequence')
        if isinstance(x, Stream):
            return EnumStream(x, start)
        s = st.seq
        return _enum_seq(s, st.hooks, start)
    if isinstance(x, SSeq):
        return _enum_seq(x, x.hooks, start, maxlen=x.maxlen)
    if isinstance(x, (EnumStream, LazyGen)) or (
            not isinstance(x, (list, tuple, dict)) and is_ours(getattr(type(x), '__next__', None))):
        return EnumStream(x, start)
    return enumerate(RT.iterable(x), start)


def _enum_seq(s, hooks, start, **kw):
    r = SSeq(s.n, lambda i: (SInt.of(i + it(start)), s.get(i)), 'iter', **kw)
    r.hooks = tuple((lambda v, st, h=h: h(v[1], st)) for h in hooks)
    return r


class EnumStream:
    """enumerate() over an iterator object"""
    __pv_iter__ = True

    def __init__(self, it_, start):
        self.it, self.count = it_, start

    def __iter__(self):
        return self

    def __next__(self):
        v = pull(self.it)
        k = self.count
        self.count = RT.add(self.count, 1)
        return (k, v)


class Skip(Exception):
    """the element is filtered out"""


def pull(x):
    return next(x) if isinstance(x, (LazyGen, EnumStream)) else _next(x)


class LazyGen:
    """a generator expression over an observed iterator: evaluated element by element"""
    __pv_iter__ = True

    def __init__(self, it_, fn):
        self.it, self.fn = it_, fn

    def __iter__(self):
        return self

    def __next__(self):
        r = self.fn([pull(self.it)])
        if len(r) > 1:
            raise Unsupported('nested generator expression over a stream')
        if not len(r):
            raise Skip
        return list(r)[0]


@builtin(zip)
def _zip(*xs):
    syms = [RT.symbolic_iter(x) if not isinstance(x, Stream) else x for x in xs]
    seqs = []
    if all(s is None for s in syms) and not any(isinstance(x, SSeq) or (
            isinstance(x, VList) and x.base is not None) for x in xs):
        return zip(*[RT.iterable(x) for x in xs])
    for x, s in zip(xs, syms):
        if isinstance(x, Stream):
            raise Unsupported('zip of a stream')
        if isinstance(x, SFilter):
            raise Unsupported('zip of a filtered sequence')
        q = RT.seq(x) if not isinstance(x, (tuple,)) else None
        if q is None:
            q = RT.list_seq(list(RT.iterable(x)))
        seqs.append(q)
    n = seqs[0].n
    for q in seqs[1:]:
        n = z3.If(q.n < n, q.n, n)
    ml = [q.maxlen for q in seqs if q.maxlen is not None]
    r = SSeq(z3.simplify(n), lambda i: tuple(q.get(i) for q in seqs), 'iter',
             maxlen=min(ml) if ml else None)
    r.hooks = tuple((lambda v, st, h=h, k=k: h(v[k], st)) for k, q in enumerate(seqs) for h in q.hooks)
    return r


@builtin(range)
def _range(*a):
    if is_sym(a):
        lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
        if len(a) == 3:
            raise Unsupported('range with symbolic step')
        n = it(hi) - it(lo)
        return SSeq(z3.If(n > 0, n, z3.IntVal(0)), lambda i: SInt.of(i + it(lo)), 'iter')
    return range(*a)


def _quant(x, f):
    """list of element truths, or ('sym', n, term)"""


@builtin(any)
def _any(x):
    st = RT.symbolic_iter(x)
    if st is not None:
        keep = getattr(st, 'keep', None)
        s = st.seq
        i = z3.Int(ctx().fresh('qi'))
        e = truth_formula(s.get(i))
        if keep:
            e = z3.And(keep(i), e)
        return sbool(z3.Exists([i], z3.And(i >= 0, i < s.n, e)))
    for e in RT.iterable(x):
        if e:
            return True
    return False


@builtin(all)
def _all(x):
    st = RT.symbolic_iter(x)
    if st is not None:
        keep = getattr(st, 'keep', None)
        s = st.seq
        i = z3.Int(ctx().fresh('qi'))
        e = truth_formula(s.get(i))
        if keep:
            e = z3.Implies(keep(i), e)
        return sbool(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.n), e)))
    for e in RT.iterable(x):
        if not e:
            return False
    return True


def truth_formula(e):
    if isinstance(e, SBool):
        return e.t
    if isinstance(e, SVal):
        return vv.truth_term(e.t)
    if isinstance(e, SInt):
        return e.t != 0
    if isinstance(e, Proxy):
        raise Unsupported('truth of {}'.format(type(e).__name__))
    return z3.BoolVal(bool(e))


@builtin(sum)
def _sum(x, start=0):
    st = RT.symbolic_iter(x)
    if st is not None:
        s = st.seq
        f = getattr(ctx(), 'sum_summary', None)
        if f is not None:
            return f(s, start)
        raise Unsupported('sum over a symbolic sequence')
    r = start
    for e in RT.iterable(x):
        r = RT.add(r, e)
    return r


def _minmax(name, lt):
    def f(*a, key=None, default=MISSING):
        xs = list(RT.iterable(a[0])) if len(a) == 1 else list(a)
        if not xs:
            if default is not MISSING:
                return default
            raise ValueError('empty')
        r = xs[0]
        for x in xs[1:]:
            if isinstance(x, SInt) or isinstance(r, SInt):
                r = SInt.of(z3.If(lt(it(x), it(r)), it(x), it(r)))
            elif bool(lt(x, r)):
                r = x
        return r
    return f


builtin(min)(_minmax('min', operator.lt))
builtin(max)(_minmax('max', operator.gt))


@builtin(iter)
def _iter(x):
    if isinstance(x, Stream):
        return x
    st = RT.symbolic_iter(x)
    if st is not None:
        return st
    m = getattr(type(x), '__iter__', None)
    if is_ours(m):
        return RT.call(m, x)
    return iter(RT.iterable(x))


@builtin(next)
def _next(x, *default):
    try:
        if isinstance(x, Gen):
            if not list.__len__(x):
                raise StopIteration
            return list.pop(x, 0)
        m = getattr(type(x), '__next__', None)
        if isinstance(x, (LazyGen, EnumStream)):
            try:
                return next(x)
            except Skip:
                raise Unsupported('next() of a filtering generator expression')
        if isinstance(x, Proxy):
            st = RT.symbolic_iter(x)
            if isinstance(x, SFilter):
                raise Unsupported('next() of a filtered sequence')
            return next(st)
        if is_ours(m):
            return RT.call(m, x)
        return next(x)
    except StopIteration:
        if default:
            return default[0]
        raise


@builtin(getattr)
def _getattr(o, name, *d):
    if isinstance(name, Proxy):
        raise Unsupported('getattr with a symbolic name')
    if isinstance(o, SVal) and con_name(o.t) == 'S':
        if d and not hasattr('', name):
            return d[0]
        return getattr('', name) if not d else getattr('', name, *d)
    if isinstance(o, Text) and not hasattr('', name):
        return getattr('', name, *d)
    return getattr(o, name, *d)


@builtin(hasattr)
def _hasattr(o, name):
    if isinstance(o, SVal):
        c = con_name(o.t)
        if c in ('S', 'I', 'B', 'none', 'L', 'T'):
            return hasattr({'S': '', 'I': 1, 'B': True, 'none': None, 'L': [], 'T': ()}[c], name)
        h = getattr(ctx(), 'hasattr_model', None)
        if h is not None:
            return h(o, name)
        raise Unsupported('hasattr of a symbolic value')
    if isinstance(o, (SInt, SBool)):
        return hasattr(0, name)
    if isinstance(o, SSeq):
        return hasattr([], name)
    if isinstance(o, Text):
        return hasattr('', name)
    return hasattr(o, name)


@builtin(setattr)
def _setattr(o, name, v):
    if isinstance(o, Proxy):
        raise Unsupported('setattr on a symbolic value')
    setattr(o, name, v)


@builtin(callable)
def _callable(x):
    if isinstance(x, Proxy):
        raise Unsupported('callable')
    return callable(x)


@builtin(type)
def _type(x, *a):
    if a:
        return type(x, *a)
    if isinstance(x, SInt):
        return int
    if isinstance(x, Text):
        return str
    if isinstance(x, SBool):
        return bool
    if isinstance(x, SVal):
        c = con_name(x.t)
        if c in ('S', 'L', 'T', 'I', 'B'):
            return {'S': str, 'L': list, 'T': tuple, 'I': int, 'B': bool}[c]
        raise Unsupported('type() of a symbolic value')
    if isinstance(x, VList):
        return list
    if isinstance(x, VDict):
        return collections.OrderedDict if x.od else dict
    if isinstance(x, VSet):
        return set
    if isinstance(x, Proxy):
        raise Unsupported('type()')
    return type(x)


@builtin(map)
def _map(f, *xs):
    if len(xs) == 1:
        return RT.comp('gen', 'map', lambda it_: [RT.call(f, e) for e in it_], xs[0], False)
    return RT.comp('gen', 'map', lambda it_: [RT.call(f, *e) for e in it_], _zip(*xs), False)


@builtin(filter)
def _filter(f, x):
    return RT.comp('gen', 'filter',
                   lambda it_: [e for e in it_ if (RT.call(f, e) if f else e)], x, True)


@builtin(reversed)
def _reversed(x):
    return reversed(list(RT.iterable(x)))


@builtin(print)
def _print(*a, **k):
    h = getattr(ctx(), 'on_print', None)
    if h is not None:
        h(*a)


@builtin(abs)
def _abs(x):
    return abs(x)


@builtin(id)
def _id(x):
    return id(x)


@builtin(format)
def _format(x, spec=''):
    return RT.fmt_value(x, spec)


@builtin(super)
def _super(*a):
    return super(*a)


@builtin(vars)
def _vars(x):
    return vars(x)


@builtin(ord)
def _ord(x):
    if isinstance(x, SText):
        if len(x.chars) != 1:
            raise TypeError('ord() expected a character')
        return SInt.of(x.chars[0])
    if isinstance(x, Proxy):
        raise Unsupported('ord')
    return ord(x)


@builtin(warnings.warn)
def _warn(msg, *a, **k):
    c = ctx()
    c.on_warn(msg)


@builtin(operator.itemgetter)
def _itemgetter(*keys):
    if any(isinstance(k, Proxy) for k in keys) or any(isinstance(k, StarSeq) for k in keys):
        return SymGetter(keys)
    return operator.itemgetter(*[nativize(k) for k in keys])


class SymGetter:
    __pv_model__ = True

    def __init__(self, keys):
        self.keys = keys

    def __call__(self, o):
        if len(self.keys) == 1:
            return RT.getitem(o, self.keys[0])
        return tuple(RT.getitem(o, k) for k in self.keys)


def _chain(*xs):
    out = VList()
    for x in xs:
        RT.extend(out, x)
    return out


import itertools  # noqa: E402
builtin(itertools.chain)(_chain)
builtin(itertools.chain.from_iterable)(lambda x: _chain(*list(RT.iterable(x))))


@builtin(functools.partial)
def _partial(f, *args, **kw):
    if not is_sym(list(args) + list(kw.values())) and not isinstance(f, Proxy):
        return functools.partial(f, *args, **kw)
    return lambda *a, **k: RT.call(f, *args, *a, **dict(kw, **k))


@builtin(itertools.groupby)
def _groupby(x, key=None):
    items = list(RT.iterable(x))
    out = []
    for i in items:
        k = RT.call(key, i) if key else i
        if out and bool(RT.eq(out[-1][0], k)):
            out[-1][1].append(i)
        else:
            out.append((k, VList([i])))
    return VList(out)


import copy as _copy  # noqa: E402


@builtin(_copy.copy)
def _copycopy(x):
    if isinstance(x, VList):
        return RT.to_list(x)
    if isinstance(x, VDict):
        return RT.dict_meth(x, 'copy', (), {})
    if isinstance(x, Proxy):
        return x
    return _copy.copy(x)


@builtin(attr.evolve)
def _evolve(*args, **changes):
    o, = args
    for a in attr.fields(type(o)):
        if a.init:
            n = a.name.lstrip('_')
            if n not in changes:
                changes[n] = RT.call(getattr, o, a.name)
    return RT.call(type(o), **changes)


@builtin(_copy.deepcopy)
def _deepcopy(x, memo=None):
    if isinstance(x, VDict) and not x.map:
        d = VDict()
        d.od = x.od
        for k, v in ditems(x):
            RT.dset(d, k, _deepcopy(v))
        return d
    if isinstance(x, VList):
        return VList([_deepcopy(e) for e in list(x)], x.base)
    if isinstance(x, Proxy):
        return x
    if is_sym(x):
        raise Unsupported('deepcopy')
    return _copy.deepcopy(x)


# `locals`-free natives that are always fine on concrete values need no entry here.


tx.install()
from . import htext  # noqa: E402
htext.install()
