"""Symbolic values.

Sort V (an algebraic datatype) represents Python values up to ==: None, bool, int, str (by identity of an
interned integer), tuples and lists (cons cells), and opaque objects O(tag, id).
Every operation that is not modelled raises Unsupported (a BaseException), never an ordinary Python
error, so that code cannot swallow it.
"""
import decimal
import datetime
import collections

import z3

from .core import Ctx, Unsupported

_dt = z3.Datatype('V')
_dt.declare('none')
_dt.declare('B', ('b', z3.BoolSort()))
_dt.declare('I', ('i', z3.IntSort()))
_dt.declare('S', ('s', z3.IntSort()))
_dt.declare('T', ('t', _dt))
_dt.declare('L', ('l', _dt))
_dt.declare('nil')
_dt.declare('cons', ('hd', _dt), ('tl', _dt))
_dt.declare('O', ('otag', z3.IntSort()), ('oid', z3.IntSort()))
V = _dt.create()
INT, BOOL = z3.IntSort(), z3.BoolSort()
SETV = z3.ArraySort(V, BOOL)
MAPV = z3.ArraySort(V, V)

TAGS = {}


def tag(cls):
    if cls not in TAGS:
        TAGS[cls] = len(TAGS) + 1
    return TAGS[cls]


for _c in (float, bytes, decimal.Decimal, datetime.datetime, datetime.date, datetime.time,
           datetime.timedelta, dict, set, object):
    tag(_c)

TAG_LEN = {TAGS[_c]: (_c in (bytes, dict, set)) for _c in TAGS if _c is not object}

STRS = {}
STR_OF = []
OBJS = []       # opaque natives
OBJ_KEY = {}


def intern_str(s):
    if s not in STRS:
        STRS[s] = len(STR_OF)
        STR_OF.append(s)
    return STRS[s]


intern_str('')


def lit(s):
    return V.S(z3.IntVal(intern_str(s)))


def uf(name, *sorts):
    return z3.Function(name, *sorts)


def ctx():
    return Ctx.cur


HASH_OK = 0


class hashing:
    def __enter__(self):
        global HASH_OK
        HASH_OK += 1

    def __exit__(self, *a):
        global HASH_OK
        HASH_OK -= 1


class Proxy:
    def __hash__(self):
        if HASH_OK:
            return id(self)
        raise Unsupported('native hashing of a symbolic value')

    def _no(self, what):
        raise Unsupported('{} on {}'.format(what, type(self).__name__))

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        self._no('attribute ' + name)

    def __index__(self): self._no('__index__')
    def __int__(self): self._no('int()')
    def __float__(self): self._no('float()')
    def __str__(self): self._no('native str()')
    def __format__(self, spec): self._no('native format()')
    def __len__(self): self._no('native len()')
    def __iter__(self): self._no('native iteration')
    def __contains__(self, x): self._no('native in')
    def __getitem__(self, x): self._no('native subscript')
    def __call__(self, *a, **k): self._no('call')
    def __reduce_ex__(self, p): self._no('pickle')
    def __deepcopy__(self, m): return self
    def __copy__(self): return self


class Poison(Proxy):
    def __init__(self, why):
        self.__dict__['why'] = why

    def _no(self, what):
        raise Unsupported('{} on value lost at a loop cut ({})'.format(what, self.__dict__['why']))

    def __bool__(self): self._no('truth')
    def __eq__(self, o): self._no('==')
    __hash__ = Proxy.__hash__
    def __lt__(self, o): self._no('<')
    __gt__ = __le__ = __ge__ = __add__ = __sub__ = __radd__ = __lt__


class SBool(Proxy):
    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().branch(self.t)

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool(self.t == bt(o))
        if isinstance(o, SVal):
            return sbool(lift(self) == o.t)
        if isinstance(o, int):
            return SInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0))) == o
        return False

    def __ne__(self, o):
        return not_(self == o)
    __hash__ = Proxy.__hash__

    def __and__(self, o): return SBool(z3.And(self.t, bt(o)))
    def __or__(self, o): return SBool(z3.Or(self.t, bt(o)))
    __rand__, __ror__ = __and__, __or__
    def __invert__(self): return SBool(z3.Not(self.t))

    def __repr__(self):
        return 'SBool(%s)' % self.t


def bt(x):
    """z3 Bool of a (symbolic) bool"""
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if z3.is_expr(x):
        return x
    raise Unsupported('bool expected, got {!r}'.format(type(x)))


def sbool(t):
    if isinstance(t, bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def not_(x):
    if isinstance(x, SBool):
        return sbool(z3.Not(x.t))
    return not x


def and_(*xs):
    return sbool(z3.And(*[bt(x) for x in xs])) if xs else True


def or_(*xs):
    return sbool(z3.Or(*[bt(x) for x in xs])) if xs else False


def implies(a, b):
    return sbool(z3.Implies(bt(a), bt(b)))


def iff(a, b):
    return sbool(bt(a) == bt(b))


class SInt(Proxy):
    def __init__(self, t):
        self.t = t

    @staticmethod
    def of(t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        return SInt(t)

    def _bin(self, o, f):
        if isinstance(o, bool) or not isinstance(o, (int, SInt, SBool)):
            if isinstance(o, SVal):
                return f(self.t, V.i(o.t))
            if isinstance(o, bool):
                o = int(o)
            elif isinstance(o, float):
                raise Unsupported('int/float arithmetic')
            else:
                return NotImplemented
        return f(self.t, it(o))

    def _ar(self, o, f):
        r = self._bin(o, f)
        return r if r is NotImplemented else SInt.of(r)

    def _cmp(self, o, f):
        if isinstance(o, float) and o in (float('inf'), float('-inf')):
            big = o > 0
            probe = f(z3.IntVal(0), z3.IntVal(1) if big else z3.IntVal(-1))
            return z3.is_true(z3.simplify(probe))
        r = self._bin(o, f)
        return r if r is NotImplemented else sbool(r)

    def __add__(self, o): return self._ar(o, lambda a, b: a + b)
    def __radd__(self, o): return self._ar(o, lambda a, b: b + a)
    def __sub__(self, o): return self._ar(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._ar(o, lambda a, b: b - a)
    def __mul__(self, o): return self._ar(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return SInt.of(-self.t)
    def __abs__(self): return SInt.of(z3.If(self.t < 0, -self.t, self.t))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if isinstance(o, SVal):
            return sbool(lift(self) == o.t)
        r = self._bin(o, lambda a, b: a == b)
        return False if r is NotImplemented else sbool(r)

    def __ne__(self, o): return not_(self == o)
    __hash__ = Proxy.__hash__

    def __bool__(self):
        return ctx().branch(self.t != 0)

    def __repr__(self):
        return 'SInt(%s)' % self.t


def it(x):
    """z3 Int of a (symbolic) int"""
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, SVal):
        return V.i(x.t)
    if z3.is_expr(x):
        return x
    raise Unsupported('int expected, got {!r}'.format(type(x)))


truthyO = uf('truthyO', V, BOOL)
slen = uf('slen', V, INT)
sat = uf('sat', V, INT, V)


def con_name(t):
    """name of the constructor if t is syntactically a constructor application"""
    if z3.is_app(t):
        n = t.decl().name()
        if n in ('none', 'B', 'I', 'S', 'T', 'L', 'nil', 'cons', 'O') and t.sort() == V:
            return n
    return None


def truth_term(t):
    c = con_name(t)
    if c == 'none':
        return z3.BoolVal(False)
    if c == 'B':
        return t.arg(0)
    if c == 'I':
        return t.arg(0) != 0
    if c == 'S':
        return t.arg(0) != 0
    if c in ('T', 'L'):
        return t.arg(0) != V.nil
    if c == 'O':
        return truthyO(t)
    return z3.If(V.is_none(t), False,
                 z3.If(V.is_B(t), V.b(t),
                       z3.If(V.is_I(t), V.i(t) != 0,
                             z3.If(V.is_S(t), V.s(t) != 0,
                                   z3.If(V.is_T(t), V.t(t) != V.nil,
                                         z3.If(V.is_L(t), V.l(t) != V.nil, truthyO(t)))))))


class SVal(Proxy):
    """A value of sort V."""

    def __init__(self, t):
        self.__dict__['t'] = t

    def __bool__(self):
        return ctx().branch(truth_term(self.t))

    def __eq__(self, o):
        from . import rt
        return rt.RT.eq(self, o)

    def __ne__(self, o): return not_(self == o)
    __hash__ = Proxy.__hash__

    # ordering: `lt`, see below
    def __lt__(self, o): return sbool(lt(self.t, lift(o)))
    def __gt__(self, o): return sbool(lt(lift(o), self.t))
    def __le__(self, o): return sbool(z3.Not(lt(lift(o), self.t)))
    def __ge__(self, o): return sbool(z3.Not(lt(self.t, lift(o))))

    def __add__(self, o):
        from . import rt
        return rt.RT.add(self, o)

    def __radd__(self, o):
        from . import rt
        return rt.RT.add(o, self)

    def __repr__(self):
        return 'SVal(%s)' % self.t


rank = uf('rank', V, z3.RealSort())


def rank_of(t):
    c = con_name(t)
    if c == 'I':
        return z3.ToReal(t.arg(0))
    if c is not None:
        return rank(t)
    return z3.If(V.is_I(t), z3.ToReal(V.i(t)), rank(t))


def lt(a, b):
    """a < b.  Comparable values are totally ordered: the integers as usual, other values by an
    arbitrary injective embedding into the reals."""
    ra, rb = rank_of(a), rank_of(b)
    ctx().fact((ra == rb) == (a == b))
    return ra < rb


def order_axioms(*vals):
    return z3.BoolVal(True)     # see lt


def mk(t):
    """proxy (or native) for a V term"""
    t = z3.simplify(t)
    c = con_name(t)
    if c == 'none':
        return None
    if c == 'B':
        return sbool(t.arg(0))
    if c == 'I':
        return SInt.of(t.arg(0))
    if c == 'S' and z3.is_int_value(t.arg(0)) and 0 <= t.arg(0).as_long() < len(STR_OF):
        return STR_OF[t.arg(0).as_long()]
    if c == 'O' and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() < 0:
        return OBJS[-t.arg(1).as_long() - 1]
    return SVal(t)


def fresh_val(base='v'):
    c = ctx()
    return SVal(z3.Const(c.fresh(base), V))


def fresh_str(base='s'):
    c = ctx()
    return SVal(V.S(z3.Int(c.fresh(base))))


def fresh_int(base='i'):
    return SInt(z3.Int(ctx().fresh(base)))


def fresh_bool(base='b'):
    return SBool(z3.Bool(ctx().fresh(base)))


def fresh_obj(cls, base='o'):
    return SVal(V.O(z3.IntVal(tag(cls)), z3.Int(ctx().fresh(base))))


class SSeq(Proxy):
    """An immutable symbolic sequence: length term and element function."""
    hooks = ()   # ghost observers of a loop over the sequence
    remake = None   # name -> an arbitrary sequence of the same kind (for havocking)

    def __init__(self, n, at, kind='list', key=None, maxlen=None):
        self.n, self.at, self.kind, self.key, self.maxlen = n, at, kind, key, maxlen
        self._cache = {}

    def __bool__(self):
        return ctx().branch(self.n > 0)

    def get(self, i):
        i = z3.simplify(i) if z3.is_expr(i) else z3.IntVal(i)
        k = i.get_id()
        if k not in self._cache:
            self._cache[k] = (self.at(i), i)
        return self._cache[k][0]

    def __eq__(self, o):
        from . import rt
        return rt.RT.eq(self, o)

    def __ne__(self, o): return not_(self == o)
    __hash__ = Proxy.__hash__

    def __repr__(self):
        return 'SSeq(%s)' % self.n


def seq_from_term(t, kind='list', elem=None):
    """the sequence represented by a V term (list, tuple or str value)"""
    c = ctx()
    n = slen(t)
    c.fact(n >= 0)
    if kind in ('list', 'tuple'):
        acc = V.l if kind == 'list' else V.t
        c.fact((n == 0) == (acc(t) == V.nil))
    return SSeq(n, (lambda i: mk(sat(t, i))) if elem is None else (lambda i: elem(sat(t, i))),
                kind, key=t)


def fresh_seq(base, elem, kind='list'):
    """an arbitrary sequence; elem(i) builds element i (z3 Int)"""
    c = ctx()
    nm = c.fresh(base)
    n = z3.Int(nm + '.len')
    c.assume(n >= 0)
    return SSeq(n, elem, kind, key=None)


def fresh_str_seq(base, kind='list'):
    """an arbitrary list of strings"""
    c = ctx()
    nm = c.fresh(base)
    t = z3.Const(nm, V)
    f = uf(nm + '.str', INT, INT)
    c.assume(V.is_L(t) if kind == 'list' else V.is_T(t))
    n = slen(t)
    c.fact(n >= 0)
    c.fact((n == 0) == ((V.l if kind == 'list' else V.t)(t) == V.nil))
    return SSeq(n, lambda i: SVal(V.S(f(i))), kind, key=t)


class VList(list):
    """A list; after a loop cut it may have an opaque prefix `base` (SSeq or LogBase)."""
    base = None

    def __init__(self, items=(), base=None):
        list.__init__(self, items)
        if base is not None:
            self.base = base

    __hash__ = None


class LogBase:
    """Unknown list contents (only appends and equality are known)."""

    def __init__(self, name):
        self.name = name
        self.n = z3.Int(name + '.len')


class VSet(set):
    """A set of V values: z3 array, plus the element list while it is known."""

    def __init__(self, arr=None, elems=None):
        set.__init__(self)
        self.arr = arr if arr is not None else z3.K(V, z3.BoolVal(False))
        self.elems = elems if elems is not None else ([] if arr is None else None)

    __hash__ = None

    # native operations must not see the (empty) native set
    def _known(self, what):
        if self.elems is None or any(is_sym(e) for e in self.elems):
            raise Unsupported('native {} of a set of symbolic values'.format(what))
        return self.elems

    def __eq__(self, other):
        if not isinstance(other, (set, frozenset)):
            return False
        return set(self._known('==')) == (set(other._known('==')) if isinstance(other, VSet) else set(other))

    def __ne__(self, other):
        return not self == other

    def __contains__(self, x):
        return x in self._known('in')

    def __iter__(self):
        return iter(self._known('iteration'))

    def __len__(self):
        return len(set(self._known('len')))


class VDict(collections.OrderedDict):
    """A dict.  Keys may be symbolic (then lookups compare symbolically).  `map` is set in map mode:
    (presence array, value array)."""
    map = None
    od = False
    symkeys = False

    def __reduce__(self):
        raise Unsupported('pickling a dict')

    __hash__ = None


MISSING = object()


def lift(x):
    """V term of a value"""
    if isinstance(x, SVal):
        return x.t
    if x is None:
        return V.none
    if isinstance(x, bool):
        return V.B(z3.BoolVal(x))
    if isinstance(x, SBool):
        return V.B(x.t)
    if isinstance(x, int):
        return V.I(z3.IntVal(x))
    if isinstance(x, SInt):
        return V.I(x.t)
    if isinstance(x, str):
        return lit(x)
    if isinstance(x, SSeq):
        if x.key is None:
            return opaque_seq(x)
        return x.key
    if isinstance(x, VList) and x.base is not None:
        if isinstance(x.base, SSeq) and not list.__len__(x):
            return lift(x.base)
        raise Unsupported('term of a partially known list')
    if isinstance(x, (tuple, list)):
        t = V.nil
        for e in reversed(list(x)):
            t = V.cons(lift(e), t)
        return V.T(t) if isinstance(x, tuple) else V.L(t)
    if isinstance(x, VDict) and not x.map:
        t = V.nil
        for k, v in reversed(list(ditems(x))):
            t = V.cons(V.cons(lift(k), lift(v)), t)
        return uf('dict_of', V, V)(t)
    if isinstance(x, (VDict, VSet, Poison)):
        raise Unsupported('term of {}'.format(type(x).__name__))
    h = getattr(x, '__pv_term__', None)
    if h is not None:
        return h()
    # opaque native object
    if isinstance(x, (float, bytes, decimal.Decimal, datetime.date, datetime.time, datetime.timedelta)):
        key = (type(x), repr(x))
    else:
        key = id(x)
    if key not in OBJ_KEY:
        OBJS.append(x)
        OBJ_KEY[key] = -len(OBJS)
    cls = type(x) if type(x) in TAGS else object
    return V.O(z3.IntVal(tag(cls)), z3.IntVal(OBJ_KEY[key]))


def opaque_seq(s):
    """Gives a derived sequence a term, with its elements described by a quantified fact."""
    c = ctx()
    t = z3.Const(c.fresh('seq'), V)
    c.fact(V.is_L(t) if s.kind == 'list' else V.is_T(t))
    c.fact(slen(t) == s.n)
    c.fact((s.n == 0) == ((V.l if s.kind == 'list' else V.t)(t) == V.nil))
    i = z3.Int(c.fresh('qi'))
    try:
        e = lift(s.at(i))
        c.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.n), sat(t, i) == e)))
    except Unsupported:
        pass
    s.key = t
    return t


def dkeys(d):
    with hashing():
        return list(collections.OrderedDict.keys(d)) if isinstance(d, collections.OrderedDict) \
            else list(dict.keys(d))


def ditems(d):
    with hashing():
        return list(dict.items(d)) if not isinstance(d, collections.OrderedDict) \
            else list(collections.OrderedDict.items(d))


def is_sym(x, depth=0):
    """does the value contain anything symbolic?"""
    if isinstance(x, Proxy):
        return True
    if isinstance(x, VList) and x.base is not None:
        return True
    if isinstance(x, VSet):
        return x.elems is None or any(is_sym(e, depth + 1) for e in x.elems)
    if isinstance(x, VDict) and x.map:
        return True
    if depth > 6:
        return False
    if isinstance(x, (list, tuple, frozenset)):
        return any(is_sym(e, depth + 1) for e in list(x))
    if isinstance(x, set):
        return False
    if isinstance(x, dict):
        return any(is_sym(k, depth + 1) or is_sym(v, depth + 1) for k, v in ditems(x))
    if getattr(type(x), '__pv_symbolic__', False):
        return True
    return False


def nativize(x):
    """concrete V-containers -> plain natives for library calls"""
    if isinstance(x, VSet):
        return set(nativize(e) for e in x.elems)
    if isinstance(x, VDict):
        return (collections.OrderedDict if x.od else dict)((k, nativize(v)) for k, v in ditems(x))
    if isinstance(x, VList):
        return [nativize(e) for e in list(x)]
    if type(x) is tuple:
        return tuple(nativize(e) for e in x)
    return x


def concretise(model, v):
    """readable value of v in a z3 model"""
    if isinstance(v, SBool):
        return z3.is_true(model.eval(v.t, model_completion=True))
    if isinstance(v, SInt):
        return model.eval(v.t, model_completion=True).as_long()
    if hasattr(type(v), '__pv_concrete__'):
        return v.__pv_concrete__(model)
    if hasattr(type(v), '__pv_text__') and hasattr(v, 'chars'):
        return ''.join(chr(c if isinstance(c, int) else model.eval(c, model_completion=True).as_long()) for c in v.chars)
    if isinstance(v, SVal):
        return conc_term(model.eval(v.t, model_completion=True))
    if isinstance(v, SSeq):
        n = model.eval(v.n, model_completion=True).as_long()
        return [concretise(model, v.at(z3.IntVal(i))) for i in range(min(n, 6))]
    if isinstance(v, (list, tuple)):
        return [concretise(model, e) for e in v]
    if isinstance(v, dict):
        return {str(k): concretise(model, e) for k, e in ditems(v)}
    if v is None or isinstance(v, (int, str, float, bool)):
        return v
    return repr(v)[:80]


def conc_term(t):
    c = con_name(t)
    if c == 'none':
        return None
    if c == 'B':
        return z3.is_true(t.arg(0))
    if c == 'I':
        return t.arg(0).as_long()
    if c == 'S':
        k = t.arg(0).as_long()
        return STR_OF[k] if 0 <= k < len(STR_OF) else 'str%d' % k
    if c in ('T', 'L'):
        r, x = [], t.arg(0)
        while con_name(x) == 'cons':
            r.append(conc_term(x.arg(0)))
            x = x.arg(1)
        return tuple(r) if c == 'T' else r
    return str(t)
