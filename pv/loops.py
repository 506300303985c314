"""Loop heads: native iteration, bounded unrolling, or an unbounded cut with inductive invariants.

A cut loop is verified as usual: the candidate invariants hold on entry; everything the body can change is
replaced by an arbitrary state satisfying them; one arbitrary iteration is executed and must re-establish
them; the code after the loop starts from an arbitrary such state in which the iterable is exhausted.
The set of changed locations is found by executing iterations and comparing heaps (the exploration
restarts whenever a new changed location appears, until none does), and the candidates that are not
inductive are dropped (Houdini) until a fixed point is reached.
"""
import types
import collections
import functools

import z3

from .core import Ctx, Unsupported, PathEnd, Restart
from . import values as vv
from .values import (
    V, Proxy, SBool, SInt, SVal, SSeq, VList, VSet, VDict, LogBase, Poison, lift, bt, it, is_sym, con_name,
    ditems, SETV, MAPV)
from . import rt as R

UNROLL = 3
NATIVE_LIMIT = 20000
HOUDINI_TIMEOUT = 4000


def make(rt, lid, x, isfor, names):
    if Ctx.cur is None:
        return Native(iter(x) if isfor else None, isfor)
    if not isfor:
        return WhileLoop(lid, names)
    if isinstance(x, Poison):
        x._no('iteration')
    st = rt.symbolic_iter(x)
    if st is not None:
        return CutFor(lid, st, names)
    m = getattr(type(x), '__iter__', None)
    if R.is_ours(m) or getattr(type(x), '__pv_iter__', False):
        o = rt.call(m, x) if R.is_ours(m) else x
        st = rt.symbolic_iter(o)
        if st is not None:
            return CutFor(lid, st, names)
        if isinstance(o, types.GeneratorType):
            return Native(o, True, gen=True)
        if R.is_ours(getattr(type(o), '__next__', None)) or getattr(type(o), '__pv_iter__', False):
            return CutFor(lid, o, names)
        x = o
    return Native(rt.iterable(x), True, gen=isinstance(x, types.GeneratorType))


class Native:
    def __init__(self, it_, isfor, gen=False):
        self.it, self.isfor, self.gen = it_, isfor, gen
        self.count = 0

    def head(self, locs):
        if not self.isfor:
            return True
        c = Ctx.cur
        try:
            if self.gen and c is not None:
                c.native_gen += 1
                try:
                    self.cur = next(self.it)
                finally:
                    c.native_gen -= 1
            else:
                self.cur = next(self.it)
            return True
        except StopIteration:
            return False

    def has(self, n):
        return False

    def elem(self):
        return self.cur


class WhileLoop:
    """`while`: executed natively while its condition is concrete; cut when it iterates symbolically."""

    def __init__(self, lid, names):
        lid = Ctx.cur.loop_entry(lid)
        self.lid, self.names = lid, names
        self.info = Ctx.cur.s.loop(lid, False)
        self.count = 0
        self.start = len(Ctx.cur.trace)
        self.cut = Cut(self.info, lid, None, names) if self.info.cut else None

    def head(self, locs):
        self.count += 1
        if self.cut is not None:
            self.cut.arrive(locs)
            return True
        c = Ctx.cur
        if self.count > getattr(c, 'unroll', UNROLL) and len(c.trace) > self.start:
            self.info.cut = True
            raise Restart
        if self.count > NATIVE_LIMIT:
            raise Unsupported('while loop does not end')
        return True

    def has(self, n):
        return self.cut is not None and n in self.cut.rebinds

    def get(self, n):
        return self.cut.rebinds[n]


class CutFor:
    def __init__(self, lid, it_, names):
        lid = Ctx.cur.loop_entry(lid)
        self.cut = Cut(Ctx.cur.s.loop(lid), lid, it_, names)
        self.it = it_

    def head(self, locs):
        self.cut.arrive(locs)
        c = Ctx.cur
        try:
            v = R.pull(self.it)
        except R.Skip:
            # a filtered-out element does not execute the body: on to the next iteration
            c.cover('loop body ' + self.cut.lid)
            self.cut.arrive({n: self.cut.rebinds.get(n, x) for n, x in locs.items()})
        except StopIteration:
            c.cover('loop exit ' + self.cut.lid)
            return False
        keep = getattr(self.it, 'keep', None)
        if keep is not None:
            # filtered-out elements do not execute the body
            if not c.branch(keep(z3.simplify(it(self.it.pos) - 1))):
                c.cover('loop body ' + self.cut.lid)
                self.cut.arrive({n: self.cut.rebinds.get(n, x) for n, x in locs.items()})
        self.cur = v
        c.cover('loop body ' + self.cut.lid)
        return True

    def has(self, n):
        return n in self.cut.rebinds

    def get(self, n):
        return self.cut.rebinds[n]

    def elem(self):
        return self.cur


ATOMS = (str, int, float, bytes, type(None), bool, type, types.FunctionType, types.BuiltinFunctionType,
         types.ModuleType)


def children(o):
    """(field, value) pairs of the mutable parts of an object"""
    if isinstance(o, VList):
        return [('[%d]' % i, v) for i, v in enumerate(list(o))]
    if isinstance(o, VDict):
        return [('{%s}' % (k if isinstance(k, str) else i), v)
                for i, (k, v) in enumerate(ditems(o))] if not o.map else []
    if isinstance(o, (tuple, list)):
        return [('[%d]' % i, v) for i, v in enumerate(o)]
    if isinstance(o, dict):
        return [('{%s}' % (k if isinstance(k, str) else i), v) for i, (k, v) in enumerate(ditems(o))]
    if isinstance(o, types.MethodType):
        return [('self', o.__self__)]
    if isinstance(o, types.FunctionType):
        res = []
        for n, cell in zip(o.__code__.co_freevars, o.__closure__ or ()):
            try:
                res.append(('cell:' + n, cell.cell_contents))
            except ValueError:
                pass
        return res
    if isinstance(o, functools.partial):
        return [('p%d' % i, v) for i, v in enumerate(o.args)]
    if isinstance(o, Proxy) or isinstance(o, ATOMS) or isinstance(o, VSet):
        return []
    d = getattr(o, '__dict__', None)
    if isinstance(d, dict) and interesting(o):
        return [('.' + k, v) for k, v in d.items() if isinstance(k, str)]
    return []


def interesting(o):
    mod = type(o).__module__ or ''
    return mod.split('.')[0] in ('csvw', 'pv', 'proofs') and not isinstance(
        o, (SSeq, LogBase)) and not mod == 'pv.core'


def state(o):
    if isinstance(o, VList):
        return {'#list': (o.base, tuple(list(o)))}
    if isinstance(o, VSet):
        return {'#set': (o.arr, None if o.elems is None else tuple(o.elems))}
    if isinstance(o, VDict):
        return {'#dict': (o.map, tuple(ditems(o)))}
    if type(o) in (list, dict, set):
        return {'#native': tuple(o) if not isinstance(o, dict) else tuple(ditems(o))}
    if isinstance(o, types.FunctionType):
        return {}
    d = getattr(o, '__dict__', None)
    if isinstance(d, dict) and interesting(o):
        return {'.' + k: v for k, v in d.items()}
    return {}


def same_value(a, b):
    """syntactic equality of two stored values"""
    if a is b:
        return True
    if isinstance(a, (SVal, SInt, SBool)) and type(a) is type(b):
        return z3.eq(a.t, b.t)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if z3.is_expr(a) and z3.is_expr(b):
        return z3.eq(a, b)
    if type(a) is type(b) and isinstance(a, (int, str, float, bytes, bool)):
        return a == b
    return False


class Heap:
    """Objects reachable from the roots, with a stable path name and a copy of their state."""

    def __init__(self, roots):
        self.objs = collections.OrderedDict()   # id -> (path, obj, state)
        queue = list(roots)
        k = 0
        while k < len(queue):
            path, o = queue[k]
            k += 1
            if isinstance(o, ATOMS) and not isinstance(o, types.FunctionType):
                continue
            if id(o) in self.objs or isinstance(o, Proxy):
                continue
            if isinstance(o, types.FunctionType) and not (R.is_ours(o) and o.__closure__):
                continue
            if type(o) in (dict, list) and len(o) > 60:
                continue
            self.objs[id(o)] = (path, o, state(o))
            if len(self.objs) > 4000:
                raise Unsupported('heap too large')
            for f, v in children(o):
                queue.append((path + f, v))

    def changes(self):
        """locations whose state differs now: (path+field, obj, field, old, new)"""
        for path, o, st in self.objs.values():
            now = state(o)
            for f in list(st) + [f for f in now if f not in st]:
                old, new = st.get(f, vv.MISSING), now.get(f, vv.MISSING)
                if not same_value(old, new):
                    if old is vv.MISSING and isinstance(
                            getattr(type(o), f[1:], None), functools.cached_property):
                        continue
                    yield path + f, o, f, old, new


def kind_of(v):
    if isinstance(v, Poison):
        return 'poison'
    if isinstance(v, (bool, SBool)):
        return 'bool'
    if isinstance(v, (int, SInt)):
        return 'int'
    if isinstance(v, str) or (isinstance(v, SVal) and con_name(v.t) == 'S'):
        return 'str'
    if isinstance(v, SVal) or v is None:
        return 'val'
    if seqv(v) is not None:
        return 'seqv'
    return 'poison'


def seqv(v):
    """the keyed sequence behind a value, if it can be replaced by an arbitrary one of its kind"""
    if isinstance(v, VList) and not list.__len__(v):
        v = v.base
    if isinstance(v, SSeq) and v.key is not None and v.remake is not None:
        return v
    return None


def join(a, b):
    if a == b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if {a, b} <= {'bool', 'int', 'str', 'val'}:
        return 'val'
    return 'poison'


class Cut:
    def __init__(self, info, lid, it_, names):
        self.info, self.lid, self.it, self.names = info, lid, it_, names
        self.arrivals = 0
        self.rebinds = {}
        if Ctx.cur.native_gen:
            raise Unsupported('a loop over symbolic data inside a generator without contract')

    # ------------------------------------------------------------------
    def roots(self, locs):
        res = [('IT', self.it)] if self.it is not None else []
        for n in sorted(locs):
            if not n.startswith('VC'):
                res.append(('L:' + n, locs[n]))
        for n in sorted(Ctx.cur.roots):
            res.append(('G:' + n, Ctx.cur.roots[n]))
        return res

    def arrive(self, locs):
        self.arrivals += 1
        if self.arrivals == 1:
            self.enter(locs)
        else:
            self.back(locs)
            raise PathEnd

    def location_kind(self, f, old, new):
        if f == '#list':
            return 'log'
        if f == '#set':
            return 'set'
        if f == '#dict':
            return 'map'
        if f == '#native':
            return 'native'
        return join(kind_of(old) if old is not vv.MISSING else None, kind_of(new))

    def note(self, path, kind):
        """a location changed by an iteration; True if that is news"""
        mods = self.info.mods
        k = join(mods.get(path), kind)
        if mods.get(path) != k:
            mods[path] = k
            return True
        return False

    # ------------------------------------------------------------------
    def enter(self, locs):
        c = Ctx.cur
        info = self.info
        self.heap = Heap(self.roots(locs))
        # find the objects behind the known modified heap locations
        by_path = {}
        for path, o, st in self.heap.objs.values():
            for f in st:
                by_path[path + f] = (o, f)
        self.locs = collections.OrderedDict()   # path -> (getter, setter)
        for n in self.names:
            p = 'L:' + n
            if n not in locs:
                self.rebinds[n] = Poison('{} is only bound inside the loop'.format(n))
            elif p in info.mods:
                self.locs[p] = ('local', n)
        for p in sorted(info.mods):
            if p.startswith('L:') and p[2:] in self.names and p in self.locs:
                continue
            if p in by_path:
                self.locs[p] = by_path[p]
        self.now = dict(locs)
        kinds = {}
        news = False
        for p, (o, f) in self.locs.items():
            v = self.read(p)
            k = self.entry_kind(f, v)
            if self.note(p, k):
                news = True
            kinds[p] = info.mods[p]
        if news:
            raise Restart
        self.kinds = kinds
        entry = self.read_all()
        self.entry = entry
        # candidate invariants
        cands = [x for x in self.candidates(kinds) if x not in info.dropped]
        lost = False
        for cd in cands:
            f = self.formula(cd, entry, self.read_all())
            if not self.holds(cd, f, 'established'):
                info.dropped.add(cd)
                lost = True
        if lost:
            raise Restart
        # havoc
        subs = self.partners(cands)
        newvals = {}
        for p, k in kinds.items():
            self.havoc(p, k, subs, newvals)
        after = self.read_all()
        for cd in cands:
            if cd[0] != 'sub':
                c.assume(self.formula(cd, entry, after))
        if isinstance(self.it, R.Stream):
            c.assume(z3.And(it(self.it.pos) >= 0, it(self.it.pos) <= self.it.seq.n))
        for o, f in self.locs.values():
            if f == '.pos' and isinstance(o, R.Stream):
                c.assume(z3.And(it(o.pos) >= 0, it(o.pos) <= o.seq.n))
        self.cands = cands
        self.heap2 = Heap(self.roots({n: self.rebinds.get(n, v) for n, v in locs.items()}))
        # keep the entry path names
        self.locals2 = {n: self.rebinds.get(n, locs[n]) for n in self.names if n in locs}

    def entry_kind(self, f, v):
        if f == '#list':
            return 'log'
        if f == '#set':
            return 'set'
        if f == '#dict':
            return 'map'
        if f == '#native':
            raise Unsupported('a native container is modified in a loop')
        return kind_of(v)

    def read(self, p):
        o, f = self.locs[p]
        if o == 'local':
            return self.rebinds.get(f, self.now[f])
        if f in ('#list', '#set', '#dict'):
            return o
        return o.__dict__[f[1:]] if f[1:] in o.__dict__ else None

    def read_all(self):
        return {p: self.snap(self.read(p)) for p in self.locs}

    @staticmethod
    def snap(v):
        if isinstance(v, VList):
            return VList(list(v), v.base)
        if isinstance(v, VSet):
            return VSet(v.arr, None if v.elems is None else list(v.elems))
        return v

    def write(self, p, v):
        o, f = self.locs[p]
        if o == 'local':
            self.rebinds[f] = v
        else:
            o.__dict__[f[1:]] = v

    def havoc(self, p, k, subs, newvals):
        c = Ctx.cur
        nm = c.fresh('h:' + p)
        o, f = self.locs[p]
        if k == 'log':
            rep = subs.get(p, p)
            if rep not in newvals:
                newvals[rep] = LogBase(nm)
                c.assume(newvals[rep].n >= 0)
            o.base = newvals[rep]
            list.clear(o)
        elif k == 'set':
            o.arr, o.elems = z3.Const(nm, SETV), None
        elif k == 'map':
            with vv.hashing():
                collections.OrderedDict.clear(o)
            o.map = (z3.Const(nm + '.p', SETV), z3.Const(nm + '.v', MAPV))
        elif k == 'bool':
            self.write(p, SBool(z3.Bool(nm)))
        elif k == 'int':
            self.write(p, SInt(z3.Int(nm)))
        elif k == 'str':
            self.write(p, SVal(V.S(z3.Int(nm))))
        elif k == 'val':
            self.write(p, SVal(z3.Const(nm, V)))
        elif k == 'seqv':
            s = seqv(self.read(p)).remake(nm)
            self.write(p, VList(base=s) if s.kind == 'list' else s)
        else:
            self.write(p, Poison('{} changes in loop {}'.format(p, self.lid)))

    # ------------------------------------------------------------------
    def candidates(self, kinds):
        res = []
        ps = sorted(kinds)
        for p in ps:
            if kinds[p] in ('bool', 'int', 'val', 'str', 'set', 'log', 'seqv'):
                res.append(('entry', p, ''))
            if kinds[p] == 'int':
                res.append(('ge0', p, ''))
        for i, p in enumerate(ps):
            for q in ps[i + 1:]:
                if kinds[p] != kinds[q]:
                    if {kinds[p], kinds[q]} == {'str', 'val'}:
                        res.append(('eq', p, q))
                    continue
                if kinds[p] == 'bool':
                    res += [('eq', p, q), ('neq', p, q)]
                elif kinds[p] == 'int':
                    res.append(('diff', p, q))
                elif kinds[p] in ('val', 'str', 'set', 'map', 'seqv'):
                    res.append(('eq', p, q))
                elif kinds[p] == 'log':
                    res.append(('sub', p, q))
        for k, t in enumerate(Ctx.cur.templates):
            for args in t.instances(kinds):
                res.append(('tmpl%d' % k,) + tuple(args))
        return res

    def partners(self, cands):
        """representative of each list location under the kept `sub` candidates"""
        rep = {}
        for cd in cands:
            if cd[0] == 'sub':
                a, b = rep.get(cd[1], cd[1]), rep.get(cd[2], cd[2])
                if a != b:
                    for k in list(rep):
                        if rep[k] == b:
                            rep[k] = a
                    rep[b] = a
                    rep[cd[2]] = a
                    rep.setdefault(cd[1], a)
        return rep

    def formula(self, cd, entry, now):
        kind, p = cd[0], cd[1]
        rt = R.RT
        if kind == 'entry':
            e, n = entry[p], now[p]
            if isinstance(e, Poison) or isinstance(n, Poison):
                return z3.BoolVal(False)
            if seqv(e) is not None and seqv(n) is not None:
                return seqv(e).key == seqv(n).key
            if isinstance(e, VList):
                return bt(rt.same_seq(VList(list(e), e.base) if e is not n else e, n)) \
                    if not (e is n) else z3.BoolVal(True)
            return bt(rt.eq(e, n))
        if kind == 'ge0':
            return it(now[p]) >= 0
        if kind.startswith('tmpl'):
            t = Ctx.cur.templates[int(kind[4:])]
            return bt(t.formula(entry, now, *cd[1:]))
        q = cd[2]
        a, b = now[p], now[q]
        if kind == 'eq':
            if seqv(a) is not None and seqv(b) is not None:
                return seqv(a).key == seqv(b).key
            if isinstance(a, VDict):
                if not (a.map and b.map):
                    return bt(rt.same_dict(a, b)) if not a.map and not b.map else z3.BoolVal(False)
                return z3.And(a.map[0] == b.map[0], a.map[1] == b.map[1])
            return bt(rt.eq(a, b))
        if kind == 'neq':
            return z3.Not(bt(rt.eq(a, b)))
        if kind == 'diff':
            return it(a) - it(b) == it(entry[p]) - it(entry[q])
        if kind == 'sub':
            return bt(rt.same_seq(a, b))
        raise AssertionError(kind)

    def holds(self, cd, f, when):
        c = Ctx.cur
        name = 'loop {}: invariant {}{} {}'.format(
            self.lid, cd[0], '(' + ', '.join(str(x) for x in cd[1:] if x != '') + ')', when)
        if c.final:
            return c.prove(name, f) is not False
        st, _, _ = c.valid(f, HOUDINI_TIMEOUT)
        return st == 'valid'

    # ------------------------------------------------------------------
    def back(self, locs):
        c = Ctx.cur
        news = False
        names = {id(o): path for path, o, _ in self.heap.objs.values()}
        for path, o, f, old, new in self.heap2.changes():
            base = names.get(id(o))
            if base is None:
                # an object created by the loop itself before; only reachable through havocked state
                base = path[:-len(f)] if path.endswith(f) else path
            p = base + f
            k = self.location_kind(f, old, new)
            if k == 'native':
                raise Unsupported('a native container is modified in a loop: ' + p)
            if p in self.locs:
                if self.note(p, k):
                    news = True
                continue
            if self.note(p, k):
                news = True
            else:
                raise Unsupported('cannot locate modified ' + p)
        for n, old in self.locals2.items():
            if n not in locs:
                self.note('L:' + n, 'poison')
                continue
            new = locs[n]
            if not same_value(old, new):
                k = join(kind_of(self.now[n]), kind_of(new))
                if self.note('L:' + n, k):
                    news = True
        if news:
            raise Restart
        self.now = dict(locs)
        self.rebinds = {}
        now = self.read_all()
        for cd in self.cands:
            try:
                f = self.formula(cd, self.entry_values(), now)
            except Unsupported:
                f = z3.BoolVal(False)
            if not self.holds(cd, f, 'preserved'):
                if not c.final:
                    self.info.dropped.add(cd)
                    news = True
        if news:
            raise Restart

    def entry_values(self):
        return self.entry
