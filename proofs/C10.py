"""C10: writing a column value and reading the cell back returns the value."""
from pv.h import *
import csvw.metadata as M
from proofs import C09

HARNESSES, harness = registry()

ASSUMPTIONS = C09.ASSUMPTIONS + [
    'contract of Datatype.formatted/read (decided by C07, C08, C22 per datatype): formatted(v) is a text, and reading '
    'it returns v for every value v of the type',
    'library: sep.join(parts).split(sep) == parts if no part contains sep and there is at least one part',
]

FMT = uf('dt_fmt', V, V)
HAS = uf('str_has', V, V, BOOL)      # does the text contain the separator
JOIN = uf('str_join', V, V, INT)


class DT(C09.DT):
    __pv_model__ = True

    def formatted(self, v):
        t = lift(v)
        Ctx.cur.fact(V.is_S(FMT(t)))
        return SVal(V.S(V.s(FMT(t))))


C = {
    'csvw.metadata.Description.inherit': lambda self, attr: getattr(C09.STATE.p, attr),
    'csvw.metadata.Description.inherit_null': lambda self: C09.STATE.p.null,
}


def props(ctx, sep):
    p = C09.props(ctx, sep)
    p.datatype = DT() if p.datatype else None
    ctx.assume(p.null.n > 0)
    if sep:
        p.required = False
    else:
        p.required = fresh_bool('required')
    C09.STATE.p = p
    return p


def text(p, v):
    """specification: the text of one value"""
    body = V.S(V.s(FMT(v))) if p.datatype else v
    return If(V.is_none(v), lift(p.null.at(IntVal(0))), body)


def readable(p, v):
    """a value of the column's type whose text does not collide with a null value"""
    t = text(p, v)
    typed = And(VALIDT(t), C09.READ(t) == v) if p.datatype else V.is_S(v)
    return Or(V.is_none(v), And(typed, Not(C09.isnull(p, t))))


VALIDT = C09.VALID


@harness('Column.write', contracts=C)
def write(ctx):
    p = props(ctx, False)
    c = M.Column(name='c')
    v = inp('value', fresh_val('value'))
    ctx.expect_cover('none', 'value')
    k, r = meth(c, 'write', v)
    ctx.prove('write does not raise', BoolVal(k == 'ok'), repr(r))
    ctx.cover('none')
    ctx.prove('None is written as the first null value, other values as their text', lift(r) == text(p, v.t))
    if ctx.check(Not(V.is_none(v.t))) != z3.unsat:
        ctx.cover('value')


@harness('Column.write, Column.read (atomic)', contracts=C)
def atomic(ctx):
    p = props(ctx, False)
    c = M.Column(name='c')
    v = inp('value', fresh_val('value'))
    t = text(p, v.t)
    ctx.assume(readable(p, v.t))
    # no collision with the default; None only in columns that may be empty
    ctx.assume(Or(V.s(t) != 0, And(p.default.t == t)))
    ctx.assume(Implies(V.is_none(v.t), Not(p.required.t)))
    ctx.expect_cover('none', 'value')
    k, cell = meth(c, 'write', v)
    ctx.prove('write does not raise', BoolVal(k == 'ok'), repr(cell))
    k, r = meth(c, 'read', cell)
    ctx.prove('read does not raise', BoolVal(k == 'ok'), repr(r))
    ctx.cover('none' if r is None else 'value')
    ctx.prove('the value comes back', eq(r, v))


@harness('Column.write, Column.read (list)', contracts=C)
def listed(ctx):
    p = props(ctx, True)
    c = M.Column(name='c')
    items = uf('items', INT, V)
    n = Int('n')
    ctx.assume(n >= 0)
    i = Int('itemk')
    inr = And(i >= 0, i < n)
    txt = lambda i: text(p, items(i))
    ctx.assume(ForAll([i], Implies(inr, readable(p, items(i)))))
    ctx.assume(ForAll([i], Implies(inr, Not(HAS(txt(i), p.separator.t)))))
    # a None item is written as a null value; empty texts are replaced by the default when reading
    ctx.assume(ForAll([i], Implies(inr, Or(V.s(txt(i)) != 0, C09.isnull(p, p.default.t)))))
    ctx.assume(ForAll([i], Implies(And(inr, V.s(txt(i)) == 0), And(V.is_none(items(i))))))
    v = SSeq(n, lambda k: SVal(items(k)), 'list')
    parts = []

    def joined(sep, seq):
        """library contract of join and split"""
        t = lift(seq)
        j = JOIN(lift(sep), t)
        sp = V.L(C09.SPLIT(V.S(j), p.separator.t))
        k = Int(ctx.fresh('qi'))
        ctx.assume(Implies(slen(t) == 0, j == 0))
        ctx.assume(Implies(And(slen(t) > 0, ForAll([k], Implies(And(k >= 0, k < slen(t)), Not(
            HAS(sat(t, k), p.separator.t))))), And(slen(sp) == slen(t), ForAll([k], Implies(
                And(k >= 0, k < slen(t)), V.S(C09.SPLIT_AT(sp, k)) == sat(t, k))))))
        parts.append((j, t))
        return SVal(V.S(j))
    old = RT.join
    RT.join = lambda sep, x: joined(sep, seq_of(x))
    try:
        k, cell = meth(c, 'write', v)
    finally:
        del RT.join
    ctx.prove('write does not raise', BoolVal(k == 'ok'), repr(cell))
    whole = lift(cell)
    # the whole text of a non-empty list collides neither with the empty cell nor with a null value
    ctx.assume(Implies(n > 0, And(V.s(whole) != 0, Not(C09.isnull(p, whole)))))
    ctx.assume(Implies(n == 0, V.s(p.default.t) == 0))
    ctx.expect_cover('list', 'empty')
    k, r = meth(c, 'read', cell)
    ctx.prove('read does not raise', BoolVal(k == 'ok'), repr(r))
    ctx.prove('a list comes back', BoolVal(r is not None))
    s = seq_of(r)
    ctx.prove('the length is kept', s.n == n)
    if ctx.branch(n == 0):
        ctx.cover('empty')
        return
    ctx.cover('list')
    j = Int(ctx.fresh('part'))
    ctx.assume(And(j >= 0, j < n))
    ctx.prove('every item comes back at its place', lift(s.get(j)) == items(j))
