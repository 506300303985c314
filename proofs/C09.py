"""C09: cells are interpreted by default, null, required, separator and datatype rules."""
from pv.h import *
import csvw.metadata as M

HARNESSES, harness = registry()

ASSUMPTIONS = [
    'contract of Description.inherit/inherit_null (decided by C16): the effective property value',
    'contract of Datatype.read (decided by C05): None for None, else a value determined by the text or ValueError',
    'str.split(sep) is the standard function on non-empty separators (library)',
]

READ = uf('dt_read', V, V)
VALID = uf('dt_valid', V, BOOL)
SPLIT = uf('str_split1', V, V, V)
SPLIT_AT = uf('str_split1_at', V, INT, INT)


class DT:
    """a datatype, by its contract"""
    __pv_model__ = True

    def read(self, v):
        if v is None:
            return None
        t = lift(v)
        if Ctx.cur.branch(V.is_none(t)):
            return None
        if not Ctx.cur.branch(VALID(t)):
            raise ValueError('contract: invalid')
        return SVal(READ(t))


class P:
    pass


def props(ctx, sep):
    p = P()
    p.required = fresh_bool('required')
    p.null = fresh_str_seq('null')
    p.default = inp('default', fresh_str('default'))
    p.separator = inp('separator', fresh_str('separator')) if sep else [None, ''][ctx.choose(2)]
    if sep:
        ctx.assume(V.s(p.separator.t) != 0)
    p.datatype = DT() if ctx.choose(2) else None
    inp('required', p.required)
    inp('null', p.null)
    return p


STATE = P()
C = {
    'csvw.metadata.Description.inherit': lambda self, attr: getattr(STATE.p, attr),
    'csvw.metadata.Description.inherit_null': lambda self: STATE.p.null,
}


def isnull(p, t):
    k = Int('nullk')
    return Exists([k], And(k >= 0, k < p.null.n, lift(p.null.at(k)) == t))


def value(p, t):
    """specification: what a text (null already mapped to None) reads as, if valid"""
    return If(V.is_none(t), V.none, READ(t)) if p.datatype else t


def ok(p, t):
    return Or(V.is_none(t), VALID(t)) if p.datatype else BoolVal(True)


def atom(p, t):
    """specification: the text of an atomic cell after the null rule"""
    return If(isnull(p, t), V.none, t)


def start(ctx, sep):
    p = STATE.p = props(ctx, sep)
    cell = inp('cell', fresh_str('cell')) if ctx.choose(2) else [None, ''][ctx.choose(2)]
    strict = bool(ctx.choose(2))
    c = M.Column(name='c')
    out = meth(c, 'read', cell, strict=strict) if ctx.choose(2) or not strict else meth(c, 'read', cell)
    t = p.default.t if cell is None else If(V.s(lift(cell)) == 0, p.default.t, lift(cell))
    return p, strict, out, t


@harness('Column.read (no separator)', contracts=C)
def atomic(ctx):
    p, strict, (k, r), t = start(ctx, False)
    ctx.expect_cover('value', 'null', 'error')
    missing = And(p.required.t, isnull(p, t))
    good = And(Not(missing), ok(p, atom(p, t)))
    if k == 'exc':
        ctx.cover('error')
        ctx.prove('only ValueError is raised', BoolVal(isinstance(r, ValueError)), repr(r))
        ctx.prove('an error is raised only for a missing required or invalid value', Not(good))
        return
    ctx.cover('null' if r is None else 'value')
    ctx.prove('a missing required value or an invalid value is rejected', good)
    ctx.prove('the value of the cell', lift(r) == value(p, atom(p, t)))


@harness('Column.read (separator)', contracts=C)
def listed(ctx):
    p, strict, (k, r), t = start(ctx, True)
    ctx.expect_cover('list', 'empty', 'null', 'error', 'raw')
    missing = And(p.required.t, isnull(p, t))
    parts = V.L(SPLIT(t, p.separator.t))
    n = slen(parts)
    i = Int('partk')
    part = lambda i: V.S(SPLIT_AT(parts, i))
    raw = lambda i: atom(p, If(V.s(part(i)) == 0, p.default.t, part(i)))
    allok = ForAll([i], Implies(And(i >= 0, i < n), ok(p, raw(i))))
    empty, null = V.s(t) == 0, isnull(p, t)
    if k == 'exc':
        ctx.cover('error')
        ctx.prove('only ValueError is raised', BoolVal(isinstance(r, ValueError)), repr(r))
        ctx.prove('an error is raised only for a missing required or, in strict mode, an invalid value', Or(
            missing, And(Not(empty), Not(null), Not(allok)) if strict else BoolVal(False)))
        return
    ctx.prove('a missing required value is rejected', Not(missing))
    if r is None:
        ctx.cover('null')
        ctx.prove('only a non-empty null cell is None', And(Not(empty), null))
        return
    s = seq_of(r)
    if ctx.branch(empty):
        ctx.cover('empty')
        ctx.prove('an empty cell is the empty list', s.n == 0)
        return
    ctx.prove('a null cell is None', Not(null))
    ctx.prove('the number of parts is kept', s.n == n)
    j = Int(ctx.fresh('part'))
    ctx.assume(And(j >= 0, j < n))
    got = lift(s.get(j))
    if ctx.branch(allok):
        ctx.cover('list')
        ctx.prove('every part is read individually, in order', got == value(p, raw(j)))
    else:
        ctx.cover('raw')
        ctx.prove('an invalid part is rejected in strict mode', BoolVal(not strict))
        ctx.prove('in non-strict mode the parts of an invalid list are kept as text', got == raw(j))
