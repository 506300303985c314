"""What proof scripts use: harness registry, symbolic inputs, spec helpers."""
from pv import boot  # noqa: F401  (must come first)
import z3
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, ForAll, Exists, Select, Store, Int, Const  # noqa: F401

from pv import rt, core, values, loops  # noqa: F401
from pv.core import Ctx, Session, PathEnd, Unsupported  # noqa: F401
from pv.values import (  # noqa: F401
    V, INT, BOOL, SETV, MAPV, SVal, SInt, SBool, SSeq, VList, VSet, VDict, LogBase, Proxy, lift, mk, lit, uf, it,
    bt, sbool, slen, sat, lt, fresh_val, fresh_str, fresh_int, fresh_bool, fresh_obj, fresh_seq,
    fresh_str_seq, order_axioms, tag, not_, and_, or_, truth_term, con_name)
from pv.rt import RT, Stream, model, BUILTINS, MODELS, METHOD_MODELS  # noqa: F401

call = RT.call


class Harness:
    def __init__(self, name, fn, contracts=None, kind='unbounded', bound=None, functions=(), inputs=None):
        self.name, self.fn, self.contracts = name, fn, contracts or {}
        self.kind, self.bound, self.functions = kind, bound, functions


def registry(**options):
    """options are set as attributes of the contexts of the harnesses"""
    hs = []

    def harness(name, contracts=None, kind='unbounded', bound=None):
        def deco(fn):
            def h(ctx):
                for k, v in options.items():
                    setattr(ctx, k, v)
                return fn(ctx)
            hs.append(Harness(name, h if options else fn, contracts, kind, bound))
            return fn
        return deco
    return hs, harness


def run(f, *a, **k):
    """('ok', result) or ('exc', exception) of a call of the real code"""
    try:
        return 'ok', call(f, *a, **k)
    except Exception as e:  # noqa: the code's own exception
        return 'exc', e


def meth(o, name, *a, **k):
    try:
        return 'ok', RT.meth(o, name, *a, **k)
    except Exception as e:  # noqa
        return 'exc', e


def eq(a, b):
    return bt(RT.eq(a, b))


def length(x):
    return it(BUILTINS[id(len)][1](x))


def is_none(x):
    return V.is_none(lift(x))


def optional(base, make):
    """None or make(base); both cases are explored"""
    return None if Ctx.cur.choose(2) == 0 else make(base)


def inp(name, v):
    """registers a named input for counterexamples"""
    Ctx.cur.inputs[name] = v
    return v


def from_contract(out):
    """is the outcome an exception raised by an assumed contract?"""
    k, e = out
    return k == 'exc' and bool(e.args) and isinstance(e.args[0], str) and e.args[0].startswith('contract:')


def seq_of(x):
    """SSeq view of any list or tuple"""
    s = RT.seq(x)
    return s if s is not None else RT.list_seq(x)
