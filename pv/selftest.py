"""Checks that the verifier works here: it must prove a correct function and refute broken ones."""
from pv import boot  # noqa: F401
from pv import core
from pv.h import *


def accept(ctx):
    x, y = fresh_int('x'), fresh_int('y')
    ctx.prove('max', Implies(it(x) > it(y), it(x) >= it(y)))


def refute(ctx):
    x, y = fresh_int('x'), fresh_int('y')
    ctx.prove('wrong', it(x) >= it(y))


if __name__ == '__main__':
    s = core.Session('accept', accept).run()
    assert not s.failures and s.obligations['max'][0] == 1, s.failures
    s = core.Session('refute', refute).run()
    assert s.failures and s.failures[0].kind == 'refuted', 'not refuted'
    from csvw import metadata
    assert metadata.__file__.endswith('metadata.py')
    print('verifier ready')
