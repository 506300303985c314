"""Bounded stand-ins: contracts of the real, uninstrumented code evaluated on generated inputs.

A check is a function of one Python-literal input that raises Bad if the contract does not hold.
It is registered with the inputs it is run on: `fixed` (complete or hand-picked lists) and `gen`
(a function of a random.Random).
"""
import ast
import os
import sys
import json
import time
import random
import signal
import shutil
import tempfile
import traceback
import warnings
import importlib
import contextlib
import io
import logging

CASE_TIMEOUT = 20


class Bad(Exception):
    """The contract does not hold for this input."""


class Skip(Exception):
    """The input does not satisfy the precondition."""


def require(cond, msg='', *a):
    if not cond:
        raise Bad((msg.format(*a) if a else msg) or 'contract violated')


def same(got, want, what='result'):
    if not (type(got) is type(want) and got == want) and not (got == want):
        raise Bad('{}: got {!r}, expected {!r}'.format(what, got, want)[:1500])


@contextlib.contextmanager
def raises(*types):
    """the block must raise one of the given exception types"""
    try:
        yield
    except types:
        return
    except Bad:
        raise
    except Exception as e:  # noqa
        raise Bad('raised {!r} instead of {}'.format(e, '/'.join(t.__name__ for t in types)))
    raise Bad('did not raise ' + '/'.join(t.__name__ for t in types))


class Registry:
    def __init__(self):
        self.checks = []

    def __call__(self, name, fixed=None, gen=None, n=200, functions=(), complete=False, thorough=20):
        def deco(f):
            self.checks.append(dict(name=name, f=f, fixed=fixed, gen=gen, n=n, functions=functions,
                                    complete=complete, thorough=thorough))
            return f
        return deco


def scratch():
    return tempfile.mkdtemp(prefix='pvb')


@contextlib.contextmanager
def tmpdir():
    d = scratch()
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


class _Timeout(BaseException):
    pass


def _alarm(*a):
    raise _Timeout


def run_case(chk, x):
    """None if the contract holds, 'skip', or a message"""
    warnings.resetwarnings()
    warnings.simplefilter('ignore')
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        chk['f'](x)
    except Skip:
        return 'skip'
    except Bad as e:
        return str(e) or 'contract violated'
    except _Timeout:
        return 'no result within {} s'.format(CASE_TIMEOUT)
    except RecursionError as e:
        return 'RecursionError: {}'.format(e)
    except Exception as e:  # noqa: an exception the contract does not allow
        tb = traceback.extract_tb(e.__traceback__)
        return 'unexpected {!r} at {}'.format(e, ' <- '.join(
            '{}:{}'.format(os.path.basename(f.filename), f.lineno) for f in reversed(tb[-3:])))[:800]
    finally:
        signal.alarm(0)
    return None


def run(prop, tier, seed, wall, only=None):
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module('bounded.' + prop)
    t0 = time.time()
    res = dict(checks=[], violations=[], evaluations=0, distinct=0, skipped=0, samples=[])
    checks = [c for c in mod.check.checks if not only or only in c['name']]
    try:
        with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')) as f:
            known = {(k['check'], k['input']) for k in json.load(f) if k['property'] == prop and k['status'] == 'known'}
    except OSError:
        known = set()
    res['known_seen'] = []
    for k, c in enumerate(checks):
        share = (wall - (time.time() - t0)) / (len(checks) - k)
        end = time.time() + max(share, 0.5)
        rng = random.Random('{}/{}/{}'.format(seed, prop, c['name']))
        seen = set()
        ran = skipped = 0
        bad = None
        truncated = False

        def inputs():
            fx = c['fixed']
            for x in (fx() if callable(fx) else fx or ()):
                yield x
            if c['gen']:
                for _ in range(c['n'] * (c['thorough'] if tier == 'thorough' else 1)):
                    yield c['gen'](rng)
        for x in inputs():
            r = run_case(c, x)
            ran += 1
            if r == 'skip':
                skipped += 1
                continue
            seen.add(hash(repr(x)))
            if len(res['samples']) < 6 and ran in (1, 7):
                res['samples'].append({'check': c['name'], 'input': repr(x)[:300]})
            if r is not None and (c['name'], repr(x)) in known:
                res['known_seen'].append([c['name'], repr(x)])
            elif r is not None:
                bad = dict(check=c['name'], input=repr(x), message=r)
                break
            if time.time() > end:
                truncated = True
                break
        res['checks'].append(dict(
            name=c['name'], evaluated=ran - skipped, skipped=skipped, distinct=len(seen),
            complete=bool(c['complete'] and not truncated), truncated=truncated))
        res['evaluations'] += ran - skipped
        res['skipped'] += skipped
        res['distinct'] += len(seen)
        if bad:
            res['violations'].append(bad)
    res['wall_s'] = round(time.time() - t0, 2)
    return res


def replay(path):
    d = json.load(open(path))
    mod = importlib.import_module('bounded.' + d['property'])
    for c in mod.check.checks:
        if c['name'] == d['check']:
            r = run_case(c, ast.literal_eval(d['input']))
            print('input:', d['input'])
            print('result:', r or 'contract holds')
            return 1 if r else 0
    print('no such check')
    return 2
