"""Path exploration, proof obligations and solver access of the deductive verifier.

The verifier runs the *real* function bodies of /repo/src/csvw (mechanically instrumented, see
instrument.py) on symbolic values.  A run follows one path; every symbolic branch is a recorded
decision, and the driver re-executes the function until all feasible decision sequences are covered.
Loops over symbolic sequences are cut at their head (loops.py): an arbitrary iteration is executed
from a havocked state that satisfies the inductive invariants, so the number of iterations is
unbounded.
"""
import os
import time
import hashlib
import subprocess
import tempfile

import z3

z3.set_param('smt.random_seed', 1)


class PathEnd(BaseException):
    """The current path is finished (infeasible, or closed by a loop cut)."""


class Unsupported(BaseException):
    """The function left the subset the verifier understands."""


class Restart(BaseException):
    """Exploration must start over (loop frame information was learned)."""


class Ctx:
    cur = None


BRANCH_TIMEOUT = 800
PROVE_TIMEOUT = 20000
MAX_PATHS = 6000


class LoopInfo:
    def __init__(self):
        self.mods = {}        # location -> kind
        self.temps = set()    # locals only bound inside the body
        self.dropped = set()  # refuted candidate invariants
        self.cut = False
        self.kept = set()
        self.where = None


class Failure:
    def __init__(self, name, kind, detail, inputs=None, solver=None, path=None):
        self.name, self.kind, self.detail = name, kind, detail
        self.inputs, self.solver, self.path = inputs, solver, path

    def asdict(self):
        return dict(obligation=self.name, kind=self.kind, detail=self.detail,
                    inputs=self.inputs, solver=self.solver, path=self.path)


class Session:
    """The verification of one harness."""

    def __init__(self, name, fn, contracts=None, deadline=None):
        self.name, self.fn = name, fn
        self.contracts = contracts or {}
        self.loops = {}
        self.obligations = {}   # name -> [discharged, failed]
        self.backend = {}
        self.failures = []
        self.covers = {}
        self.paths = 0
        self.solver_time = 0.0
        self.max_query = 0.0
        self.restarts = 0
        self.functions = set()
        self.used_contracts = set()
        self.models_used = set()
        self.deadline = deadline
        self.stable = False
        self.first = False
        self.t0 = time.time()
        self.qcache = {}

    def loop(self, lid, iterates=True):
        if lid not in self.loops:
            self.loops[lid] = LoopInfo()
            if self.first and iterates:
                raise Restart
        return self.loops[lid]

    # ------------------------------------------------------------------
    def run(self):
        """Explore; repeat until the loop information is stable; then prove."""
        if not self.stable and not self.loops:
            # Without loops to learn about, one exploration is enough.
            self.first = True
            try:
                self.explore(final=True)
                self.stable = True
            except Restart:
                self.loops = {}
            self.first = False
        if self.stable:
            return self.finish()
        for _ in range(200):
            self.restarts += 1
            try:
                changed = self.explore(final=False) if not self.stable else False
                if changed:
                    continue
                self.stable = True
                self.explore(final=True)
                break
            except Restart:
                self.stable = False
                continue
        else:
            raise Unsupported('loop information does not stabilise')
        return self.finish()

    def finish(self):
        if not self.obligations and not self.failures:
            self.failures.append(Failure('vacuity', 'no-obligation', 'the harness generated no obligation'))
        for c, n in self.covers.items():
            if not n and not c.startswith('loop '):
                self.failures.append(Failure('cover:' + c, 'vacuous', 'never reached with a satisfiable path'))
        return self

    def explore(self, final):
        self.obligations, self.failures, self.backend = {}, [], {}
        self.covers = {k: 0 for k in self.covers}
        before = {k: len(v.dropped) for k, v in self.loops.items()}
        work = [[]]
        self.paths = 0
        has_loop = False
        while work:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time budget of the harness exhausted')
            prefix = work.pop()
            ctx = Ctx_(self, prefix, final)
            Ctx.cur = ctx
            self.paths += 1
            if self.paths > MAX_PATHS:
                raise Unsupported('too many paths')
            try:
                self.fn(ctx)
            except PathEnd:
                pass
            finally:
                Ctx.cur = None
                ctx.finish()
            for i in range(len(prefix), len(ctx.trace)):
                ch, alts = ctx.trace[i]
                for a in alts:
                    work.append([t[0] for t in ctx.trace[:i]] + [a])
        after = {k: len(v.dropped) for k, v in self.loops.items()}
        return before != after


class Ctx_:
    def __init__(self, session, prefix, final):
        self.s, self.prefix, self.final = session, prefix, final
        self.trace = []
        self.pc = []
        self.known = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', BRANCH_TIMEOUT)
        self.counter = {}
        self.inputs = {}       # name -> (kind, value) for concretisation
        self.ghost = {}        # name -> ghost value (a location in cut loops)
        self.streams = []
        self.events = []
        self.roots = {}
        self.native_gen = 0
        self.keep = []
        self.factids = set()
        self.nested = 0
        self.templates = []
        self.dict_summary = None
        self.seqfacts = {}
        self.entered = {}

    def loop_entry(self, lid):
        """the loop, told apart by how often it has been entered on this path"""
        n = self.entered[lid] = self.entered.get(lid, 0) + 1
        return lid if n == 1 else '{}#{}'.format(lid, n)

    def finish(self):
        self.solver = None

    # -- names ---------------------------------------------------------
    def fresh(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return '{}!{}'.format(base, n)

    # -- path condition ------------------------------------------------
    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise PathEnd
            return
        f = getattr(f, 't', f)
        self.pc.append(f)
        self.solver.add(f)

    def fact(self, f):
        """A formula that is true of all values (an instance of an axiom of the value model)."""
        f = z3.simplify(f)
        if z3.is_true(f) or f.get_id() in self.factids:
            return
        self.keep.append(f)
        self.factids.add(f.get_id())
        self.pc.append(f)
        self.solver.add(f)

    BOUND = ('qi', 'fi', 'fx', 'ci', 'qk', 'wit')

    def enumerate(self, fn, fresh=False):
        """All outcomes of fn() as [('ok'|'exc', condition, result)], the conditions being exhaustive."""
        from . import loops
        outer = (self.prefix, self.trace, self.known, self.solver)
        heap = loops.Heap([('F', fn)] + [('G:' + k, v) for k, v in sorted(self.roots.items())])
        counter0 = {k: v for k, v in self.counter.items() if k not in self.BOUND}
        pc0 = list(self.pc)
        newfacts = []
        results = []
        work = [[]]
        self.nested += 1
        try:
            while work:
                self.prefix, self.trace, self.known = work.pop(), [], dict(outer[2])
                self.pc = pc0 + newfacts
                base = self.nbase = len(self.pc)
                self.solver.push()
                n = len(self.prefix)
                kind = r = None
                try:
                    r = fn()
                    kind = 'ok'
                except PathEnd:
                    pass
                except Exception as e:  # noqa: the code's own exception is an outcome
                    kind, r = 'exc', e
                finally:
                    self.solver.pop()
                if kind:
                    conds = [f for f in self.pc[base:] if f.get_id() not in self.factids]
                    results.append((kind, z3.And(*conds) if conds else z3.BoolVal(True), r))
                for f in self.pc[base:]:
                    if f.get_id() in self.factids:
                        newfacts.append(f)
                        self.solver.add(f)
                for i in range(n, len(self.trace)):
                    for a in self.trace[i][1]:
                        work.append([t[0] for t in self.trace[:i]] + [a])
                if len(results) > 400:
                    raise Unsupported('too many outcomes of a comprehension element')
        finally:
            self.nested -= 1
            self.prefix, self.trace, self.known, _ = outer
            self.pc = pc0 + newfacts
        for path, _, _, old, new in heap.changes():
            raise Unsupported('side effect in a comprehension element: ' + path)
        if not fresh and {k: v for k, v in self.counter.items() if k not in self.BOUND} != counter0:
            raise Unsupported('fresh value in a comprehension element')
        return results

    digits = False      # numbers are formatted digit by digit
    elem_warns = None   # a list: (index, domain, condition) of warnings issued by comprehension elements

    def on_warn(self, msg):
        if self.nested and self.elem_warns is not None:
            cs = self.pc[self.nbase:]
            self.nwarn.append(z3.And(*cs) if cs else z3.BoolVal(True))
            return
        w = self.roots.get('warnings')
        if w is not None:
            list.append(w, msg)

    def check(self, *fs):
        t = time.time()
        r = self.solver.check(*fs)
        self.s.solver_time += time.time() - t
        return r

    def _decide(self, options):
        """options: list of callables giving formulas; returns chosen index"""
        pos = len(self.trace)
        if pos < len(self.prefix):
            c = self.prefix[pos]
            self.trace.append((c, []))
            return c
        return None

    def branch(self, cond):
        cond = getattr(cond, 't', cond)
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = cond.get_id()
        if k in self.known:
            return self.known[k]
        neg = z3.simplify(z3.Not(cond))
        c = self._decide(None)
        if c is None:
            # nested solver interaction
            rt = self.check(cond)
            rf = self.check(neg) if rt != z3.unsat else z3.sat
            if rt == z3.unsat and rf == z3.unsat:
                raise PathEnd
            if rt == z3.unsat:
                c = 0
                self.trace.append((0, []))
            elif rf == z3.unsat:
                c = 1
                self.trace.append((1, []))
            else:
                c = 1
                self.trace.append((1, [0]))
        f = cond if c else neg
        self.keep.append((cond, neg))
        self.known[cond.get_id()] = bool(c)
        self.known[neg.get_id()] = not c
        self.pc.append(f)
        self.solver.add(f)
        return bool(c)

    def choose(self, n):
        """Nondeterministic choice among n alternatives (all explored)."""
        c = self._decide(None)
        if c is None:
            c = 0
            self.trace.append((0, list(range(1, n))))
        return c

    def feasible(self):
        return self.check() != z3.unsat

    # -- obligations ---------------------------------------------------
    def valid(self, f, timeout=PROVE_TIMEOUT):
        """(status, model, backend): status in 'valid','invalid','unknown'"""
        f = getattr(f, 't', f)
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        f = z3.simplify(f)
        if z3.is_true(f):
            return 'valid', None, 'simplifier'
        return solve(self.s, self.pc, f, timeout)

    def prove(self, name, f, detail=''):
        if not self.final:
            return
        f = getattr(f, 't', f)
        st, model, be = self.valid(f)
        ob = self.s.obligations.setdefault(name, [0, 0])
        self.s.backend[be] = self.s.backend.get(be, 0) + 1
        if st == 'valid':
            ob[0] += 1
            return True
        ob[1] += 1
        inputs = None
        if model is not None:
            try:
                inputs = self.concretise(model)
            except BaseException as e:  # noqa
                inputs = {'__error__': repr(e)}
        goal = str(f) if not isinstance(f, bool) else str(f)
        self.s.failures.append(Failure(
            name, 'refuted' if st == 'invalid' else 'unproved', (detail + ' goal: ' + goal)[:2000],
            inputs=inputs, solver=be, path=[str(p)[:300] for p in self.pc[-12:]]))
        if not isinstance(f, bool):
            self.assume(f)
        else:
            raise PathEnd
        return False

    def fail(self, name, detail=''):
        """An outcome the contract excludes: the path must be infeasible."""
        self.prove(name, z3.BoolVal(False), detail)
        raise PathEnd

    def cover(self, name):
        self.s.covers.setdefault(name, 0)
        if self.final and self.s.covers[name] == 0:
            if self.check() != z3.unsat:
                self.s.covers[name] += 1

    def expect_cover(self, *names):
        for n in names:
            self.s.covers.setdefault(n, 0)

    def concretise(self, model):
        from . import values
        return {k: values.concretise(model, v) for k, v in self.inputs.items()}


def solve(session, pc, goal, timeout):
    t = time.time()
    s = z3.Solver()
    s.set('timeout', timeout)
    for p in pc:
        s.add(p)
    s.add(z3.Not(goal))
    r = s.check()
    dt = time.time() - t
    session.solver_time += dt
    session.max_query = max(session.max_query, dt)
    if r == z3.unsat:
        return 'valid', None, 'z3'
    if r == z3.sat:
        m = s.model()
        return 'invalid', m, 'z3'
    # second back end
    t = time.time()
    r = cvc5_check(s.to_smt2(), timeout)
    session.solver_time += time.time() - t
    if r == 'unsat':
        return 'valid', None, 'cvc5'
    if r == 'sat':
        return 'invalid', None, 'cvc5'
    return 'unknown', None, 'z3+cvc5'


def cvc5_check(smt2, timeout):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + smt2)
        fn = f.name
    try:
        p = subprocess.run(
            ['cvc5', '--strings-exp', '--tlimit={}'.format(timeout), fn],
            capture_output=True, text=True, timeout=timeout / 1000 + 5)
        out = p.stdout.strip().split('\n')[0] if p.stdout else ''
        return out if out in ('sat', 'unsat') else 'unknown'
    except Exception:  # noqa
        return 'unknown'
    finally:
        os.unlink(fn)
