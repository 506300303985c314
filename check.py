#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough]: decides one property.

1. Deductive step: the verification conditions generated from /repo's current source (pv/, proofs/ID.py)
   are discharged function by function.
2. Bounded step: the contracts that stay outside the verifier's reach, and the contracts assumed in step 1,
   are evaluated on the real code (bounded/ID.py).  It also looks for a concrete failing input when an
   obligation of step 1 fails.

Exit 0: all obligations discharged, no contract violated.  Exit 1: VIOLATION line.
"""
import argparse
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def env():
    repo = os.environ.get('PV_REPO', '/repo')
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', LANG='C.UTF-8', TZ='UTC',
             PYTHONPATH=HERE + os.pathsep + os.path.join(repo, 'src'), PYTHONWARNINGS='ignore')
    return e


def start(args, log):
    return subprocess.Popen([PY] + args, cwd=HERE, env=env(), stdout=log, stderr=subprocess.STDOUT,
                            start_new_session=True)


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def wait(p, seconds):
    try:
        p.wait(max(seconds, 1))
        return True
    except subprocess.TimeoutExpired:
        stop(p)
        return False


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except Exception:  # noqa
        return None


def tail(path, n=3000):
    try:
        with open(path, errors='replace') as f:
            return f.read()[-n:]
    except OSError:
        return ''


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    limits = dict(proof=560, bounded=60, search=90) if tier == 'quick' else \
        dict(proof=1500, bounded=900, search=300)
    work = tempfile.mkdtemp(prefix='pvcheck-')
    try:
        return decide(prop, tier, seed, t0, limits, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, tier, seed, t0, limits, work):
    has_proof = os.path.exists(os.path.join(HERE, 'proofs', prop + '.py'))
    has_bounded = os.path.exists(os.path.join(HERE, 'bounded', prop + '.py'))
    pj, bj = os.path.join(work, 'p.json'), os.path.join(work, 'b.json')
    pl, bl = os.path.join(work, 'p.log'), os.path.join(work, 'b.log')
    procs = {}
    if has_bounded:
        procs['b'] = start(['-m', 'bounded.run', prop, tier, str(seed), str(limits['bounded']), bj], open(bl, 'w'))
    if has_proof:
        procs['p'] = start(['-m', 'pv.runproofs', prop, pj, '--budget', str(limits['proof'] * 0.8)], open(pl, 'w'))
    done = {}
    if 'b' in procs:
        done['b'] = wait(procs['b'], limits['bounded'] * 2 + 60)
    if 'p' in procs:
        done['p'] = wait(procs['p'], limits['proof'] - (time.time() - t0))
    proof, bounded = load(pj) if has_proof else None, load(bj) if has_bounded else None

    known = [k for k in load(os.path.join(HERE, 'known_findings.json')) or []
             if k.get('property') == prop and k.get('status') == 'known']
    problems = []      # (summary, replay dict, has input)
    if has_bounded:
        if bounded is None:
            problems.append(('the bounded contract checks did not finish', dict(
                kind='bounded-crash', output=tail(bl)), False))
        else:
            for v in bounded['violations']:
                if any(k['check'] == v['check'] and k['input'] == v['input'] for k in known):
                    continue
                problems.append((v['message'], dict(kind='failing-input', **v), True))
    failed = []
    if has_proof:
        if proof is None:
            failed.append(dict(harness='(all)', error='the verifier did not finish: ' + tail(pl)))
        else:
            for r in proof['results']:
                if r['error']:
                    failed.append(dict(harness=r['harness'], error=r['error']))
                for f in r['failures']:
                    failed.append(dict(harness=r['harness'], **f))
    if failed and not any(p[2] for p in problems) and has_bounded:
        # look harder for an input that shows the failed obligation on the real code
        end = time.time() + limits['search']
        k = 0
        while time.time() < end and k < 4:
            k += 1
            sj = os.path.join(work, 's%d.json' % k)
            p = start(['-m', 'bounded.run', prop, 'thorough', str(seed + 1000 * k), str(limits['search'] / 2), sj],
                      open(os.path.join(work, 's.log'), 'w'))
            wait(p, end - time.time() + 30)
            s = load(sj)
            if s and s['violations']:
                v = s['violations'][0]
                problems.append((v['message'], dict(kind='failing-input', **v), True))
                break
    if failed and not any(p[2] for p in problems):
        problems.append(('{}: {}'.format(failed[0]['harness'], failed[0].get('obligation') or failed[0].get('error')),
                         dict(kind='failed-obligations'), False))

    # ---------------------------------------------------------------- evidence
    cov = {}
    assumptions = []
    if has_proof:
        rs = (proof or {}).get('results', [])
        assumptions += (proof or {}).get('assumptions', [])
        cov.update(
            obligations=sum(r['generated'] for r in rs) + sum(1 for r in rs if r['error']),
            discharged=sum(r['discharged'] for r in rs),
            checker_cmd='/opt/venv/bin/python -m pv.runproofs ' + prop,
            trusted_base=['CPython 3.12 executing the instrumented bodies', 'z3 (python bindings) and cvc5',
                          'pv/ (instrumentation, value model, library models)'] + sorted(
                {'model of ' + m for r in rs for m in r['models']}),
            obligation_names=sorted({'{}: {}'.format(r['harness'], n) for r in rs for n in r['obligations']
                                     if not n.startswith('loop ')})[:400],
            loop_invariant_obligations=sum(v[0] for r in rs for n, v in r['obligations'].items()
                                           if n.startswith('loop ')),
            back_ends={b: sum(r['backends'].get(b, 0) for r in rs) for b in
                       sorted({b for r in rs for b in r['backends']})},
            solver_s=round(sum(r['solver_s'] for r in rs), 2),
            max_query_s=max([r['max_query_s'] for r in rs] or [0]),
            paths=sum(r['paths'] for r in rs),
            functions_executed_symbolically=sorted({f for r in rs for f in r['functions']}),
            contracts_assumed_at_call_sites=sorted({f for r in rs for f in r['contracts']}),
            harnesses=[dict(name=r['harness'], kind=r['kind'], bound=r['bound'], obligations=r['generated'],
                            discharged=r['discharged'], paths=r['paths'], error=r['error']) for r in rs],
            covers_unreached=[r['harness'] + ': ' + c for r in rs for c, n in r['covers'].items()
                              if not n and not c.startswith('loop ')],
        )
        from_bound = [r['harness'] for r in rs if r['kind'] != 'unbounded']
        if from_bound:
            cov['bounded_shape_harnesses'] = from_bound
    if has_bounded and bounded:
        bs = dict(label='bounded: generated and enumerated inputs, never counted as proved',
                  evaluations=bounded['evaluations'], distinct_nontrivial=bounded['distinct'],
                  checks=bounded['checks'], samples=bounded['samples'], wall_s=bounded['wall_s'])
        cov['bounded_standin'] = bs
        if not has_proof:
            cov.update(evaluations=bounded['evaluations'], distinct_nontrivial=bounded['distinct'],
                       rule='inputs that satisfy the precondition of the contract, distinct by value',
                       samples=bounded['samples'])
    level = 'proof' if has_proof else 'exploration'
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=assumptions + ['termination is not proved'], wall_s=round(time.time() - t0, 2),
              violations=len(problems))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    evp = os.environ.get('PV_EVIDENCE') or os.path.join(HERE, 'evidence', prop + '.json')
    with open(evp, 'w') as f:
        json.dump(ev, f, indent=1)

    for k in known:
        print('KNOWN-FINDING: property={} {}'.format(prop, k['what']))
    if has_proof:
        print('{}: {}/{} obligations discharged in {} harnesses, {} paths'.format(
            prop, cov['discharged'], cov['obligations'], len(cov['harnesses']), cov['paths']))
    if has_bounded and bounded:
        print('{}: bounded stand-ins: {} evaluations'.format(prop, bounded['evaluations']))
    if not problems:
        print('{}: holds ({:.1f} s)'.format(prop, time.time() - t0))
        return 0
    problems.sort(key=lambda p: not p[2])
    msg, rep, has_input = problems[0]
    replay = os.path.join(HERE, 'evidence', 'replay-{}.json'.format(prop))
    rep = dict(rep, property=prop, message=msg)
    rep['failed_obligations'] = failed[:20]
    if has_input:
        rep['replay_cmd'] = 'cd /verif && PYTHONPATH=/verif:/repo/src {} -m bounded.run replay {}'.format(PY, replay)
    with open(replay, 'w') as f:
        json.dump(rep, f, indent=1, default=repr)
    print(msg[:1500])
    for f in failed[:8]:
        print('  failed obligation: {} / {} {}'.format(
            f['harness'], f.get('obligation', ''), (f.get('detail') or f.get('error') or '')[:300]))
    print('VIOLATION property={} replay={}{}'.format(
        prop, replay, '' if has_input else ' no-failing-input-found'))
    return 1


if __name__ == '__main__':
    sys.exit(main())
