"""Runs the proof harnesses of one property; prints a JSON report (used by check.py)."""
import sys
import json
import time
import importlib
import multiprocessing


def run_one(args):
    prop, idx, budget = args
    from pv import boot  # noqa
    from pv import core
    mod = importlib.import_module('proofs.' + prop)
    h = mod.HARNESSES[idx]
    t = time.time()
    s = core.Session(h.name, h.fn, h.contracts, deadline=time.time() + budget)
    res = dict(harness=h.name, kind=h.kind, bound=h.bound, error=None)
    try:
        s.run()
    except core.Unsupported as e:
        res['error'] = 'unsupported: {}'.format(e)
    except BaseException as e:  # noqa
        import traceback
        res['error'] = 'engine: {!r} {}'.format(e, traceback.format_exc()[-1500:])
    res.update(
        obligations={k: v for k, v in s.obligations.items()},
        discharged=sum(v[0] for v in s.obligations.values()),
        generated=sum(v[0] + v[1] for v in s.obligations.values()),
        failures=[f.asdict() for f in s.failures], covers=s.covers, paths=s.paths,
        restarts=s.restarts, solver_s=round(s.solver_time, 3), max_query_s=round(s.max_query, 3),
        backends=s.backend, functions=sorted(s.functions), contracts=sorted(s.used_contracts),
        models=sorted(s.models_used), wall_s=round(time.time() - t, 2))
    return res


def count(prop):
    from pv import boot  # noqa
    mod = importlib.import_module('proofs.' + prop)
    return [h.name for h in mod.HARNESSES], getattr(mod, 'ASSUMPTIONS', [])


def main(prop, only=None, budget=240, jobs=8):
    names, assumptions = count(prop)
    work = [(prop, i, budget) for i, n in enumerate(names) if not only or only in n]
    if len(work) == 1 or jobs == 1:
        results = [run_one(w) for w in work]
    else:
        with multiprocessing.get_context('fork').Pool(jobs, maxtasksperchild=None) as p:
            results = p.map(run_one, work, chunksize=1)
    return dict(results=results, assumptions=assumptions)


if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('out', nargs='?')
    ap.add_argument('--only')
    ap.add_argument('--budget', type=float, default=240)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    rep = main(a.prop, a.only, a.budget, a.j)
    if a.out:
        json.dump(rep, open(a.out, 'w'))
    else:
        for r in rep['results']:
            bad = r['error'] or r['failures']
            if bad or a.v or r['wall_s'] > 5:
                print(('FAIL ' if bad else 'ok   ') + r['harness'], r['discharged'], '/', r['generated'],
                      'paths', r['paths'], 'restarts', r['restarts'], '%ss' % r['wall_s'], r['error'] or '')
            for f in r['failures'][:3]:
                print('    ', json.dumps(f)[:500])
        print(len(rep['results']), 'harnesses,', sum(r['discharged'] for r in rep['results']), 'of',
              sum(r['generated'] for r in rep['results']), 'obligations discharged')
