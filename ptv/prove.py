"""prove.py PROP --tier T --out FILE --deadline SEC: generate and discharge the obligations of one property."""
import argparse
import json
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import ir  # noqa: E402
import core  # noqa: E402
import load  # noqa: E402
import vc  # noqa: E402
import verify  # noqa: E402

WORLD = None
TASKS = []


def init(prop, tier):
    global WORLD, TASKS
    import plan
    TASKS = plan.PLAN[prop](tier)
    WORLD = load.World()
    vc.CONTRACTS.update(plan.symm.CONTRACTS)


def one(args):
    k, deadline = args
    left = deadline - time.time()
    if left < 1:
        return dict(k=k, skipped=True)
    vc.REACHED.clear()
    verify.reset()
    s0, q0 = core.STATS.solver_s, core.STATS.queries
    name = f'task {k}'
    try:
        sp = TASKS[k](WORLD)
        name, body = sp[0], sp[1]
        r = verify.run(name, body, deadline=min(left, 240), store={})
    except BaseException as e:  # noqa: BLE001
        import traceback
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        return dict(k=k, name=name, obs=[dict(name=f'{name}: contract set up', status='unsupported', backend='-', time=0,
                                              detail=f'{type(e).__name__}: {e} {traceback.format_exc()[-600:]}')],
                    reached=dict(vc.REACHED), solver=core.STATS.solver_s - s0, queries=core.STATS.queries - q0, wall=0, paths=0, returns=0, invs={}, shown=0)
    replay = []
    if len(sp) > 2 and sp[2] is not None:
        for o in r.obs:
            if o['status'] != 'discharged' and o.get('model'):
                try:
                    c = sp[2](o['model'])
                    if c is not None and c not in replay:
                        replay.append(c)
                except Exception:  # noqa: BLE001
                    pass
    return dict(k=k, name=name, obs=r.obs, reached=dict(vc.REACHED), solver=core.STATS.solver_s - s0, queries=core.STATS.queries - q0,
                wall=r.wall, paths=r.paths, returns=r.returns, shown=r.reached, invs={str(a): b for a, b in r.invs.items()}, tb=getattr(r, 'tb', None),
                replay=replay[:6])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--out')
    ap.add_argument('--deadline', type=float, default=400)
    ap.add_argument('--jobs', type=int, default=6)
    ap.add_argument('--only')
    a = ap.parse_args()
    t0 = time.time()
    out = dict(obligations=[], functions=[], bounded_only=[], trusted=[], assumptions=[], solver={}, configs=[], vacuity={}, error=None, replay=[])
    try:
        import plan
        if a.prop not in plan.PLAN:
            out['error'] = 'no contract specification for this property'
            finish(a, out)
            return
        init(a.prop, a.tier)
        ks = list(range(len(TASKS)))
        if a.only:
            ks = [int(x) for x in a.only.split(',')]
        results = []
        deadline = t0 + a.deadline
        lemmas = plan.LEMMAS.get(a.prop)
        if lemmas:
            import lean
            lrun = lean.Run(lemmas)
        if a.jobs == 1:
            results = [one((k, deadline)) for k in ks]
        else:
            with mp.get_context('fork').Pool(a.jobs) as pool:
                results = list(pool.imap_unordered(one, [(k, deadline) for k in ks], chunksize=1))
        results.sort(key=lambda r: r['k'])
        reached = {}
        ret = 0
        for r in results:
            if r.get('skipped'):
                out['obligations'].append(dict(name=f'task {r["k"]} analysed', status='unknown', backend='-', time=0, detail='time budget exhausted'))
                continue
            out['obligations'] += r['obs']
            out['configs'].append(r['name'])
            out.setdefault('config_seconds', {})[r['name']] = round(r['wall'], 2)
            out['replay'] += r.get('replay', [])
            for q, n in r['reached'].items():
                reached[q] = reached.get(q, 0) + n
            ret += r['shown']
            if r.get('tb'):
                out.setdefault('tracebacks', []).append(r['tb'])
        out['functions'] = sorted(reached)
        out['replay'] = [c for i, c in enumerate(out['replay']) if c not in out['replay'][:i]][:40]
        out['solver'] = dict(z3_queries=sum(r.get('queries', 0) for r in results), z3_seconds=round(sum(r.get('solver', 0) for r in results), 2),
                             wall_s=round(time.time() - t0, 2), paths=sum(r.get('paths', 0) for r in results))
        out['vacuity'] = dict(configurations=len(results), returning_paths_shown_satisfiable=ret,
                              rule='a configuration without a returning path whose path condition is satisfiable fails')
        info = plan.INFO.get(a.prop, {})
        out['trusted'] = plan.TRUSTED + info.get('trusted', [])
        out['assumptions'] = plan.ASSUME + info.get('assume', [])
        out['bounded_only'] = info.get('bounded', [])
        if lemmas:
            out['obligations'] += lrun.obligations(max(60, deadline - time.time()))
    except BaseException as e:  # noqa: BLE001
        import traceback
        out['error'] = f'{type(e).__name__}: {e}'
        out.setdefault('tracebacks', []).append(traceback.format_exc()[-2000:])
    finish(a, out)


def finish(a, out):
    n = len(out['obligations'])
    d = sum(o['status'] == 'discharged' for o in out['obligations'])
    if a.out:
        json.dump(out, open(a.out, 'w'), default=str)
    print(f'{a.prop}: {d}/{n} obligations discharged', out['solver'], out['error'] or '')
    for t in out.get('tracebacks', [])[:2]:
        print(t)
    for o in [o for o in out['obligations'] if o['status'] != 'discharged'][:20]:
        print('  ', o['status'], o['name'], str(o.get('detail', ''))[:500])


if __name__ == '__main__':
    main()
