"""python run.py PROP --seed S --tier T --budget SEC --out FILE   |   --replay FILE"""
import argparse
import hashlib
import json
import os
import random
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--budget', type=float, default=30)
    ap.add_argument('--max', type=int, default=10 ** 9)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('--cases')  # cases tried first (counter-models of the verifier)
    a = ap.parse_args()
    res = dict(property=a.prop, evaluations=0, distinct_nontrivial=0, samples=[], violations=[], known={}, error=None)
    t0 = time.time()
    try:
        import contracts as C
    except Exception as e:  # the code under test does not import
        res['error'] = f'import failed: {type(e).__name__}: {e}'
        res['violations'].append(dict(case=None, message=res['error']))
        json.dump(res, open(a.out, 'w')) if a.out else print(res)
        return 1
    gen, chk = C.PROPS[a.prop]
    import torch
    torch.manual_seed(a.seed)
    if a.replay:
        case = json.load(open(a.replay)).get('case')
        if case is None:
            print('the replay file holds no input: the named obligation failed without one')
            return 0
        try:
            chk(**case)
        except C.Violation as v:
            print('REPLAYED violation:', v)
            return 1
        print('case holds')
        return 0
    rng = random.Random(f'{a.prop}-{a.seed}')
    seen = set()
    first = json.load(open(a.cases)) if a.cases else []

    def cases():
        for c in first:
            yield c, True
        for c in gen(rng, a.tier):
            yield c, False
    for case, replayed in cases():
        if time.time() - t0 > a.budget or res['evaluations'] >= a.max:
            break
        C.KNOWN.clear()
        if a.out:  # names the case if the code under test takes the process down
            with open(a.out + '.cur', 'w') as fh:
                json.dump(case, fh)
        try:
            r = chk(**case)
        except C.Violation as v:
            m = str(v)
            res['evaluations'] += 1
            res['violations'].append(dict(case=case, message=m))
            if a.out:  # kept even if the process is taken down later
                with open(a.out + '.viol', 'w') as fh:
                    json.dump(dict(res, distinct_nontrivial=len(seen) + 1), fh, default=str)
            if len(res['violations']) >= 3:
                break
            continue
        except Exception as e:  # a harness problem must never look like a violation
            if replayed:
                continue
            import traceback
            res['error'] = f'{type(e).__name__}: {e} in case {case}\n' + traceback.format_exc()[-1500:]
            break
        res['evaluations'] += 1
        for k in C.KNOWN:
            res['known'].setdefault(k, dict(case=case, count=0))['count'] += 1
        if r is not False:
            key = json.dumps(case, sort_keys=True)
            if key not in seen:
                seen.add(key)
                if len(res['samples']) < 4 and rng.random() < .2 or not res['samples']:
                    res['samples'].append(case)
    res['distinct_nontrivial'] = len(seen)
    res['wall_s'] = time.time() - t0
    if a.out:
        json.dump(res, open(a.out, 'w'), default=str)
    else:
        print(json.dumps(res, indent=1, default=str)[:3000])
    return 1 if res['violations'] else 0


if __name__ == '__main__':
    sys.exit(main())
