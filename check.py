#!/opt/venv/bin/python
"""check.py PROP   --  decide one property on /repo's current tree.

1. ptv/prove.py PROP: the deductive verifier generates every obligation of the
   property's contracts from the current source and discharges them.
2. rt/run.py PROP: the same contracts evaluated on the real code.  It replays
   the verifier's counter-models, and is the labelled bounded stand-in for
   whatever the verifier could not reach.
Exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: undecided
because the machinery itself failed.
"""
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
KNOWN_FILE = os.path.join(HERE, 'known-findings.json')


def start(cmd, log):
    env = dict(os.environ, OMP_NUM_THREADS='2', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    return subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env, cwd=HERE)


def finish(p, timeout):
    try:
        p.wait(timeout=max(1, timeout))
        return p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return None


def load(path):
    try:
        return json.load(open(path))
    except Exception:
        return None


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    manifest = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    entry = next((c for c in manifest['checks'] if c['property'] == prop), {})
    level = entry.get('level', 'exploration')
    total = 780 if tier == 'quick' else 3000
    rt_budget = 25 if tier == 'quick' else 400
    rdir = os.path.join(HERE, 'replay')
    edir = os.path.join(HERE, 'evidence')
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(edir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='ptv_')
    try:
        return run(prop, seed, tier, t0, level, total, rt_budget, rdir, edir, tmp)
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)


def rt(prop, seed, tier, budget, tmp, tag, cases=None):
    out = os.path.join(tmp, f'rt{tag}.json')
    log = open(os.path.join(tmp, f'rt{tag}.log'), 'w')
    cmd = [PY, 'rt/run.py', prop, '--seed', str(seed), '--tier', tier, '--budget', str(budget), '--out', out]
    if cases:
        cf = os.path.join(tmp, f'cases{tag}.json')
        json.dump(cases, open(cf, 'w'))
        cmd += ['--cases', cf]
    p = start(cmd, log)
    return p, out, log


CRASH = {-4: 'SIGILL', -6: 'SIGABRT', -7: 'SIGBUS', -8: 'SIGFPE', -11: 'SIGSEGV', None: 'no return within 60 s'}


def crashed(rc, prop, seed, out, tmp):
    """The code under test took the run-time process down (or never returned): confirm on the recorded case alone."""
    case = load(out + '.cur')
    part = load(out + '.viol')
    if part is not None:  # a violation was found before
        return part
    if rc not in CRASH or case is None:
        return None
    p, o, log = rt(prop, seed, 'quick', 50, tmp, 9, [case, case])
    again = finish(p, 110)
    log.close()
    if again != rc or load(o) is not None:
        if rc is None:
            return None
        # memory corrupted by an earlier call may surface later: the whole run once more
        p, o, log = rt(prop, seed, 'quick', 50, tmp, 8)
        again = finish(p, 150)
        log.close()
        part = load(o) or load(o + '.viol')
        if part is not None:
            return part
        if again not in CRASH or again is None:
            return None
        case = load(o + '.cur') or case
    return dict(evaluations=1, distinct_nontrivial=1, samples=[case], known={},
                violations=[dict(case=case, message=f'the call does not return normally: {CRASH[rc]}')])


def run(prop, seed, tier, t0, level, total, rt_budget, rdir, edir, tmp):
    pout = os.path.join(tmp, 'prove.json')
    plog = open(os.path.join(tmp, 'prove.log'), 'w')
    pp = None
    if os.path.exists(os.path.join(HERE, 'ptv', 'prove.py')):
        pp = start([PY, 'ptv/prove.py', prop, '--tier', tier, '--out', pout,
                    '--deadline', str(total * 0.6)], plog)
    rp, rout, rlog = rt(prop, seed, tier, rt_budget, tmp, 1)
    rrc = finish(rp, rt_budget + 150)
    rlog.close()
    rres = load(rout) or crashed(rrc, prop, seed, rout, tmp)
    pres = None
    if pp is not None:
        finish(pp, total * 0.65 - (time.time() - t0))
        pres = load(pout)
    plog.close()
    rt_extra = None
    obs = (pres or {}).get('obligations', [])
    refuted = [o for o in obs if o['status'] == 'refuted']
    undis = [o for o in obs if o['status'] not in ('discharged', 'refuted')]
    viol = (rres or {}).get('violations', [])
    if (refuted or undis) and not viol:
        # replay the counter-models on the real code, then search for a concrete failing input
        left = total - (time.time() - t0)
        b = min(90 if refuted else 45, max(5, left - 60))
        rp, ro, rl = rt(prop, seed + 7919, 'thorough', b, tmp, 2, (pres or {}).get('replay'))
        c2 = finish(rp, b + 60)
        rl.close()
        rt_extra = load(ro) or crashed(c2, prop, seed, ro, tmp)
        viol = (rt_extra or {}).get('violations', [])
    known = load(KNOWN_FILE) or {'known': []}
    listed = {k['key']: k for k in known['known'] if k['property'] == prop}
    seen_known = dict((rres or {}).get('known', {}))
    for k, v in (rt_extra or {}).get('known', {}).items():
        seen_known.setdefault(k, v)
    for k, v in seen_known.items():
        if k not in listed:
            viol = viol + [dict(case=v['case'], message=f'unlisted finding {k}')]
    for k, v in listed.items():
        if k in seen_known:
            print(f"KNOWN-FINDING: property={prop} {v['what']}")
    rc = 0
    rt_dead = rres is None or bool(rres.get('error'))
    if viol:
        v = viol[0]
        path = os.path.join(rdir, f'{prop}.json')
        json.dump(dict(property=prop, case=v['case'], message=v['message'],
                       failed_obligations=refuted[:5] + undis[:5],
                       how=f'{PY} {HERE}/rt/run.py {prop} --replay {path}'), open(path, 'w'), indent=1, default=str)
        print(v['message'][:600])
        for o in refuted[:3]:
            print('failed obligation:', o['name'], '--', str(o.get('detail', ''))[:300])
        print(f'VIOLATION property={prop} replay={path}')
        rc = 1
    elif refuted:
        path = os.path.join(rdir, f'{prop}.json')
        json.dump(dict(property=prop, case=None, failed_obligations=refuted,
                       verifier_output=[o.get('detail') for o in refuted]), open(path, 'w'), indent=1, default=str)
        for o in refuted[:3]:
            print('failed obligation:', o['name'], '--', str(o.get('detail', ''))[:600])
        print(f'VIOLATION property={prop} replay={path} no-failing-input-found')
        rc = 1
    elif rt_dead and (pres is None or undis or pres.get('error')):
        print('undecided:', (rres or {}).get('error') or 'the run-time contracts did not finish')
        rc = 2
    n_dis = sum(o['status'] == 'discharged' for o in obs)
    all_ok = bool(obs) and n_dis == len(obs) and not (pres or {}).get('error')
    ev = (rres or {}).get('evaluations', 0) + (rt_extra or {}).get('evaluations', 0)
    dn = (rres or {}).get('distinct_nontrivial', 0) + (rt_extra or {}).get('distinct_nontrivial', 0)
    cov = dict(
        evaluations=ev, distinct_nontrivial=dn,
        rule='bounded run-time evaluation of the property contract on the real code: seeded random cases over sizes, '
             'wavelets, modes, levels, axes; a case counts when the contract was evaluated on it (not rejected as out '
             'of domain) and is distinct',
        samples=(rres or {}).get('samples', []) or [None],
    )
    if pres is not None:
        byb = {}
        for o in obs:
            if o['status'] == 'discharged':
                byb[o.get('backend', '?')] = byb.get(o.get('backend', '?'), 0) + 1
        cov.update(
            obligations=len(obs), discharged=n_dis, discharged_by=byb,
            checker_cmd=f'{PY} ptv/prove.py {prop}',
            trusted_base=pres.get('trusted', []),
            functions_under_contract=pres.get('functions', []),
            functions_bounded_only=pres.get('bounded_only', []),
            solver=pres.get('solver', {}),
            configurations=pres.get('configs', []),
            vacuity=pres.get('vacuity', {}),
            undischarged=[dict(name=o['name'], status=o['status'], detail=str(o.get('detail', ''))[:300]) for o in obs
                          if o['status'] != 'discharged'][:40],
            verifier_error=pres.get('error'),
            obligation_samples=[o['name'] for o in obs[:6]],
        )
    elif pp is not None:
        try:
            cov['verifier_error'] = open(os.path.join(tmp, 'prove.log')).read()[-1500:]
        except OSError:
            pass
    lev = level
    if level == 'proof' and not all_ok:
        lev = 'exploration'
    evd = dict(property=prop, tier=tier, seed=seed, level=lev, coverage=cov,
               assumptions=(pres or {}).get('assumptions', []) + [
                   'run-time contracts are bounded (never counted as proved)'],
               wall_s=round(time.time() - t0, 2), violations=len(viol) if viol else len(refuted))
    json.dump(evd, open(os.path.join(edir, f'{prop}.json'), 'w'), indent=1, default=str)
    if rc == 0:
        print(f'{prop}: {n_dis}/{len(obs)} obligations discharged; {ev} run-time contract evaluations, no violation')
        if pres is not None and not all_ok:
            print('note: not every obligation was discharged; the bounded contracts decide the rest')
            print('  ', str((pres or {}).get('error'))[:300])
            for o in undis[:5]:
                print('  ', o['name'], o['status'], str(o.get('detail', ''))[:200])
    return rc


if __name__ == '__main__':
    sys.exit(main())
