"""Writes MANIFEST.json.  PROVED lists the properties whose obligations all discharge on the unchanged tree."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROVED = {}
exec(open(os.path.join(HERE, 'tools', 'levels.py')).read())
checks = []
na = []
NA = {
    'C28': 'Gradients are produced by the autograd engine of torch (C++), outside the code in /repo: no contract on the '
           'Python functions here can decide what the engine accumulates, and assuming it correct makes the statement empty.',
    'C29': 'The verifier reads tensors as exact real numbers; rounding error of the torch kernels (summation order, SIMD, '
           'fused operations) is outside any contract within reach, and no installed deductive back end covers it.',
}
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p in NA:
        na.append(dict(property=p, reason=NA[p]))
        continue
    lv = PROVED.get(p)
    if lv:
        level, note = 'proof', lv
        tech = 'contract-based deductive verification (own VC generator over the real Python source, z3), with replay on the real code'
    else:
        level, note = 'exploration', BOUNDED.get(p, 'Bounded: the property contract is evaluated at run time on the real code for seeded random cases; not a proof.')
        tech = 'contracts on the real code, evaluated as bounded run-time stand-in (not proved)'
        if p in PARTIAL:
            tech = 'contract-based deductive verification of part of the functions (z3); bounded run-time contracts for the rest'
            note = PARTIAL[p]
    checks.append(dict(property=p, quick_cmd=f'/opt/venv/bin/python check.py {p}',
                       thorough_cmd=f'/opt/venv/bin/python check.py {p} --thorough',
                       evidence_file=f'evidence/{p}.json', technique=tech, level=level, level_note=note))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import torch, pywt"', checks=checks, not_applicable=na,
         notes='No hooks in /repo: contracts are a sidecar applied to the source text read from /repo on every run.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
