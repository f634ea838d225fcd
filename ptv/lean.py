"""Composition lemmas: each named theorem of /verif/lean is one obligation, checked by the Lean kernel on every run."""
import os
import re
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALLOWED = {'propext', 'Classical.choice', 'Quot.sound'}


class Run:
    """Lean processes, one per file; lemmas is a list of (file, theorem, what it gives)."""

    def __init__(self, lemmas):
        self.dir = tempfile.mkdtemp(prefix='ptv_lean_')
        self.lemmas = lemmas
        self.p = {}
        self.t0 = time.time()
        for f in sorted({l[0] for l in lemmas}):
            src = open(os.path.join(HERE, 'lean', f)).read()
            src += '\n' + '\n'.join(f'#print axioms PTV.{l[1]}' for l in lemmas if l[0] == f) + '\n'
            path = os.path.join(self.dir, f)
            open(path, 'w').write(src)
            try:
                log = open(path + '.log', 'w')
                self.p[f] = subprocess.Popen(['lean', path], stdout=log, stderr=subprocess.STDOUT, cwd=self.dir)
            except OSError:
                self.p[f] = None

    def obligations(self, timeout):
        out = []
        end = time.time() + timeout
        for f, p in self.p.items():
            txt, rc = '', None
            if p is not None:
                try:
                    rc = p.wait(max(1, end - time.time()))
                except subprocess.TimeoutExpired:
                    p.kill()
                txt = open(os.path.join(self.dir, f) + '.log').read()
            for _, th, what in [l for l in self.lemmas if l[0] == f]:
                m = re.search(rf"'PTV\.{re.escape(th)}' (does not depend on any axioms|depends on axioms: \[([^\]]*)\])", txt)
                ok = rc == 0 and m is not None and set(re.split(r'[,\s]+', (m.group(2) or '').strip())) - {''} <= ALLOWED
                out.append(dict(name=f'lemma {f}:{th} ({what})', status='discharged' if ok else 'unknown', backend='lean',
                                time=round(time.time() - self.t0, 2), detail='' if ok else txt[-400:]))
        shutil.rmtree(self.dir, ignore_errors=True)
        return out
