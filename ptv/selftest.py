"""Differential test of the trusted library contracts (fakes.py, tensor.py).

Every case runs twice on the same small concrete input: once under the
verifier's library contracts (exact symbolic entries, evaluated afterwards)
and once under the real torch.  The first part compares single library
operations, the second part whole functions of /repo.  A difference means the
verifier's torch is not torch; exit status 1.
"""
import itertools
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np  # noqa: E402
import torch  # noqa: E402
import core  # noqa: E402
import fakes  # noqa: E402
import ir  # noqa: E402
import load  # noqa: E402
import tensor as T  # noqa: E402
import verify  # noqa: E402
from ir import K, V  # noqa: E402

ENV = {}


def entry(e):
    tot = 0.0
    for c, bvs, g, ats in e:
        tot += mono(float(c), list(bvs), g, ats)
    return tot


def bounds(g, b):
    """(width, low, high) of a bound variable from the guard's unary linear conjuncts"""
    lo, hi = -40, 80
    for x in g[1] if g[0] == 'and' else (g,):
        if x[0] in ('ge0', 'eq0'):
            t = dict(x[1].t)
            c0 = t.pop((), 0)
            if len(t) == 1 and len(next(iter(t))) == 1 and ir.fv(x[1]) == {b} and ir.P({next(iter(t)): 1}) == V(b):
                k = next(iter(t.values()))
                if x[0] == 'eq0':
                    if c0 % k:
                        return (0, 0, -1)
                    lo, hi = max(lo, -c0 // k), min(hi, -c0 // k)
                elif k > 0:
                    lo = max(lo, -(c0 // k))
                else:
                    hi = min(hi, c0 // -k)
    return (hi - lo, lo, hi)


def look(n):
    if n not in ENV and ':' in n:                   # values of a filter rounded to a precision
        dt, base = n.split(':', 1)
        return np.asarray(look(base)).astype(dt).astype(float)
    return ENV[n]


def mono(c, bvs, g, ats):
    if g == ir.FALSE:
        return 0.0
    if bvs:
        r, b = min((bounds(g, b), b) for b in bvs) if len(bvs) > 1 else (bounds(g, bvs[0]), bvs[0])
        rest = [x for x in bvs if x != b]
        t = 0.0
        for v in range(r[1], r[2] + 1):
            s = {b: K(v)}
            g2 = ir.subst(g, s)
            if g2 != ir.FALSE:
                t += mono(c, rest, g2, tuple((n, tuple(ir.subst(x, s) for x in ix)) for n, ix in ats))
        return t
    if g != ir.TRUE:
        raise AssertionError(f'guard {g} is not decided by constants')
    for n, ix in ats:
        if n == T_INT:
            c *= ix[0].const()
            continue
        i = tuple(x.const() for x in ix)
        assert None not in i, (n, ix)
        a = look(n)
        assert all(0 <= q < m for q, m in zip(i, a.shape)), (n, i, a.shape)
        c *= float(a[i])
    return c


T_INT = T.e_intval(V('probe'))[0][3][0][0] if T.e_intval(V('probe'))[0][3] else '?'


def value(x):
    """symbolic result -> numpy"""
    if isinstance(x, T.SymTensor):
        sh = [int(s) for s in x.shape]
        out = np.zeros(sh)
        for ix in np.ndindex(*sh):
            out[ix] = entry(x.at([K(i) for i in ix]))
        return out, str(x.dtype)
    if isinstance(x, dict):
        return {k: value(v) for k, v in x.items()}
    if isinstance(x, (core.TList, core.STuple, list, tuple)):
        return [value(v) for v in fakes.seq(x)]
    if isinstance(x, (int, float)):
        return x
    if hasattr(x, 'items'):
        return {k: value(v) for k, v in x.items()}
    raise AssertionError(type(x))


def real(x):
    if isinstance(x, torch.Tensor):
        return x.detach().to(torch.float64).numpy() if not x.dtype.is_complex else x.numpy(), str(x.dtype)
    if isinstance(x, dict):
        return {k: real(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [real(v) for v in x]
    return x


def same(a, b):
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple):
        return a[1] == b[1] and a[0].shape == b[0].shape and np.allclose(a[0], b[0], atol=1e-5 if a[1] != 'torch.float64' else 1e-9)
    return a == b


class Bank:
    """One filter bank for both worlds (integer taps: exact in both)."""

    def __init__(self, h, rng):
        self.h = h
        self.f = {n: np.array([rng.randint(-3, 3) for _ in range(2 * h)], float) for n in ('dec_lo', 'dec_hi', 'rec_lo', 'rec_hi')}

    def sym(self):
        ENV.update(self.f)
        return fakes.SymWavelet('W', K(2 * self.h))

    def real(self):
        b = self

        class W:
            name = 'bank'
            dec_lo, dec_hi, rec_lo, rec_hi = (b.f[n].tolist() for n in ('dec_lo', 'dec_hi', 'rec_lo', 'rec_hi'))
            filter_bank = (dec_lo, dec_hi, rec_lo, rec_hi)
            dec_len = rec_len = 2 * b.h

            def __len__(self):
                return 2 * b.h
        return W()


class Side:
    """tensors and entry points of one world"""

    def __init__(self, sym, W):
        self.sym, self.W = sym, W

    def t(self, name, arr, dtype='float64'):
        if self.sym:
            ENV[name] = arr
            sh = arr.shape
            keep = [n != 1 for n in sh]

            def el(flat):
                it = iter(flat)
                return T.e_atom(name, [next(it) if k else ir.ZERO for k in keep])
            return T.SymTensor([(K(n),) for n in sh], el, T.DT[dtype])
        return torch.tensor(arr, dtype=getattr(torch, dtype))

    @property
    def torch(self):
        return self.W.fake['torch'] if self.sym else torch

    @property
    def F(self):
        return self.W.fake['torch.nn.functional'] if self.sym else torch.nn.functional

    def mod(self, name):
        if self.sym:
            return self.W.load(name)
        import importlib
        return importlib.import_module('ptwt.' + name)


def outcome(f, side):
    try:
        r = f(side)
    except core.Unsupported:
        raise
    except (ValueError, RuntimeError, IndexError, TypeError, KeyError, AssertionError) as e:
        if isinstance(e, AssertionError):
            raise
        return 'raises', type(e).__name__
    return 'returns', value(r) if side.sym else real(r)


def ops(rng):
    """single library operations"""
    def A(*sh):
        return np.array([rng.randint(-9, 9) for _ in range(int(np.prod(sh)))], float).reshape(sh)
    R = rng.randint
    for mode in ('constant', 'reflect', 'replicate', 'circular'):
        for nd in (1, 2):
            a = A(2, 1, *[R(1, 5) for _ in range(nd)])
            p = [R(0, 6) for _ in range(2 * nd)]
            yield f'pad {mode} {a.shape} {p}', lambda s, a=a, p=p, mode=mode: s.F.pad(s.t('x', a), p, mode=mode)
    for k in (1, 2, 3):
        g = R(1, 2)
        ci, co = g * R(1, 2), g * R(1, 2)
        a = A(R(1, 2), ci, *[R(4, 6) if k < 3 else R(3, 4) for _ in range(k)])
        w = A(co, ci // g, *[R(1, 3) if k < 3 else R(1, 2) for _ in range(k)])
        st, di = R(1, 3), R(1, 2)
        if all(n >= di * (m - 1) + 1 for n, m in zip(a.shape[2:], w.shape[2:])):
            yield f'conv{k}d {a.shape} {w.shape} s{st} d{di} g{g}', lambda s, a=a, w=w, k=k, st=st, di=di, g=g: getattr(s.F, f'conv{k}d')(s.t('x', a), s.t('w', w), stride=st, dilation=di, groups=g)
        w = A(ci, co // g, *[R(1, 3) if k < 3 else R(1, 2) for _ in range(k)])
        yield f'conv_transpose{k}d {a.shape} {w.shape} s{st} g{g}', lambda s, a=a, w=w, k=k, st=st, g=g: getattr(s.F, f'conv_transpose{k}d')(s.t('x', a), s.t('w', w), stride=st, groups=g)
    sh = [R(1, 4) for _ in range(R(1, 4))]
    a = A(*sh)
    n = len(sh)
    perm = rng.sample(range(n), n)
    d = R(-n, n - 1)
    yield f'permute {sh} {perm}', lambda s: s.torch.permute(s.t('x', a), perm)
    yield f'flip {sh} {d}', lambda s: s.t('x', a).flip(d)
    yield f'flip default {sh}', lambda s: s.torch.flip(s.t('x', a), [d])
    yield f'unsqueeze {sh} {d}', lambda s: s.t('x', a).unsqueeze(d)
    yield f'squeeze {sh} {d}', lambda s: s.t('x', a).squeeze(d)
    yield f'squeeze all {sh}', lambda s: s.t('x', a).squeeze()
    yield f'sum {sh} {d}', lambda s: s.t('x', a).sum(d)
    yield f'transpose {sh} {d}', lambda s: s.t('x', a).transpose(0, d)
    fl = [[-1], list(sh[:1]) + [-1], [-1] + list(sh[-1:]), list(reversed(sh)), [2, -1], [-1, 3]]
    for f in fl:
        if int(np.prod([v for v in f if v > 0])) and a.size % int(np.prod([v for v in f if v > 0] or [1])) == 0:
            yield f'reshape {sh} {f}', lambda s, f=f: s.t('x', a).reshape(f)
    for sl in (slice(None, None), slice(1, None), slice(None, -1), slice(R(-5, 5), R(-5, 5)), slice(None, None, 2), slice(R(0, 3), None, 2), R(-n, n), slice(0, 0)):
        yield f'getitem {sh} {sl}', lambda s, sl=sl: s.t('x', a)[sl]
        yield f'getitem ... {sh} {sl}', lambda s, sl=sl: s.t('x', a)[..., sl]
    if n >= 2:
        yield f'getitem mixed {sh}', lambda s: s.t('x', a)[:, None, 0]
        yield f'select {sh}', lambda s: s.torch.select(s.t('x', a), 1, -1)
    b = A(*sh)
    yield f'stack {sh} {d}', lambda s: s.torch.stack([s.t('x', a), s.t('y', b)], d)
    yield f'cat {sh} {d}', lambda s: s.torch.cat([s.t('x', a), s.t('y', b), s.t('x', a)], d)
    yield f'stack dims {sh}', lambda s: s.torch.stack([s.t('x', a), s.t('y', A(*[q + 1 for q in sh]))], 0)
    for op in ('__add__', '__sub__', '__mul__'):
        yield f'{op} {sh}', lambda s, op=op: getattr(s.t('x', a), op)(s.t('y', b))
    c = A(*[1 if rng.random() < .4 else q for q in sh])
    yield f'broadcast {sh} {c.shape}', lambda s: s.t('x', a) * s.t('y', c)
    yield f'broadcast rank {sh}', lambda s: s.t('x', a) + s.t('y', c[0])
    bad = A(*[q + 2 for q in sh])
    yield f'broadcast error {sh}', lambda s: s.t('x', a) * s.t('y', bad)
    yield f'scalar {sh}', lambda s: s.t('x', a) * 3 + 2
    yield f'promotion {sh}', lambda s: s.t('x', a) * s.t('y', b, 'float32')
    for q in (1, 2, 3):
        yield f'split {sh} {q} {d}', lambda s, q=q: list(s.torch.split(s.t('x', a), q, d))
    yield f'split list {sh}', lambda s: list(s.torch.split(s.t('x', a), [1, sh[d] - 1], d))
    yield f'expand {sh}', lambda s: s.t('x', a).unsqueeze(0).expand(3, *[-1] * n)
    m1, m2, m3 = R(1, 4), R(1, 4), R(1, 4)
    x, y = A(m1, m2), A(m2, m3)
    yield f'matmul {x.shape} {y.shape}', lambda s: s.torch.matmul(s.t('x', x), s.t('y', y))
    yield f'flatten {sh}', lambda s: s.t('x', a).flatten()
    yield f'movedim {sh}', lambda s: s.torch.movedim(s.t('x', a), 0, d)
    yield f'narrow {sh}', lambda s: s.t('x', a).narrow(d, 0, 1)
    yield f'mean {sh}', lambda s: s.t('x', a).mean(d)
    yield f'dtype {sh}', lambda s: s.t('x', a).to(s.torch.float32)
    yield f'as_tensor {sh}', lambda s: s.torch.as_tensor([1, 2, 3], dtype=s.torch.float64)
    yield f'arange {sh}', lambda s: s.torch.arange(R(0, 3) * 0 + 1, 7, 2)
    yield f'zeros {sh}', lambda s: s.torch.zeros(2, 3, dtype=s.torch.float64)


def functions(rng):
    """whole functions of the code under verification"""
    R = rng.randint

    def A(*sh):
        return np.array([rng.randint(-9, 9) for _ in range(int(np.prod(sh)))], float).reshape(sh)
    bank = Bank(R(1, 3), rng)
    w = lambda s: bank.sym() if s.sym else bank.real()  # noqa: E731
    dt = rng.choice(['float64', 'float64', 'float32'])
    for fam, d in (('conv', 1), ('conv', 2), ('conv', 3), ('sep', 2), ('sep', 3)):
        rank = d + R(0, 2)
        axes = rng.sample(range(rank), d)
        axes = [a - rank if rng.random() < .5 else a for a in axes]
        sh = [R(1, 2) for _ in range(rank)]
        for a in axes:
            sh[a] = R(1, {1: 9, 2: 5, 3: 4}[d])
        a = A(*sh)
        m = 'separable_conv_transform' if fam == 'sep' else 'conv_transform' + ('' if d == 1 else f'_{d}')
        s_ = '' if d == 1 else str(d)
        fw, bw = ('fswavedec' + s_, 'fswaverec' + s_) if fam == 'sep' else ('wavedec' + s_, 'waverec' + s_)
        kw = {'axis': axes[0]} if d == 1 else {'axes': tuple(axes)}
        mode = rng.choice(['zero', 'constant', 'reflect', 'periodic', 'symmetric'])
        lv = R(0, 2 if d == 1 or bank.h == 1 and d == 2 else 1)

        def forward(s, m=m, fw=fw, kw=kw, mode=mode, lv=lv, a=a):
            return getattr(s.mod(m), fw)(s.t('x', a, dt), w(s), mode=mode, level=lv, **kw)

        def both(s, m=m, bw=bw, kw=kw, forward=forward):
            return getattr(s.mod(m), bw)(forward(s), w(s), **kw)
        yield f'{fw} {sh} {axes} {mode} level {lv} L={2 * bank.h}', forward
        if d < 3:
            yield f'{bw} {sh} {axes} {mode} level {lv} L={2 * bank.h}', both
    n = R(1, 9)
    a = A(R(1, 2), n)
    lv = R(0, 3)
    yield f'swt {a.shape} {lv}', lambda s: s.mod('stationary_transform').swt(s.t('x', a, dt), w(s), lv)
    yield f'iswt {a.shape} {lv}', lambda s: s.mod('stationary_transform').iswt([s.t(f'c{i}', a + i, dt) for i in range(lv + 1)], w(s))


    M = 'sparse_math'
    f = A(2 * bank.h)
    mm = rng.choice(['full', 'valid', 'same', 'sameshift'])
    n = R(2 * bank.h, 9)
    yield f'construct_conv_matrix {mm} {n} {len(f)}', lambda s: s.mod(M).construct_conv_matrix(s.t('f', f), n, mode=mm).to_dense()
    yield f'construct_strided_conv_matrix {mm} {n} {len(f)}', lambda s: s.mod(M).construct_strided_conv_matrix(s.t('f', f), n, 2, mode=mm).to_dense()
    yield f'construct_a {n}', lambda s: s.mod('matmul_transform')._construct_a(w(s), n - n % 2, mode='sameshift', dtype=s.torch.float64).to_dense()
    yield f'construct_s {n}', lambda s: s.mod('matmul_transform')._construct_s(w(s), n - n % 2, mode='sameshift', dtype=s.torch.float64).to_dense()


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 8
    n0 = int(sys.argv[2]) if len(sys.argv) > 2 else 0
    sys.path.insert(0, load.REPO_SRC if hasattr(load, 'REPO_SRC') else os.path.join(os.environ.get('PTV_REPO', '/repo'), 'src'))
    count, unsup, bad = 0, {}, []
    W = load.World()
    rs, ss = Side(False, None), Side(True, W)
    for seed in range(n0, n0 + n):
        rng = random.Random(seed)
        for name, f in itertools.chain(ops(rng), functions(rng)):
            verify.reset()
            if os.environ.get("VERBOSE"):
                print(name, flush=True)
            ir.UF_FOLD['symidx'] = lambda a: None if a[0].const() is None or a[1].const() is None else K(mirror(a[0].const(), a[1].const()))
            core.set_ctx(core.Ctx())
            try:
                got = outcome(f, ss)
            except core.Unsupported as e:
                unsup.setdefault(name.split(' ')[0], str(e)[:80])
                continue
            finally:
                core.set_ctx(None)
            want = outcome(f, rs)
            count += 1
            if got[0] != want[0] or got[0] == 'returns' and not same(got[1], want[1]):
                bad.append((name, str(got)[:300], str(want)[:300]))
    print(f'{count} comparisons, {len(bad)} differences, operations without a contract: {unsup}')
    for b in bad[:10]:
        print('DIFFERENCE', *b, sep='\n   ')
    return 1 if bad else 0


def mirror(q, n):
    q %= 2 * n
    return q if q < n else 2 * n - 1 - q


if __name__ == '__main__':
    sys.exit(main())
