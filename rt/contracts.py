"""Run-time evaluation of the property contracts on the real code (bounded).

Used (1) to replay verifier counterexamples, (2) as the labelled bounded
stand-in for functions outside the verifier's reach and (3) to validate the
trusted contracts on torch/numpy/pywt.  Never counted as proof.
"""
import contextlib
import copy
import io
import itertools
import os
import random
import sys
import warnings

REPO = os.environ.get('PTV_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'src'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.filterwarnings('ignore')
import numpy as np  # noqa: E402
import pywt  # noqa: E402
import torch  # noqa: E402

torch.set_num_threads(2)
import oracle as O  # noqa: E402
import ptwt  # noqa: E402
from ptwt import sparse_math as SMX  # noqa: E402
from ptwt import _util as UT  # noqa: E402
from ptwt.constants import WaveletDetailTuple2d, WaveletTensorTuple  # noqa: E402

assert os.path.realpath(ptwt.__file__).startswith(os.path.realpath(REPO)), ptwt.__file__


class Violation(Exception):
    pass


KNOWN = []  # keys of known findings met by the current case


def known(key):
    if key not in KNOWN:
        KNOWN.append(key)


def need(cond, msg):
    if not cond:
        raise Violation(msg)


MODES = ['zero', 'constant', 'reflect', 'periodic', 'symmetric']
ORTH = ['haar', 'db2', 'db3', 'sym4', 'coif1', 'db5', 'sym5']
WAVES = ['haar', 'db2', 'db3', 'sym4', 'bior1.3', 'bior2.2', 'coif2', 'db7', 'rbio3.1', 'bior3.1', 'db10']
TOL = 1e-8


class RandWavelet:
    """A filter bank object without the perfect reconstruction property."""

    def __init__(self, L, seed):
        r = np.random.RandomState(seed)
        fb = [list(map(float, r.randn(L))) for _ in range(4)]
        self.name = f'rand{L}'
        self.dec_lo, self.dec_hi, self.rec_lo, self.rec_hi = fb
        self.filter_bank = tuple(fb)
        self.dec_len = self.rec_len = L

    def __len__(self):
        return len(self.dec_lo)


def W(spec, dtype=torch.float64):
    """Return (wavelet argument, dec_lo, dec_hi, rec_lo, rec_hi, L)."""
    if spec.startswith('rand:'):
        _, L, s = spec.split(':')
        w = RandWavelet(int(L), int(s))
        return w, *[np.array(f) for f in w.filter_bank], int(L)
    kind, _, name = spec.rpartition('/')
    pw = pywt.Wavelet(name)
    fb = [np.array(f) for f in pw.filter_bank]
    arg = name if kind == 'str' else pw
    if kind == 'tuple':
        arg = WaveletTensorTuple.from_wavelet(pw, dtype)
    return arg, *fb, pw.dec_len


def data(shape, seed, dtype=torch.float64, layout=0):
    r = np.random.RandomState(seed % (2 ** 31))
    x = torch.from_numpy(np.asarray(r.randn(*shape))).to(dtype)
    if layout == 1 and x.ndim > 1:  # non contiguous
        x = x.transpose(0, -1).contiguous().transpose(0, -1)
    return x


def npy(t):
    if not isinstance(t, torch.Tensor):
        return np.asarray(t)
    t = t.detach().cpu()
    t = t.to_dense() if t.is_sparse else t
    return t.numpy().astype(np.complex128 if t.is_complex() else np.float64)


def close(a, b, tol=TOL, what='value'):
    a, b = npy(a), npy(b)
    need(a.shape == b.shape, f'{what}: shape {a.shape} != expected {b.shape}')
    if a.size:
        s = max(1.0, float(np.abs(b).max()))
        e = float(np.abs(a - b).max())
        need(np.isfinite(e) and e <= tol * s, f'{what}: max abs difference {e:.3g} to the contract')


def call(what, f, *a, **k):
    """A call inside the contract's domain must not raise."""
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            return f(*a, **k)
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation(f'{what} raised {type(e).__name__}: {str(e)[:200]}')


def feasible(sizes, L, mode, level):
    for n in sizes:
        for _ in range(level):
            if not O.ext_feasible(mode, n, L):
                return False
            n = (n + L - 1) // 2
    return True


def nrm_axes(axes, nd):
    return tuple(a % nd for a in axes)


TUP = [('da', 'horizontal'), ('ad', 'vertical'), ('dd', 'diagonal')]


def t2d(c):
    """2d coefficient tuple -> list with dicts."""
    out = [c[0]]
    for d in c[1:]:
        need(isinstance(d, tuple) and len(d) == 3, '2-D detail is not a triple')
        out.append({k: d[i] for i, (k, _) in enumerate(TUP)})
    return out


def d2t(c):
    return (c[0], *[WaveletDetailTuple2d(*[d[k] for k, _ in TUP]) for d in c[1:]])


def tt(c, dtype=torch.float64):
    return [torch.from_numpy(np.ascontiguousarray(c[0])).to(dtype)] + [
        ({k: torch.from_numpy(np.ascontiguousarray(v)).to(dtype) for k, v in d.items()} if isinstance(d, dict)
         else torch.from_numpy(np.ascontiguousarray(d)).to(dtype)) for d in c[1:]]


def cmp_coeffs(got, exp, nd, tol=TOL):
    need(len(got) == len(exp), f'number of coefficient entries {len(got)} != {len(exp)}')
    close(got[0], exp[0], tol, 'approximation')
    for i, (g, e) in enumerate(zip(got[1:], exp[1:])):
        need(isinstance(g, dict) and set(g) == set(e), f'entry {i+1}: keys {sorted(g) if isinstance(g, dict) else type(g)} != {sorted(e)}')
        for k in e:
            close(g[k], e[k], tol, f'entry {i+1} band {k}')


# ---------------------------------------------------------------- generators
def shapes(nd, rng, lo=1, hi=20, batch=None):
    b = rng.choice([(), (1,), (2,), (2, 3), (3, 1, 2)]) if batch is None else batch
    return tuple(b) + tuple(rng.randint(lo, hi) for _ in range(nd))


def wspec(rng, pr=False):
    c = rng.random()
    if not pr and c < .3:
        return f'rand:{rng.choice([2, 4, 6, 8, 10, 14])}:{rng.randint(0, 999)}'
    n = rng.choice(WAVES)
    return rng.choice(['', 'str/', '', 'tuple/']) + n if c < .8 else n


FW = {1: lambda x, w, **k: [k.pop('_', None), ptwt.wavedec(x, w, **k)][1]}


def fwd(kind, x, w, axes, mode, level):
    nd = {'c1': 1, 'c2': 2, 'c3': 3, 's2': 2, 's3': 3}[kind]
    kw = dict(mode=mode, level=level)
    if kind == 'c1':
        r = ptwt.wavedec(x, w, axis=axes[0], **kw)
        need(isinstance(r, list), 'result is not a list')
        return [r[0]] + [{'d': d} for d in r[1:]]
    f = {'c2': ptwt.wavedec2, 'c3': ptwt.wavedec3, 's2': ptwt.fswavedec2, 's3': ptwt.fswavedec3}[kind]
    r = f(x, w, axes=axes, **kw)
    need(isinstance(r, tuple), 'result is not a tuple')
    return t2d(r) if kind == 'c2' else list(r)


def inv(kind, c, w, axes):
    if kind == 'c1':
        return ptwt.waverec([c[0]] + [d['d'] for d in c[1:]], w, axis=axes[0])
    if kind == 'c2':
        return ptwt.waverec2(d2t(c), w, axes=axes)
    f = {'c3': ptwt.waverec3, 's2': ptwt.fswaverec2, 's3': ptwt.fswaverec3}[kind]
    return f(tuple(c), w, axes=axes)


NDIM = {'c1': 1, 'c2': 2, 'c3': 3, 's2': 2, 's3': 3, 'm1': 1, 'm2': 2, 'm2n': 2, 'm3': 3, 'swt': 1}


def gen_analysis(kind):
    nd = NDIM[kind]

    def gen(rng, tier):
        # systematic corner cases
        hi = {1: 13, 2: 7, 3: 5}[nd]
        ws = ['haar', 'db2', 'bior2.2'] if nd < 3 else ['haar', 'db2']
        for w in ws:
            for mode in MODES:
                for sz in itertools.product(range(1, hi), repeat=nd):
                    if nd == 3 and rng.random() > .25 or nd == 2 and rng.random() > .5:
                        continue
                    lv = rng.choice([1, 1, 2, 3])
                    yield dict(kind=kind, w=w, mode=mode, shape=rng.choice([(), (2,)]) + sz, level=lv,
                               axes=list(range(-nd, 0)), seed=rng.randint(0, 9999), dt='f8', layout=rng.randint(0, 1))
        while True:
            sh = shapes(nd, rng, 1, {1: 70, 2: 18, 3: 9}[nd])
            axes = rng.sample(range(len(sh)), nd) if rng.random() < .5 else list(range(len(sh) - nd, len(sh)))
            if rng.random() < .7:
                axes = [a - len(sh) if rng.random() < .6 else a for a in axes]
            yield dict(kind=kind, w=wspec(rng), mode=rng.choice(MODES), shape=sh, level=rng.choice([0, 1, 1, 2, 2, 3, 4, 6] if nd == 1 else [0, 1, 1, 2, 3]),
                       axes=axes, seed=rng.randint(0, 9999), dt=rng.choice(['f8', 'f8', 'f8', 'f4']), layout=rng.randint(0, 1))
    return gen


DT = {'f8': torch.float64, 'f4': torch.float32}


def tolof(dt):
    return TOL if dt == 'f8' else 2e-3


def chk_analysis(kind, w, mode, shape, level, axes, seed, dt, layout):
    x = data(shape, seed, DT[dt], layout)
    wa, dl, dh, rl, rh, L = W(w, DT[dt])
    ax = nrm_axes(axes, len(shape))
    if not feasible([shape[a] for a in ax], L, mode, level):
        return False
    got = call(f'analysis {kind}', fwd, kind, x, wa, tuple(axes), mode, level)
    exp = O.wavedecn(npy(x), ax, dl, dh, mode, level)
    cmp_coeffs(got, exp, len(ax), tolof(dt))
    return True


def chk_synthesis(kind, w, mode, shape, level, axes, seed, dt, layout):
    """arbitrary coefficients of consistent shapes: synthesis law; then round trip."""
    wa, dl, dh, rl, rh, L = W(w, DT[dt])
    ax = nrm_axes(axes, len(shape))
    if not feasible([shape[a] for a in ax], L, 'zero' if mode == 'zero' else mode, level):
        return False
    x = data(shape, seed, DT[dt], layout)
    exp = O.wavedecn(npy(x), ax, dl, dh, mode, level)
    r = np.random.RandomState(seed + 1)
    arb = [r.randn(*exp[0].shape)] + [{k: r.randn(*v.shape) for k, v in d.items()} for d in exp[1:]]
    cs = tt(arb, DT[dt])
    if seed % 3 == 0 and len(cs) > 1 and kind != 'c1':  # any key order
        cs = [cs[0]] + [dict(sorted(d.items(), key=lambda kv: hash((kv[0], seed)) if False else kv[0][::-1], reverse=True)) for d in cs[1:]]
    y = call(f'synthesis {kind}', inv, kind, cs, wa, tuple(axes))
    close(y, O.waverecn([npy(cs[0])] + [{k: npy(v) for k, v in d.items()} for d in cs[1:]], ax, rl, rh), tolof(dt), 'synthesis')
    if not w.startswith('rand'):
        c = call(f'analysis {kind}', fwd, kind, x, wa, tuple(axes), mode, level)
        y = call(f'synthesis {kind}', inv, kind, c, wa, tuple(axes))
        for i in range(len(shape)):
            ok = y.shape[i] == shape[i] or (i in ax and shape[i] % 2 and level and y.shape[i] == shape[i] + 1)
            need(ok, f'round trip shape {tuple(y.shape)} for input {tuple(shape)}')
        close(y[tuple(slice(0, s) for s in shape)], x, tolof(dt) if 'rbio' not in w and 'bior' not in w else max(tolof(dt), 1e-6), 'round trip')
    return True


# ---------------------------------------------------------------- C01
def gen_C01(rng, tier):
    for mode in MODES:
        for n in range(1, 14):
            for L in (2, 4, 6, 10, 16, 24):
                yield dict(t='f', nd=1, mode=mode, sz=[n], L=L, pad=None, seed=rng.randint(0, 999), b=rng.choice([1, 2]))
    for n in range(1, 8):
        for p in itertools.product(range(0, 25, 3), repeat=2):
            yield dict(t='s', nd=1, mode='symmetric', sz=[n], L=2, pad=[list(p)], seed=rng.randint(0, 999), b=2)
    while True:
        nd = rng.choice([1, 2, 3])
        if rng.random() < .4:
            yield dict(t='s', nd=nd, mode='symmetric', sz=[rng.randint(1, 7) for _ in range(nd)], L=2,
                       pad=[[rng.randint(0, 20), rng.randint(0, 20)] for _ in range(nd)], seed=rng.randint(0, 999), b=rng.choice([1, 3]))
        elif rng.random() < .3:
            sz = [rng.randint(2, 7) for _ in range(nd)]
            yield dict(t='p', nd=nd, mode=rng.choice(MODES), sz=sz, L=2, pad=[[rng.randint(0, 1), rng.randint(0, 1)] for _ in sz], seed=rng.randint(0, 999), b=2)
        else:
            yield dict(t='f', nd=nd, mode=rng.choice(MODES), sz=[rng.randint(1, 12) for _ in range(nd)], L=2 * rng.randint(1, 9), pad=None, seed=rng.randint(0, 999), b=rng.choice([1, 3]))


def chk_C01(t, nd, mode, sz, L, pad, seed, b):
    from ptwt.conv_transform import _fwt_pad
    from ptwt.conv_transform_2 import _fwt_pad2
    from ptwt.conv_transform_3 import _fwt_pad3
    x = data([b, 1] + sz if nd < 4 else sz, seed)
    if t == 's':
        y = call('symmetric padding', UT._pad_symmetric, x, [tuple(p) for p in pad])
    else:
        w = RandWavelet(L, seed)
        if pad is None:
            if not all(O.ext_feasible(mode, n, L) for n in sz):
                return False
            f = {1: _fwt_pad, 2: _fwt_pad2, 3: _fwt_pad3}[nd]
            y = call('padding', f, x, w, mode=mode)
            p = (2 * L - 3) // 2
            pad = [[p, p + n % 2] for n in sz]
            # through the public API as well: exact lengths
            for n, q in zip(sz, pad):
                need((n + sum(q) - L) // 2 + 1 == (n + L - 1) // 2, 'oracle length')
        else:
            f = {1: _fwt_pad, 2: _fwt_pad2, 3: _fwt_pad3}[nd]
            flat = tuple(v for p in pad[::-1] for v in p)
            y = call('padding', f, x, w, mode=mode, padding=flat)
    e = npy(x)
    for i, p in enumerate(pad):
        a = 2 + i
        n = e.shape[a]
        e = np.moveaxis(O.gather(e, a, mode, np.arange(-p[0], n + p[1])), -1, a)
    close(y, e, 1e-12, 'extended signal')
    return True


# ---------------------------------------------------------------- C10
def mats(kind, w, axes, level, **k):
    if kind == 'm1':
        return ptwt.MatrixWavedec(w, level, axis=axes[0], **k), ptwt.MatrixWaverec(w, axis=axes[0])
    if kind in ('m2', 'm2n'):
        s = kind == 'm2'
        return ptwt.MatrixWavedec2(w, level, axes=axes, separable=s, **k), ptwt.MatrixWaverec2(w, axes=axes, separable=s)
    return ptwt.MatrixWavedec3(w, level, axes=axes, **k), ptwt.MatrixWaverec3(w, axes=axes)


def fwd_any(kind, x, w, axes, mode, level, objs=None):
    if kind == 'swt':
        r = ptwt.swt(x, w, level, axis=axes[0])
        return [r[0]] + [{'d': d} for d in r[1:]]
    if kind.startswith('m'):
        if objs is None:
            objs = {}
        if 'A' not in objs:
            objs['A'] = mats(kind, w, axes, level, odd_coeff_padding_mode=mode)[0]
        r = objs['A'](x)
        if kind == 'm1':
            return [r[0]] + [{'d': d} for d in r[1:]]
        return t2d(r) if kind.startswith('m2') else list(r)
    return fwd(kind, x, w, axes, mode, level)


def inv_any(kind, c, w, axes):
    if kind == 'swt':
        return ptwt.iswt([c[0]] + [d['d'] for d in c[1:]], w, axis=axes[0])
    if kind == 'm1':
        return mats(kind, w, axes, 1)[1]([c[0]] + [d['d'] for d in c[1:]])
    if kind in ('m2', 'm2n'):
        return mats(kind, w, axes, 1)[1](d2t(c))
    if kind == 'm3':
        return mats(kind, w, axes, 1)[1](tuple(c))
    return inv(kind, c, w, axes)


def gen_C10(rng, tier):
    kinds = ['c1', 'c2', 'c3', 's2', 's3', 'swt', 'm1', 'm2', 'm2n', 'm3']
    for kind in kinds:
        nd = NDIM[kind]
        for rank in range(nd, min(nd + 2, 4) + 1):
            for axes in itertools.permutations(range(rank), nd):
                if rng.random() > .6:
                    continue
                ax = [a - rank if rng.random() < .5 else a for a in axes]
                sh = [rng.choice([1, 2, 3]) for _ in range(rank)]
                for a in axes:
                    sh[a] = rng.choice([4, 5, 6, 7, 8])
                yield dict(kind=kind, shape=sh, axes=ax, w='haar' if kind[0] == 'm' else rng.choice(['haar', 'db2', 'rand:4:7']), mode=rng.choice(['zero', 'symmetric']), level=1, seed=rng.randint(0, 999))
    while True:
        kind = rng.choice(kinds)
        nd = NDIM[kind]
        rank = nd + rng.randint(0, 3)
        axes = rng.sample(range(rank), nd)
        sh = [rng.choice([1, 1, 2, 3, 4]) for _ in range(rank)]
        for a in axes:
            sh[a] = rng.choice([4, 5, 6, 7, 8, 9])
        yield dict(kind=kind, shape=sh, axes=[a - rank if rng.random() < .5 else a for a in axes], w='haar' if kind[0] == 'm' else rng.choice(['haar', 'db2', 'rand:4:7']),
                   mode=rng.choice(['zero', 'symmetric', 'constant']), level=rng.choice([1, 2]), seed=rng.randint(0, 999))


def chk_C10(kind, shape, axes, w, mode, level, seed):
    nd = NDIM[kind]
    if kind[0] == 'm' and any(shape[a] < 4 for a in axes):
        return False
    wa = W(w)[0]
    x = data(shape, seed)
    ax = nrm_axes(axes, len(shape))
    got = call(f'{kind} axes={axes}', fwd_any, kind, x, wa, tuple(axes), mode, level)
    xm = torch.movedim(x, ax, tuple(range(-nd, 0)))
    bs = tuple(xm.shape[:-nd])
    parts = {}
    objs = {}
    for b in np.ndindex(*bs):
        # a transform of a single slice, default axes
        parts[b] = call(f'{kind} slice', fwd_any, kind, xm[b].contiguous(), wa, tuple(range(-nd, 0)), mode, level, objs)

    def assemble(sel):
        a = np.stack([npy(sel(parts[b])) for b in np.ndindex(*bs)]) if bs else npy(sel(parts[()]))
        if bs:
            a = a.reshape(bs + a.shape[1:])
        return np.moveaxis(a, range(-nd, 0), ax)
    first = parts[(0,) * len(bs)]
    exp = [assemble(lambda p: p[0])] + [{k: assemble(lambda p, i=i, k=k: p[i][k]) for k in first[i]} for i in range(1, len(first))]
    cmp_coeffs(got, exp, nd)
    if not w.startswith('rand') and (kind != 'swt' or True):
        y = call(f'inverse {kind} axes={axes}', inv_any, kind, got, wa, tuple(axes))
        need(y.ndim == x.ndim, 'inverse rank')
        need(all(y.shape[i] == shape[i] or (i in ax and y.shape[i] == shape[i] + 1) for i in range(len(shape))), f'inverse shape {tuple(y.shape)} for {shape} axes {axes}')
        close(y[tuple(slice(0, s) for s in shape)], x, 1e-7, 'inverse')
    return True


# ---------------------------------------------------------------- C11/C12
def gen_swt(rng, tier):
    for n in range(1, 18):
        for w in ['haar', 'db2', 'db4', 'rand:6:3', 'bior2.2']:
            for lv in (1, 2, 3, 4):
                yield dict(shape=rng.choice([[n], [2, n]]), w=w, level=lv, axis=-1, seed=rng.randint(0, 999))
    for lv in range(5, 13):
        for n in (37, 2 ** lv, 2 ** lv + 1):
            yield dict(shape=[n], w=rng.choice(['haar', 'db2', 'rand:4:1']), level=lv, axis=-1, seed=lv)
    while True:
        sh = list(shapes(1, rng, 1, 60))
        if rng.random() < .2:
            yield dict(shape=sh, w=wspec(rng), level=rng.randint(6, 11), axis=rng.randint(-len(sh), len(sh) - 1), seed=rng.randint(0, 999))
        yield dict(shape=sh, w=wspec(rng), level=rng.choice([0, 1, 2, 3, 4, 5]), axis=rng.randint(-len(sh), len(sh) - 1), seed=rng.randint(0, 999))


def chk_C11(shape, w, level, axis, seed):
    x = data(shape, seed)
    wa, dl, dh, rl, rh, L = W(w)
    got = call('swt', ptwt.swt, x, wa, level, axis=axis)
    exp = O.swt(npy(x), axis, dl, dh, level)
    need(len(got) == len(exp), 'number of entries')
    for i, (g, e) in enumerate(zip(got, exp)):
        close(g, e, what=f'entry {i}')
    return True


def chk_C12(shape, w, level, axis, seed):
    x = data(shape, seed)
    wa, dl, dh, rl, rh, L = W(w)
    c = [data(shape, seed + i + 1) for i in range(level + 1)]
    y = call('iswt', ptwt.iswt, c, wa, axis=axis)
    close(y, O.iswt([npy(v) for v in c], axis, rl, rh), what='synthesis')
    if not w.startswith('rand'):
        y = call('iswt', ptwt.iswt, call('swt', ptwt.swt, x, wa, level, axis=axis), wa, axis=axis)
        close(y, x, 1e-6, 'round trip')
    return True


# ---------------------------------------------------------------- C13
def gen_C13(rng, tier):
    for n in range(1, 10):
        for L in range(1, n + 1):
            for mode in ('full', 'same', 'valid', 'sameshift'):
                yield dict(t='1', L=L, n=n, mode=mode, stride=0, seed=rng.randint(0, 999))
                for s in (1, 2, 3):
                    yield dict(t='1', L=L, n=n, mode=mode, stride=s, seed=rng.randint(0, 999))
    while True:
        n, m = rng.randint(1, 9), rng.randint(1, 9)
        yield dict(t='2', L=[rng.randint(1, n), rng.randint(1, m)], n=[n, m], mode=rng.choice(['full', 'same', 'valid', 'sameshift']), stride=rng.choice([0, 1, 2, 2, 3]),
                   seed=rng.randint(0, 999))
        if rng.random() < .2:
            n = rng.randint(1, 40)
            yield dict(t='1', L=rng.randint(1, n), n=n, mode=rng.choice(['full', 'same', 'valid', 'sameshift']), stride=rng.choice([0, 1, 2, 2, 3, 4]), seed=rng.randint(0, 999))


def chk_C13(t, L, n, mode, stride, seed):
    om = 'same' if mode == 'sameshift' else mode
    s0 = 1 if mode == 'sameshift' else 0
    if t == '1':
        f, x = data([L], seed), data([n], seed + 1)
        e = O.conv1(npy(f), npy(x), om)
        if stride:
            e = e[s0::stride]
            m = call('strided matrix', SMX.construct_strided_conv_matrix, f, n, stride, mode=mode)
        else:
            m = call('matrix', SMX.construct_conv_matrix, f, n, mode=mode)
        # coverage of the last rows: shapes equal the output sizes
        y = npy(m.to_dense()) @ npy(x) if m.shape[1] == n else None
    else:
        f, x = data(L, seed), data(n, seed + 1)
        e = O.conv2(npy(f), npy(x), om)
        if stride:
            e = e[s0::stride, s0::stride]
            m = call('strided 2d matrix', SMX.construct_strided_conv2d_matrix, f, n[0], n[1], stride, mode=mode)
        else:
            m = call('2d matrix', SMX.construct_conv2d_matrix, f, n[0], n[1], mode=mode, fully_sparse=bool(seed % 4))
        e = e.T.reshape(-1)
        y = npy(m.to_dense()) @ npy(x).T.reshape(-1) if m.shape[1] == n[0] * n[1] else None
    need(y is not None, f'matrix has {m.shape[1]} columns')
    close(y, e, 1e-10, f'{mode} convolution')
    return True


# ---------------------------------------------------------------- C14
def spm(shape, seed, dens=.5, dtype=torch.float64, unco=False):
    r = np.random.RandomState(seed)
    a = r.randn(*shape) * (r.rand(*shape) < dens)
    s = torch.from_numpy(a).to(dtype).to_sparse()
    if unco and s._nnz():
        s = torch.sparse_coo_tensor(torch.cat([s.indices(), s.indices()], 1), torch.cat([s.values() * .25, s.values() * .75]), s.shape)
    return s


def gen_C14(rng, tier):
    while True:
        yield dict(t=rng.choice(['kron', 'diag', 'cat', 'row', 'bmm', 'bdm', 'dkron']), s=[rng.randint(1, 6) for _ in range(6)],
                   dens=rng.choice([0, .1, .5, 1.]), dt=rng.choice(['f8', 'f4']), seed=rng.randint(0, 9999), u=rng.random() < .3)


def chk_C14(t, s, dens, dt, seed, u, raw=False, dt2=None):
    d = DT[dt]
    tol = 1e-12 if dt == 'f8' else 1e-4

    def meta(r):
        need(r.dtype == d, f'{t}: dtype {r.dtype} != {d}')
    if t == 'kron':
        a, b = spm(s[:2], seed, dens, d, u), spm(s[2:4], seed + 1, .6, DT[dt2] if dt2 else d, u and raw)
        if seed % 2 and not raw:
            a, b = b, a
        ca, cb = a.to_dense().clone(), b.to_dense().clone()
        r = call(t, SMX.sparse_kron, a, b)
        close(r.to_dense(), np.kron(npy(ca), npy(cb)), tol, t)
        need(r.dtype == torch.promote_types(a.dtype, b.dtype), f'{t}: dtype {r.dtype}')
        close(a.to_dense(), ca, 0, 'operand')
        close(b.to_dense(), cb, 0, 'operand')
    elif t == 'dkron':
        a, b = spm(s[:2], seed, dens, d, u), spm(s[2:4], seed + 1, .6, d)
        r = call(t, SMX._dense_kron, a, b)
        need(r.is_sparse, f'{t}: not sparse')
        close(r.to_dense(), np.kron(npy(a.to_dense()), npy(b.to_dense())), tol, t)
        meta(r)
    elif t == 'diag':
        v = data([s[0]], seed, d)
        off = seed % 13 - 6
        rows, cols = s[1] + 2, s[2] + 2
        if raw:
            off, rows, cols = s[1:4]
        e = np.zeros((rows, cols))
        for i in range(s[0]):
            rr, cc = (i, i + off) if off >= 0 else (i - off, i)
            if rr < rows and cc < cols:
                e[rr, cc] = npy(v)[i]
        r = call(t, SMX.sparse_diag, v, off, rows, cols) if True else None
        close(r.to_dense(), e, 0, t)
        meta(r)
    elif t == 'cat':
        a = spm([s[0], s[0]], seed, dens, d, u)
        n = s[0] + s[1] - 1
        e = np.eye(n)
        e[:s[0], :s[0]] = npy(a.to_dense())
        r = call(t, SMX.cat_sparse_identity_matrix, a, n)
        close(r.to_dense(), e, tol, t)
        meta(r)
    elif t == 'row':
        a = spm(s[:2], seed, dens, d, u)
        row = spm([1, s[1]], seed + 5, .6, d)
        i = s[2] if raw else seed % s[0]
        e = npy(a.to_dense()).copy()
        e[i] = npy(row.to_dense())[0]
        c = a.to_dense().clone()
        r = call(t, SMX.sparse_replace_row, a, i, row)
        close(r.to_dense(), e, tol, t)
        meta(r)
        close(a.to_dense(), c, 0, 'operand')
    elif t == 'bmm':
        a = spm(s[:2], seed, dens, d)
        if (u if raw else seed % 2):
            a = a.to_dense()
        b = data([s[2], s[1], s[3]], seed + 1, d, seed % 3 % 2)
        r = call(t, SMX.batch_mm, a, b)
        close(r, np.einsum('mn,bnk->bmk', npy(a.to_dense()), npy(b)), tol, t)
        meta(r)
    else:
        dim = dens if raw else seed % 3 + 1
        dens = .5 if raw else dens
        sh = [s[2], s[3], s[4], s[5]]
        a = spm([s[0], sh[dim]], seed, dens, d)
        b = data(sh, seed + 1, d)
        r = call(t, SMX._batch_dim_mm, a, b, dim - 4 if seed % 2 else dim)
        close(r, np.moveaxis(np.tensordot(npy(a.to_dense()), npy(b), (1, dim)), 0, dim), tol, t)
        meta(r)
    return True


# ---------------------------------------------------------------- C15
def gen_C15(rng, tier):
    while True:
        yield dict(t=rng.choice(['rows', 'wav']), n=rng.randint(2, 9), m=rng.randint(0, 4), k=rng.randint(1, 5), meth=rng.choice(['qr', 'gramschmidt']), w=rng.choice(ORTH),
                   seed=rng.randint(0, 9999), s=rng.random() < .5)


def chk_C15(t, n, m, k, meth, w, seed, s):
    from ptwt.matmul_transform import _get_to_orthogonalize, construct_boundary_a, construct_boundary_s, orthogonalize, _construct_a
    if t == 'wav':
        L = pywt.Wavelet(w).dec_len
        N = L + 2 * (n + m) - 4
        N += N % 2
        if N < L:
            return False
        f = construct_boundary_s if s else construct_boundary_a
        a = call('boundary matrix', f, w, N, orthogonalization=meth).to_dense()
        need(a.shape == (N, N), 'square')
        close(a @ a.T, np.eye(N), 1e-7, 'orthogonal matrix')
        full = _construct_a(w, N).to_dense()
        if not s:
            for i in range(N):
                if int((full[i] != 0).sum()) == L:
                    close(a[i], full[i], 1e-12, f'complete row {i}')
        return True
    r = np.random.RandomState(seed)
    cols = n + m
    k = min(k, n)
    nfull = cols
    a = r.randn(n, cols)
    rows = sorted(r.permutation(n)[:k])
    # incomplete rows have fewer nonzeros than a full row
    for j, i in enumerate(rows):
        z = r.permutation(cols)[:r.randint(1, max(2, cols - k))]
        a[i, z] = 0
    inc = a[rows]
    if cols < 2 or np.linalg.matrix_rank(inc) < k or np.linalg.cond(inc) > 1e4:
        return False
    M = torch.from_numpy(a).to_sparse()
    got = call('row selection', _get_to_orthogonalize, M, nfull).tolist()
    need(sorted(got) == rows, f'rows {got} != {rows}')
    o = call('orthogonalize', orthogonalize, M, nfull, meth).to_dense().numpy()
    need(o.shape == a.shape, 'shape')
    rest = [i for i in range(n) if i not in rows]
    close(o[rest], a[rest], 1e-12, 'untouched rows')
    q = o[rows]
    close(q @ q.T, np.eye(k), 1e-7, 'orthonormal rows')
    close(inc @ q.T @ q, inc, 1e-7, 'row span')
    close(M.to_dense(), a, 0, 'operand')
    return True


# ---------------------------------------------------------------- C16-C18
def gen_mat(kinds):
    def gen(rng, tier):
        nd = NDIM[kinds[0]]
        for kind in kinds:
            for w in ORTH[:4] if nd == 1 else ORTH[:2]:
                L = pywt.Wavelet(w).dec_len
                for sz in itertools.product(range(L, L + {1: 14, 2: 5, 3: 3}[nd]), repeat=nd):
                    for lv in (1, 2, 3):
                        if nd > 1 and rng.random() > .3:
                            continue
                        yield dict(kind=kind, w=w, shape=[2] + list(sz), level=lv, mode=rng.choice(MODES), meth='qr', axes=list(range(-nd, 0)), seed=rng.randint(0, 999))
        while True:
            kind = rng.choice(kinds)
            w = rng.choice(ORTH if nd == 1 else ORTH[:3] if kind != 'm2n' else ORTH[:2])
            L = pywt.Wavelet(w).dec_len
            sh = [rng.randint(L, L + {1: 40, 2: 10, 3: 5}[nd]) for _ in range(nd)]
            b = rng.choice([[], [1], [2], [2, 2]])
            full = b + sh
            axes = list(range(-nd, 0))
            if rng.random() < .4:
                perm = rng.sample(range(len(full)), nd)
                rest = [i for i in range(len(full)) if i not in perm]
                f2 = [0] * len(full)
                for i, v in zip(rest, b):
                    f2[i] = v
                for i, v in zip(perm, sh):
                    f2[i] = v
                full, axes = f2, [i - len(full) if rng.random() < .5 else i for i in perm]
            yield dict(kind=kind, w=w, shape=full, level=rng.choice([1, 1, 2, 3, 5, None]), mode=rng.choice(MODES), meth=rng.choice(['qr', 'qr', 'gramschmidt']), axes=axes, seed=rng.randint(0, 999))
    return gen


def matrix_sizes(sizes, L, level):
    """Sizes of the padded inputs per level, stopping before an axis gets too short."""
    out = []
    cur = list(sizes)
    for _ in range(level):
        if min(cur) < L:
            break
        cur = [c + c % 2 for c in cur]
        out.append(tuple(cur))
        cur = [c // 2 for c in cur]
    return out


def plain_interior(x, ax, dl, dh, exp_len):
    pass


def chk_mat(kind, w, shape, level, mode, meth, axes, seed):
    from ptwt.matmul_transform import construct_boundary_a
    nd = NDIM[kind]
    wa, dl, dh, rl, rh, L = W(w)
    ax = nrm_axes(axes, len(shape))
    x = data(shape, seed)
    sizes = [shape[a] for a in ax]
    k = dict(orthogonalization=meth)
    if kind == 'm1':
        A, S = ptwt.MatrixWavedec(wa, level, axis=axes[0], odd_coeff_padding_mode=mode, **k), ptwt.MatrixWaverec(wa, axis=axes[0], **k)
    elif kind == 'm3':
        A, S = ptwt.MatrixWavedec3(wa, level, axes=tuple(axes), odd_coeff_padding_mode=mode, **k), ptwt.MatrixWaverec3(wa, axes=tuple(axes), **k)
    else:
        A = ptwt.MatrixWavedec2(wa, level, axes=tuple(axes), separable=kind == 'm2', odd_coeff_padding_mode=mode, **k)
        S = ptwt.MatrixWaverec2(wa, axes=tuple(axes), separable=kind == 'm2', **k)
    if mode == 'reflect' and min(sizes) < 2:
        return False
    c = call(f'{kind} analysis', A, x)
    lv = level
    if level is None:
        m = min(s + s % 2 for s in sizes) if nd == 1 else min(sizes)
        lv = max(0, int(np.log2(m / (L - 1))))
    ms = matrix_sizes(sizes, L, lv)
    need(len(c) == len(ms) + 1, f'{len(c) - 1} levels, expected {len(ms)}')
    cc = [c[0]] + [{'d': d} for d in c[1:]] if nd == 1 else t2d(c) if nd == 2 else list(c)
    keys = {''.join(p) for p in itertools.product('ad', repeat=nd)} - {'a' * nd}
    # reference: apply the 1-d boundary matrix (checked on its own) along every axis
    a = npy(x)
    exp = []
    for sz in ms:
        for i, axx in enumerate(ax):
            if a.shape[axx] != sz[i]:
                a = np.moveaxis(O.gather(a, axx, mode, np.arange(sz[i])), -1, axx)
        if kind == 'm2n':
            exp.append(None)
            lead = [a.shape[i] for i in range(a.ndim) if i not in ax]
            bands = None
        else:
            b = {'': a}
            for i, axx in enumerate(ax):
                m = npy(call('matrix', construct_boundary_a, wa, sz[i], orthogonalization=meth).to_dense())
                h = sz[i] // 2
                nb = {}
                for kk, v in b.items():
                    y = np.moveaxis(np.tensordot(m, v, (1, axx)), 0, axx)
                    lo, hi = np.split(y, [h], axx)
                    nb[kk + 'a'], nb[kk + 'd'] = lo, hi
                b = nb
            a = b.pop('a' * nd)
            exp.append(b)
        if kind == 'm2n':
            break
    if kind == 'm1' and not ms and a.shape[ax[0]] % 2:
        # an odd signal is padded even if no level is computed
        a = np.moveaxis(O.gather(a, ax[0], mode, np.arange(a.shape[ax[0]] + 1)), -1, ax[0])
    if kind != 'm2n':
        exp = [a] + exp[::-1]
        if nd == 2:  # known order of the pinned separable code is handled by the caller
            got = cc
            try:
                cmp_coeffs(got, exp, nd, 1e-7)
            except Violation as v:
                sw = [exp[0]] + [{'da': d['ad'], 'ad': d['da'], 'dd': d['dd']} for d in exp[1:]]
                try:
                    cmp_coeffs(got, sw, nd, 1e-7)
                except Violation:
                    raise v
                known('C17-separable-order')
        else:
            cmp_coeffs(cc, exp, nd, 1e-7)
    else:
        # interior coefficients of the non separable transform: plain filters, order h, v, d
        e2 = None
        if ms:
            xx = npy(x)
            for i, axx in enumerate(ax):
                if xx.shape[axx] != ms[0][i]:
                    xx = np.moveaxis(O.gather(xx, axx, mode, np.arange(ms[0][i])), -1, axx)
            pl = O.anan(xx, ax, dl, dh, 'zero')
            # boundary coefficient k uses samples 2k+2-L.. -> offset of plain coefficients
            fine = cc[-1]
            off = L // 4 if False else None
            for key in keys:
                g = np.moveaxis(npy(fine[key]), ax, (-2, -1))
                e = np.moveaxis(pl[key], ax, (-2, -1))
                need(g.shape[-2:] == (ms[0][0] // 2, ms[0][1] // 2), f'band shape {g.shape}')
                # conv matrix row r (odd rows of 'same'): out index start+1+2r, start=L//2-1
                o = (L // 2 - 1 + 1) // 2
                sh = L // 2 - 1 + 1  # full-convolution index of row 0
                # plain coefficient index k has full-convolution index 2k+1
                if (sh - 1) % 2 == 0:
                    k0 = (sh - 1) // 2
                    for r in range(ms[0][0] // 2):
                        for q in range(ms[0][1] // 2):
                            i0, j0 = 2 * (r + k0) + 1, 2 * (q + k0) + 1
                            if i0 - L + 1 >= 0 and i0 < ms[0][0] and j0 - L + 1 >= 0 and j0 < ms[0][1]:
                                close(g[..., r, q], e[..., r + k0, q + k0], 1e-7, f'interior {key}')
    y = call(f'{kind} synthesis', S, c)
    need(all(y.shape[i] == shape[i] or (i in ax and shape[i] % 2 and (len(ms) or nd == 1) and y.shape[i] == shape[i] + 1) for i in range(len(shape))), f'round trip shape {tuple(y.shape)} for {shape}')
    close(y[tuple(slice(0, s) for s in shape)], x, 1e-6, 'round trip')
    # energy preservation of one level = orthogonality
    if len(ms) and all(s % 2 == 0 for m in ms for s in m) and all(m == tuple(s // 2 for s in p) for p, m in zip(ms, ms[1:])) and ms[0] == tuple(sizes):
        e = sum(float((npy(v) ** 2).sum()) for d in cc[1:] for v in d.values()) + float((npy(cc[0]) ** 2).sum())
        need(abs(e - float((npy(x) ** 2).sum())) <= 1e-6 * max(1, e), 'energy is not preserved')
        if nd == 1 or kind == 'm2n':
            op = call('operator', lambda: A.sparse_fwt_operator).to_dense()
            io_ = call('inverse operator', lambda: S.sparse_ifwt_operator).to_dense()
            N = int(np.prod(sizes))
            need(tuple(op.shape) == (N, N), 'operator shape')
            close(io_ @ op, np.eye(N), 1e-6, 'operators invert each other')
            xm = np.moveaxis(npy(x), ax, range(-nd, 0)).reshape((-1,) + tuple(sizes))
            v = xm.reshape(len(xm), -1) if nd == 1 else xm.transpose(0, 2, 1).reshape(len(xm), -1)
            o = v @ npy(op).T
            flat = []
            order = ['d'] if nd == 1 else ['da', 'ad', 'dd']
            for t in [cc[0]] + [d[q] for d in cc[1:] for q in order]:
                t = np.moveaxis(npy(t), ax, range(-nd, 0))
                t = t.reshape((-1,) + t.shape[-nd:])
                flat.append(t.reshape(len(t), -1) if nd == 1 else t.transpose(0, 2, 1).reshape(len(t), -1))
            close(np.concatenate(flat, 1), o, 1e-6, 'operator equals composed transform')
    return True


# ---------------------------------------------------------------- C19
def gen_C19(rng, tier):
    while True:
        kind = rng.choice(['m1', 'm2', 'm2n', 'm3', 'i1', 'i2', 'i2n', 'i3', 'wp', 'wp2'])
        nd = {'1': 1, '2': 2, '3': 3, 'p': 1}[kind.rstrip('n')[-1]]
        calls = []
        for _ in range(rng.randint(2, 5)):
            calls.append(dict(shape=rng.choice([[], [1], [2]]) + [rng.choice([2, 3, 4, 5, 6, 8, 8, 12] if nd < 3 else [2, 4, 5, 6]) for _ in range(nd)], dt=rng.choice(['f8', 'f8', 'f4']), lv=rng.choice([1, 1, 2, 3])))
        if rng.random() < .4:  # repeat a size with another type or level
            calls.append(dict(calls[0], dt=rng.choice(['f8', 'f4']), lv=rng.choice([1, 2])))
        yield dict(kind=kind, w=rng.choice(['haar', 'haar', 'db2']), level=rng.choice([None, None, 1, 2, 3]), calls=calls, seed=rng.randint(0, 999), mode=rng.choice(['boundary', 'boundary', 'zero']))


def outcome(f, *a):
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            return 'ok', f(*a)
    except Exception as e:  # noqa: BLE001
        return 'err', type(e).__name__


def flat(c):
    if isinstance(c, torch.Tensor):
        return [c]
    if isinstance(c, dict):
        return [t for k in sorted(c) for t in [k] + flat(c[k])]
    if isinstance(c, (list, tuple)):
        return [t for v in c for t in flat(v)]
    return [c]


def same(a, b, what, tol=1e-9):
    need(a[0] == b[0], f'{what}: {a} vs fresh {b}' if 'err' in (a[0], b[0]) else what)
    if a[0] == 'err':
        return
    fa, fb = flat(a[1]), flat(b[1])
    need(len(fa) == len(fb), f'{what}: {len(fa)} entries, fresh object {len(fb)}')
    for u, v in zip(fa, fb):
        if isinstance(u, torch.Tensor):
            need(u.dtype == v.dtype, f'{what}: dtype {u.dtype} vs fresh {v.dtype}')
            close(u, v, tol if u.dtype == torch.float64 else 1e-4, what)
        else:
            need(bool(np.all(u == v)) if isinstance(u, np.ndarray) else u == v, what)


def chk_C19(kind, w, level, calls, seed, mode):
    nd = {'1': 1, '2': 2, '3': 3, 'p': 1}[kind.rstrip('n')[-1]]
    axes = tuple(range(-nd, 0))
    if kind.startswith('wp'):
        cls = ptwt.WaveletPacket if kind == 'wp' else ptwt.WaveletPacket2D
        obj = cls(None, w, mode=mode)
        ch = 'ad' if kind == 'wp' else 'ahvd'

        def use(o, x, lv):
            o.transform(x, lv)
            vals = [o[p] for p in O.natural(lv, ch)]
            return vals, o.reconstruct()['']
        for i, c in enumerate(calls):
            lv = c['lv']
            x = data(c['shape'], seed + i, DT[c['dt']])
            same(outcome(use, obj, x, lv), outcome(use, cls(None, w, mode=mode), x, lv), f'call {i} {c}')
        return True
    k2 = 'm' + kind[1:]
    mk = (lambda: mats(k2, w, axes, level)[0]) if kind[0] == 'm' else (lambda: mats(k2, w, axes, 1)[1])
    obj = mk()
    for i, c in enumerate(calls):
        x = data(c['shape'], seed + i, DT[c['dt']])
        if kind[0] == 'i':
            st, x = outcome(mats(k2, w, axes, c['lv'])[0], x)
            if st == 'err':
                continue
        same(outcome(obj, x), outcome(mk(), x), f'call {i} {c}')
    return True


# ---------------------------------------------------------------- C20
def gen_C20(rng, tier):
    while True:
        d2 = rng.random() < .5
        nd = 2 if d2 else 1
        sh = rng.choice([[], [2], [2, 2]]) + [rng.randint(4, 12 if d2 else 24) for _ in range(nd)]
        axes = list(range(-nd, 0))
        if rng.random() < .4:
            axes = rng.sample(range(len(sh)), nd)
            for a in axes:
                sh[a] = rng.randint(4, 10)
        yield dict(d2=d2, shape=sh, axes=axes, w=rng.choice(['haar', 'haar', 'db2']), mode=rng.choice(['boundary'] + MODES), ml=rng.choice([1, 2, 2, 3] if not d2 else [1, 1, 2]),
                   sep=rng.random() < .4, seed=rng.randint(0, 9999), lvnone=rng.random() < .15)


def chk_C20(d2, shape, axes, w, mode, ml, sep, seed, lvnone):
    nd = 2 if d2 else 1
    x = data(shape, seed)
    wa, dl, dh, rl, rh, L = W(w)
    ax = nrm_axes(axes, len(shape))
    sizes = [shape[a] for a in ax]
    if lvnone:
        ml = O.dwt_max_level(min(sizes), L)
        if ml > (2 if d2 else 4) or ml < 1:
            return False
    if mode != 'boundary':
        if not feasible(sizes, L, mode, ml):
            return False
    else:
        cur = list(sizes)
        for _ in range(ml):
            if min(cur) < L:
                return False
            cur = [(c + 1) // 2 for c in cur]
    keys = 'ahvd' if d2 else 'ad'

    def mk():
        if d2:
            return ptwt.WaveletPacket2D(x, wa, mode=mode, maxlevel=None if lvnone else ml, axes=tuple(axes), separable=sep)
        return ptwt.WaveletPacket(x, wa, mode=mode, maxlevel=None if lvnone else ml, axis=axes[0])
    rng = random.Random(seed)
    p = call('construction', mk)
    need(p.maxlevel == ml, f'maxlevel {p.maxlevel} != {ml}')
    paths = [q for lv in range(ml + 1) for q in O.natural(lv, keys)]
    # the root is the data
    close(call('root', lambda: p['']), x, 0, 'root node')
    m2 = {'a': 'aa', 'h': 'da', 'v': 'ad', 'd': 'dd'}

    def step(a, letter):
        if mode != 'boundary':
            return O.anan(a, ax, dl, dh, mode)[m2[letter] if d2 else letter]
        t = torch.from_numpy(np.ascontiguousarray(a))
        if not d2:
            c = ptwt.MatrixWavedec(wa, 1, axis=axes[0])(t)
            return npy(c['ad'.index(letter)])
        c = ptwt.MatrixWavedec2(wa, 1, axes=tuple(axes), separable=sep)(t)
        return npy(([c[0]] + list(c[1]))['ahvd'.index(letter)])
    ref = {'': npy(x)}
    for q in paths[1:]:
        ref[q] = step(ref[q[:-1]], q[-1])
    order = paths[1:]
    rng.shuffle(order)
    if seed % 3 == 0:
        call('initialize', p.initialize, order[:max(1, len(order) // 2)])
    for q in order:
        close(call(f'node {q}', lambda: p[q]), ref[q], 1e-7, f'node {q} (read order {order[:4]}..)')
    try:
        p['a' * (ml + 1)]
        need(False, 'a node below the maximum level was returned')
    except (KeyError, ValueError):
        pass
    # reconstruction after zeroing inner nodes and changing leaves
    leaves = O.natural(ml, keys)
    new = {}
    for q in leaves:
        if rng.random() < .3:
            p[q] = data(ref[q].shape, seed + hash(q) % 1000 if False else seed + sum(map(ord, q)))
        new[q] = npy(p[q])
    inner = {q: ref[q].shape for q in paths if len(q) < ml}
    res = call('reconstruct', p.reconstruct)
    need(res is p, 'reconstruct returns the object')

    def back(prefix):
        if len(prefix) == ml:
            return new[prefix]
        ch = {c: back(prefix + c) for c in keys}
        if mode != 'boundary':
            y = O.synn({m2[c] if d2 else c: v for c, v in ch.items()}, ax, rl, rh)
        else:
            t = {c: torch.from_numpy(np.ascontiguousarray(v)) for c, v in ch.items()}
            if d2:
                y = npy(ptwt.MatrixWaverec2(wa, axes=tuple(axes), separable=sep)((t['a'], WaveletDetailTuple2d(t['h'], t['v'], t['d']))))
            else:
                y = npy(ptwt.MatrixWaverec(wa, axis=axes[0])([t['a'], t['d']]))
        if prefix:
            y = O.crop_to(y, inner[prefix], ax)
        return y
    close(p[''], back(''), 1e-6, 'reconstruction from changed leaves')
    # leaves assigned before their siblings were read
    p = mk()
    new = {q: npy(data(ref[q].shape, seed + 7 + sum(map(ord, q)))) if rng.random() < .4 else ref[q] for q in leaves}
    for q in leaves:
        if new[q] is not ref[q]:
            p[q] = torch.from_numpy(new[q].copy())
    call('initialize', p.initialize, leaves)
    for q in leaves:
        close(p[q], new[q], 1e-7, f'leaf {q} after reading the other leaves')
    call('reconstruct', p.reconstruct)
    close(p[''], back(''), 1e-6, 'reconstruction from leaves assigned first')
    # untouched tree: the data comes back
    p = mk()
    call('initialize', p.initialize, leaves)
    call('reconstruct', p.reconstruct)
    y = p['']
    need(all(y.shape[i] == shape[i] or (i in ax and shape[i] % 2 and y.shape[i] == shape[i] + 1) for i in range(len(shape))), 'reconstruction shape')
    close(y[tuple(slice(0, s) for s in shape)], x, 1e-6, 'reconstruction of the data')
    for q in inner:
        if q:
            close(p[q], ref[q], 1e-6, f'rebuilt inner node {q}')
    if d2 and mode == 'boundary' and sep and np.abs(npy(p['h']) - O_h(x, wa, axes)).max() > 1e-6:
        known('C20-separable-boundary-order')
    return True


def O_h(x, wa, axes):
    return npy(ptwt.MatrixWavedec2(wa, 1, axes=tuple(axes), separable=False)(x)[1][0])


# ---------------------------------------------------------------- C21
def gen_C21(rng, tier):
    for lv in range(0, 15):
        yield dict(d2=False, level=lv)
    for lv in range(0, 9):
        yield dict(d2=True, level=lv)


def chk_C21(d2, level):
    if d2:
        need(list(ptwt.WaveletPacket2D.get_level(level, 'natural')) == O.natural(level, 'ahvd'), f'2-D natural order level {level}')
        need(ptwt.WaveletPacket2D.get_level(level, 'freq') == O.freq2d(level), f'2-D frequency order level {level}')
        need(ptwt.WaveletPacket2D.get_level(level) == O.freq2d(level), 'default order')
    else:
        need(list(ptwt.WaveletPacket.get_level(level, 'natural')) == O.natural(level, 'ad'), f'natural order level {level}')
        need(list(ptwt.WaveletPacket.get_level(level, 'freq')) == O.gray(level, 'a', 'd'), f'frequency order level {level}')
        need(list(ptwt.WaveletPacket.get_level(level)) == O.gray(level, 'a', 'd'), 'default order')
    return True


# ---------------------------------------------------------------- C22
def snap(o):
    if isinstance(o, torch.Tensor):
        return ('t', id(o), tuple(o.shape), o.dtype, o.is_sparse, o.to_dense().detach().clone(), o.stride() if not o.is_sparse else None)
    if isinstance(o, dict):
        return ('d', id(o), [(k, snap(v)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return ('l', id(o), [snap(v) for v in o])
    if isinstance(o, np.ndarray):
        return ('n', id(o), o.copy())
    if isinstance(o, RandWavelet):
        return ('w', copy.deepcopy(o.__dict__))
    return ('o', None)


def snap_eq(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 't':
        return a[1:5] == b[1:5] and a[6] == b[6] and torch.equal(torch.nan_to_num(a[5]), torch.nan_to_num(b[5]))
    if a[0] == 'd':
        return a[1] == b[1] and [k for k, _ in a[2]] == [k for k, _ in b[2]] and all(snap_eq(x[1], y[1]) for x, y in zip(a[2], b[2]))
    if a[0] == 'l':
        return a[1] == b[1] and len(a[2]) == len(b[2]) and all(snap_eq(x, y) for x, y in zip(a[2], b[2]))
    if a[0] == 'n':
        return a[1] == b[1] and np.array_equal(a[2], b[2])
    return a == b


def calls_for(c, rng_seed):
    """(name, function, args, kwargs) for every public function."""
    rng = random.Random(rng_seed)
    dt = DT[c['dt']]
    w = W(c['w'], dt)[0]
    nd = c['nd']
    sh = c['shape']
    x = data(sh, rng_seed, dt, rng.randint(0, 1))
    mode, lv = c['mode'], c['level']
    ax1 = rng.randint(-len(sh), len(sh) - 1)
    out = [('wavedec', ptwt.wavedec, (x, w), dict(mode=mode, level=lv, axis=ax1)),
           ('swt', ptwt.swt, (x, w, lv), dict(axis=ax1))]
    with contextlib.suppress(Exception):
        out.append(('waverec', ptwt.waverec, (ptwt.wavedec(x, w, mode=mode, level=lv, axis=ax1), w), dict(axis=ax1)))
        out.append(('iswt', ptwt.iswt, (ptwt.swt(x, w, lv, axis=ax1), w), dict(axis=ax1)))
    for d, fs in ((2, [(ptwt.wavedec2, ptwt.waverec2), (ptwt.fswavedec2, ptwt.fswaverec2)]), (3, [(ptwt.wavedec3, ptwt.waverec3), (ptwt.fswavedec3, ptwt.fswaverec3)])):
        if len(sh) < d:
            continue
        axs = rng.choice([list(range(-d, 0)), rng.sample(range(len(sh)), d)])
        axs = tuple(axs) if rng.random() < .5 else list(axs)
        for f, g in fs:
            out.append((f.__name__, f, (x, w), dict(mode=mode, level=lv, axes=axs)))
            with contextlib.suppress(Exception):
                out.append((g.__name__, g, (f(x, w, mode=mode, level=lv, axes=axs), w), dict(axes=axs)))
    for kind in ['m1', 'm2', 'm2n', 'm3']:
        d = NDIM[kind]
        if len(sh) < d or lv == 0:
            continue
        axs = tuple(rng.sample(range(len(sh)), d)) if rng.random() < .5 else tuple(range(-d, 0))
        with contextlib.suppress(Exception):
            A, S = mats(kind, W(rng.choice(['haar', 'db2']))[0], axs, lv, odd_coeff_padding_mode=mode)
            out.append((kind + ' analysis', A, (x,), {}))
            with contextlib.redirect_stderr(io.StringIO()):
                out.append((kind + ' synthesis', S, (A(x),), {}))
    a, b = spm([3, 3], rng_seed, .6, dt), spm([2, 4], rng_seed + 1, .6, dt)
    out += [('sparse_kron', SMX.sparse_kron, (a, b), {}), ('sparse_kron', SMX.sparse_kron, (b, a), {}),
            ('cat_sparse_identity_matrix', SMX.cat_sparse_identity_matrix, (a, 5), {}),
            ('sparse_diag', SMX.sparse_diag, (data([3], 1, dt), rng.choice([-1, 0, 2]), 4, 3), {}),
            ('sparse_replace_row', SMX.sparse_replace_row, (a, 1, spm([1, 3], 4, .7, dt)), {}),
            ('batch_mm', SMX.batch_mm, (a, data([2, 3, 2], 1, dt)), {}),
            ('construct_strided_conv_matrix', SMX.construct_strided_conv_matrix, (data([2], 1, dt), 6), dict(mode='sameshift')),
            ('construct_conv2d_matrix', SMX.construct_conv2d_matrix, (data([2, 2], 1, dt), 4, 5), dict(mode='full'))]
    from ptwt.matmul_transform import orthogonalize
    om = torch.from_numpy(np.array([[1., 2, 3], [0, 1, 2], [1, 0, -1.]])).to_sparse()
    out += [('orthogonalize', orthogonalize, (om, 3, m), {}) for m in ('qr', 'gramschmidt')]
    sc = np.arange(1, 6) if rng.random() < .5 else torch.arange(1, 6)
    out.append(('cwt', ptwt.continuous_transform.cwt, (data([2, 24], 3, dt), sc, rng.choice(['mexh', 'cmor1.5-1.0', 'gaus2'])), {}))

    def packet(y):
        p = ptwt.WaveletPacket(y, 'haar', mode=rng.choice(['zero', 'boundary']), maxlevel=1, axis=ax1)
        p['a'], p['d']
        return p.reconstruct()['']
    out.append(('packet', packet, (x,), {}))
    if len(sh) > 1:
        def packet2(y):
            p = ptwt.WaveletPacket2D(y, 'haar', mode=rng.choice(['zero', 'boundary']), maxlevel=1)
            p['a'], p['d']
            return p.reconstruct()['']
        out.append(('packet2', packet2, (x,), {}))
    return out


def gen_C22(rng, tier):
    while True:
        nd = rng.choice([1, 2, 3, 4])
        yield dict(nd=nd, shape=[rng.choice([4, 5, 6, 8]) if nd < 4 else rng.choice([2, 4, 5]) for _ in range(nd)], w=rng.choice(['haar', 'db2', 'tuple/db2', 'rand:4:1', 'haar']), mode=rng.choice(MODES),
                   level=rng.choice([1, 2, 1, 0]), dt=rng.choice(['f8', 'f8', 'f4']), seed=rng.randint(0, 99999))


def single_calls(kind, w, mode, shape, level, axes, dt, seed=1, wav=None, device=None, **_):
    """One transform and its inverse with the same arguments, as suggested by a counter-model."""
    d = DT[dt]
    x = data(shape, seed, d)
    wa = WaveletTensorTuple.from_wavelet(W(w)[0], torch.float64 if wav == 'foreign' else d) if wav in ('tuple', 'foreign') else W(w, d)[0]
    if kind == 'swt':
        f, g = ptwt.swt, ptwt.iswt
        kf, kg = dict(level=level, axis=axes[0]), dict(axis=axes[0])
    else:
        f, g = {'c1': (ptwt.wavedec, ptwt.waverec), 'c2': (ptwt.wavedec2, ptwt.waverec2), 'c3': (ptwt.wavedec3, ptwt.waverec3),
                's2': (ptwt.fswavedec2, ptwt.fswaverec2), 's3': (ptwt.fswavedec3, ptwt.fswaverec3)}[kind]
        kg = dict(axis=axes[0]) if kind == 'c1' else dict(axes=tuple(axes))
        kf = dict(kg, mode=mode, level=level)
    st, c = outcome(lambda: f(x, wa, **kf))
    if st != 'ok':
        return []
    return [(f.__name__, f, (x, wa), kf), (g.__name__, g, (c, wa), kg), (g.__name__, g, (tuple(c), wa), kg), (g.__name__, g, (list(c), wa), kg)]


def chk_C22(nd=None, shape=None, w=None, mode=None, level=None, dt='f8', seed=1, **model):
    c = dict(nd=nd, shape=shape, w=w, mode=mode, level=level, dt=dt)
    for name, f, a, k in single_calls(w=w, mode=mode, shape=shape, level=level, dt=dt, seed=seed, **model) if model else calls_for(c, seed):
        s0 = [snap(v) for v in a] + [snap(v) for v in k.values()]
        r1 = outcome(f, *a) if not k else outcome(lambda: f(*a, **k))
        s1 = [snap(v) for v in a] + [snap(v) for v in k.values()]
        need(all(snap_eq(u, v) for u, v in zip(s0, s1)), f'{name} modified its arguments ({"raised" if r1[0] == "err" else "returned"})')
        if name.startswith('packet'):
            continue
        r2 = outcome(lambda: f(*a, **k))
        same(r2, r1, f'{name}: second identical call', 1e-12)
        # results must not share writable storage with the input in a way that writing the result changes it
    return True


# ---------------------------------------------------------------- C23
def grow(t, *d):
    n = [a + b for a, b in zip(t.shape, [0] * (t.dim() - len(d)) + list(d))]
    return torch.randn(n, dtype=t.dtype)


def bad_calls(seed):
    rng = random.Random(seed)
    x1 = torch.randn(2, 8, dtype=torch.float64)
    x2 = torch.randn(2, 8, 8, dtype=torch.float64)
    x3 = torch.randn(2, 8, 8, 8, dtype=torch.float64)
    w = rng.choice(['haar', 'db2'])
    X = {1: x1, 2: x2, 3: x3}
    F = {1: [ptwt.wavedec, ptwt.swt], 2: [ptwt.wavedec2, ptwt.fswavedec2], 3: [ptwt.wavedec3, ptwt.fswavedec3]}
    bad = []
    good = []
    for d in (1, 2, 3):
        axname = 'axis' if d == 1 else 'axes'
        mk = {1: [lambda: ptwt.MatrixWavedec('haar', 1)], 2: [lambda s=s: ptwt.MatrixWavedec2('haar', 1, separable=s) for s in (True, False)], 3: [lambda: ptwt.MatrixWavedec3('haar', 1)]}[d]
        fs = [(f.__name__, (lambda x, f=f, **k: f(x, w, level=1, **k))) for f in F[d]] + [('Matrix%d' % d, (lambda x, m=m, **k: m()(x))) for m in mk]
        for n, f in fs:
            good.append((n, lambda f=f, d=d: f(X[d])))
            good.append((n + ' float32', lambda f=f, d=d: f(X[d].float())))
            for dt in (torch.int32, torch.int64, torch.float16, torch.complex64, torch.bool, torch.bfloat16):
                bad.append((f'{n} dtype {dt}', lambda f=f, d=d, dt=dt: f(X[d].to(dt))))
            bad.append((f'{n} non tensor', lambda f=f, d=d: f(X[d].numpy())))
            if d > 1:
                bad.append((f'{n} too few dimensions', lambda f=f, d=d: f(torch.randn([8] * (d - 1), dtype=torch.float64))))
        for n, f in fs[:2]:
            for a in {1: [(0, 1), (0, 0)], 2: [(0, 0), (-1, 2), (0,), (0, 1, 2), 1, (1, 1)], 3: [(0, 0, 1), (1, 1, 1), (-1, 3, 0), (0, 1), 2, (0, 1, 2, 3), (1, 2, 1)]}[d]:
                bad.append((f'{n} axes {a}', lambda f=f, d=d, a=a, axname=axname: f(X[d], **{axname: a})))
            if 'swt' not in n:
                bad.append((f'{n} mode', lambda f=f, d=d: f(X[d], mode='nonsense')))
        for a in {2: [(0, 0), (0,), (0, 1, 2), 1], 3: [(0, 0, 1), (0, 1), 2, (1, 2, 1)]}.get(d, [(0, 1)]):
            cls = [getattr(ptwt, f'Matrix{s}{d if d > 1 else ""}') for s in ('Wavedec', 'Waverec')]
            for c in cls:
                bad.append((f'{c.__name__} axes {a}', lambda c=c, a=a, axname=axname: c('haar', **{axname: a})))
        if d > 1:
            bad.append((f'Matrix{d} negative duplicate axes', lambda d=d: mats(f'm{d}', 'haar', {2: (-1, 2), 3: (-1, 3, 1)}[d], 1)[0](X[d])))
        for c in [getattr(ptwt, f'Matrix{s}{d if d > 1 else ""}') for s in ('Wavedec', 'Waverec')]:
            bad.append((f'{c.__name__} orthogonalization', lambda c=c: c('haar', orthogonalization='nonsense')))
            good.append((f'{c.__name__} gramschmidt', lambda c=c: c('haar', orthogonalization='gramschmidt')))
        A = getattr(ptwt, f'MatrixWavedec{d if d > 1 else ""}')
        for lv in (0, -1):
            bad.append((f'{A.__name__} level {lv}', lambda A=A, lv=lv, d=d: A('haar', lv)(X[d])))
    for cls in (ptwt.WaveletPacket, ptwt.WaveletPacket2D):
        bad += [(f'{cls.__name__} order', lambda cls=cls: cls.get_level(2, 'nonsense')), (f'{cls.__name__} orthogonalization', lambda cls=cls: cls(x2, 'haar', orthogonalization='x')),
                (f'{cls.__name__} mode', lambda cls=cls: cls(x2, 'haar', mode='nonsense', maxlevel=1)['a']), (f'{cls.__name__} key', lambda cls=cls: cls(x2, 'haar', maxlevel=2)['ax']),
                (f'{cls.__name__} deep key', lambda cls=cls: cls(x2, 'haar', maxlevel=1)['aa']), (f'{cls.__name__} uninitialised', lambda cls=cls: cls(None, 'haar')['a']),
                (f'{cls.__name__} missing leaves', lambda cls=cls: cls(x2, 'haar', maxlevel=1).reconstruct()), (f'{cls.__name__} axes', lambda cls=cls: cls(x2, 'haar', **({'axis': (0, 1)} if cls is ptwt.WaveletPacket else {'axes': (1, 1)})))]
    # coefficient structures
    I = {'waverec': lambda c: ptwt.waverec(c, w), 'iswt': lambda c: ptwt.iswt(c, w), 'MatrixWaverec': lambda c: ptwt.MatrixWaverec('haar')(c)}
    c1 = ptwt.wavedec(x1, w, level=2, mode='zero')
    s1 = ptwt.swt(x1, w, 2)
    for n, f in I.items():
        c = s1 if n == 'iswt' else ptwt.MatrixWavedec('haar', 2)(x1) if n[0] == 'M' else c1
        good += [(n, lambda f=f, c=c: f(c)), (n + ' tuple', lambda f=f, c=c: f(tuple(c)))]
        for pos in range(3):
            bad.append((f'{n} mixed dtype {pos}', lambda f=f, c=c, pos=pos: f([t.float() if i == pos else t for i, t in enumerate(c)])))
            bad.append((f'{n} mixed device {pos}', lambda f=f, c=c, pos=pos: f([t.to('meta') if i == pos else t for i, t in enumerate(c)])))
        bad += [(f'{n} int', lambda f=f, c=c: f([t.long() for t in c])), (f'{n} first not tensor', lambda f=f, c=c: f([c[0].numpy()] + c[1:])),
                (f'{n} details wrong type', lambda f=f, c=c: f([c[0], c[1].numpy(), c[2]]))]
        for pos in range(3):
            bad.append((f'{n} batch {pos}', lambda f=f, c=c, pos=pos: f([t[:1] if i == pos else t for i, t in enumerate(c)])))
            if n == 'iswt':
                bad.append((f'{n} lengths {pos}', lambda f=f, c=c, pos=pos: f([t[..., :-1] if i == pos else t for i, t in enumerate(c)])))
        if n != 'iswt':
            bad.append((f'{n} lengths', lambda f=f, c=c: f([c[0][..., :-1], c[1], c[2]])))
            bad.append((f'{n} lengths 2', lambda f=f, c=c: f([c[0], c[1], c[2][..., :-2]])))
    y2 = torch.randn(2, 8, 8, dtype=torch.float64)
    mats2 = [('waverec2', lambda c: ptwt.waverec2(c, w), ptwt.wavedec2(y2, w, level=2, mode='zero'))]
    mats2 += [(f'MatrixWaverec2 {s}', lambda c, s=s: ptwt.MatrixWaverec2('haar', separable=s)(c), ptwt.MatrixWavedec2('haar', 2, separable=s)(y2)) for s in (True, False)]
    for n, f, c in mats2:
        good.append((n, lambda f=f, c=c: f(c)))
        T = type(c[1])
        for what, sl in (('', None), (' no batch', 0), (' two batch dimensions', 1)):  # the data passed on differs with the number of batch dimensions
            cut = lambda t, sl=sl: t if sl is None else t[0] if sl == 0 else t[None]  # noqa: E731
            cc = (cut(c[0]), *[T(*[cut(t) for t in d]) for d in c[1:]])
            for lev in (1, 2):
                bad.append((f'{n} 4-tuple at {lev}{what}', lambda f=f, cc=cc, lev=lev: f(tuple(tuple(d) + (d[0],) if i == lev else d for i, d in enumerate(cc)))))
                bad.append((f'{n} pair at {lev}{what}', lambda f=f, cc=cc, lev=lev: f(tuple(tuple(d)[:2] if i == lev else d for i, d in enumerate(cc)))))
        bad += [(f'{n} list detail', lambda f=f, c=c: f((c[0], list(c[1]), c[2]))), (f'{n} dict detail', lambda f=f, c=c: f((c[0], dict(zip('hvd', c[1])), c[2]))),
                (f'{n} tensor detail', lambda f=f, c=c: f((c[0], c[1][0], c[2]))), (f'{n} pair', lambda f=f, c=c: f((c[0], tuple(c[1][:2]), c[2]))),
                (f'{n} approx missing', lambda f=f, c=c: f((c[1], c[2]))), (f'{n} int', lambda f=f, c=c: f((c[0].long(), *[T(*[t.long() for t in d]) for d in c[1:]])))]
        for pos in range(3):
            for lev in (1, 2):
                def alt(g, c=c, lev=lev, pos=pos, T=T):
                    return tuple(T(*[g(t) if j == pos else t for j, t in enumerate(d)]) if i == lev else d for i, d in enumerate(c))
                bad += [(f'{n} shape level {lev} band {pos}', lambda f=f, alt=alt: f(alt(lambda t: t[..., :-1]))), (f'{n} rows level {lev} band {pos}', lambda f=f, alt=alt: f(alt(lambda t: t[..., :-1, :]))),
                        (f'{n} dtype level {lev} band {pos}', lambda f=f, alt=alt: f(alt(lambda t: t.float()))), (f'{n} device level {lev} band {pos}', lambda f=f, alt=alt: f(alt(lambda t: t.to('meta')))),
                        (f'{n} batch level {lev} band {pos}', lambda f=f, alt=alt: f(alt(lambda t: t[:1])))]
        bad += [(f'{n} approx shape', lambda f=f, c=c: f((c[0][..., :-1], *c[1:]))), (f'{n} approx rows', lambda f=f, c=c: f((c[0][..., :-1, :], *c[1:])))]
        bad += [(f'{n} approx larger {d}', lambda f=f, c=c, d=d: f((grow(c[0], *d), *c[1:]))) for d in ((1,), (2,), (1, 0), (1, 0, 0))]
    y3 = torch.randn(2, 8, 8, 8, dtype=torch.float64)
    mats3 = [('waverec3', lambda c: ptwt.waverec3(c, w), ptwt.wavedec3(y3, w, level=2, mode='zero')), ('MatrixWaverec3', lambda c: ptwt.MatrixWaverec3('haar')(c), ptwt.MatrixWavedec3('haar', 2)(y3))]
    for n, f, c in mats3:
        good.append((n, lambda f=f, c=c: f(c)))
        ks = sorted(c[1])
        bad += [(f'{n} tuple detail', lambda f=f, c=c: f((c[0], tuple(c[1].values()), c[2]))), (f'{n} tensor detail', lambda f=f, c=c: f((c[0], c[1]['aad'], c[2]))), (f'{n} approx missing', lambda f=f, c=c: f((c[1], c[2])))]
        for k in ks:
            for lev in (1, 2):
                def alt(g, c=c, lev=lev, k=k):
                    return tuple({q: (g(t) if q == k else t) for q, t in d.items()} if i == lev else d for i, d in enumerate(c))
                bad += [(f'{n} missing {k}', lambda f=f, c=c, k=k, lev=lev: f(tuple({q: t for q, t in d.items() if q != k} if i == lev else d for i, d in enumerate(c)))),
                        (f'{n} shape {k} {lev}', lambda f=f, alt=alt: f(alt(lambda t: t[..., :-1]))), (f'{n} dtype {k} {lev}', lambda f=f, alt=alt: f(alt(lambda t: t.float()))),
                        (f'{n} device {k} {lev}', lambda f=f, alt=alt: f(alt(lambda t: t.to('meta')))),
                        (f'{n} batch {k} {lev}', lambda f=f, alt=alt: f(alt(lambda t: t[:1]))), (f'{n} one row {k} {lev}', lambda f=f, alt=alt: f(alt(lambda t: t[..., :1, :]))),
                        (f'{n} one plane {k} {lev}', lambda f=f, alt=alt: f(alt(lambda t: t[..., :1, :, :]))), (f'{n} one column {k} {lev}', lambda f=f, alt=alt: f(alt(lambda t: t[..., :1])))]
        bad += [(f'{n} approx larger {d}', lambda f=f, c=c, d=d: f((grow(c[0], *d), *c[1:]))) for d in ((1,), (2,), (1, 0), (1, 0, 0), (2, 0, 0), (1, 0, 0, 0))]
        bad += [(f'{n} approx batch', lambda f=f, c=c: f((c[0][:1], *c[1:]))), (f'{n} approx shape', lambda f=f, c=c: f((c[0][..., :-1], *c[1:]))), (f'{n} approx rows', lambda f=f, c=c: f((c[0][..., :-1, :], *c[1:])))]
        bad += [(f'{n} int', lambda f=f, c=c: f((c[0].long(), *[{k: t.long() for k, t in d.items()} for d in c[1:]])))]
    for n, f, c in [('fswaverec2', lambda c: ptwt.fswaverec2(c, w), ptwt.fswavedec2(y2, w, level=2, mode='zero')), ('fswaverec3', lambda c: ptwt.fswaverec3(c, w), ptwt.fswavedec3(y3, w, level=1, mode='zero'))]:
        good.append((n, lambda f=f, c=c: f(c)))
        bad += [(f'{n} tuple detail', lambda f=f, c=c: f((c[0], tuple(c[1].values()), *c[2:]))), (f'{n} tensor detail', lambda f=f, c=c: f((c[0], next(iter(c[1].values())), *c[2:]))),
                (f'{n} approx missing', lambda f=f, c=c: f(tuple(c[1:]))), (f'{n} dtype', lambda f=f, c=c: f((c[0].float(), *c[1:]))), (f'{n} int', lambda f=f, c=c: f((c[0].long(), *[{k: t.long() for k, t in d.items()} for d in c[1:]])))]
        for k in c[1]:
            bad.append((f'{n} dtype {k}', lambda f=f, c=c, k=k: f((c[0], {q: (t.float() if q == k else t) for q, t in c[1].items()}, *c[2:]))))
            bad.append((f'{n} device {k}', lambda f=f, c=c, k=k: f((c[0], {q: (t.to('meta') if q == k else t) for q, t in c[1].items()}, *c[2:]))))
            bad.append((f'{n} missing {k}', lambda f=f, c=c, k=k: f((c[0], {q: t for q, t in c[1].items() if q != k}, *c[2:]))))
            for what, g in (('batch', lambda t: t[:1]), ('column', lambda t: t[..., :-1]), ('row', lambda t: t[..., :-1, :]), ('one column', lambda t: t[..., :1]), ('one row', lambda t: t[..., :1, :])):
                bad.append((f'{n} {what} {k}', lambda f=f, c=c, k=k, g=g: f((c[0], {q: (g(t) if q == k else t) for q, t in c[1].items()}, *c[2:]))))
        for what, g in (('batch', lambda t: t[:1]), ('column', lambda t: t[..., :-1]), ('row', lambda t: t[..., :-1, :])):
            bad.append((f'{n} approx {what}', lambda f=f, c=c, g=g: f((g(c[0]), *c[1:]))))
        bad += [(f'{n} approx larger {d}', lambda f=f, c=c, d=d: f((grow(c[0], *d), *c[1:]))) for d in ((1,), (2,), (1, 0), (2, 0))]
        bad += [(f'{n} {k} larger {d}', lambda f=f, c=c, d=d, k=k: f((c[0], {**c[1], k: grow(c[1][k], *d)}, *c[2:]))) for d in ((1,), (1, 0)) for k in c[1]]
    # batch dimensions that only agree after folding
    yb = {1: torch.randn(2, 3, 8, dtype=torch.float64), 2: torch.randn(2, 3, 8, 8, dtype=torch.float64), 3: torch.randn(2, 3, 8, 8, 8, dtype=torch.float64)}
    B = [('waverec', 1, lambda x: ptwt.wavedec(x, w, level=2), lambda c: ptwt.waverec(c, w)), ('iswt', 1, lambda x: ptwt.swt(x, w, 2), lambda c: ptwt.iswt(c, w)),
         ('MatrixWaverec', 1, lambda x: ptwt.MatrixWavedec('haar', 2)(x), lambda c: ptwt.MatrixWaverec('haar')(c)),
         ('waverec2', 2, lambda x: ptwt.wavedec2(x, w, level=1), lambda c: ptwt.waverec2(c, w)), ('fswaverec2', 2, lambda x: ptwt.fswavedec2(x, w, level=1), lambda c: ptwt.fswaverec2(c, w)),
         ('waverec3', 3, lambda x: ptwt.wavedec3(x, w, mode='zero', level=1), lambda c: ptwt.waverec3(c, w)), ('fswaverec3', 3, lambda x: ptwt.fswavedec3(x, w, mode='zero', level=1), lambda c: ptwt.fswaverec3(c, w)),
         ('MatrixWaverec3', 3, lambda x: ptwt.MatrixWavedec3('haar', 1)(x), lambda c: ptwt.MatrixWaverec3('haar')(c))]
    B += [(f'MatrixWaverec2 {s}', 2, lambda x, s=s: ptwt.MatrixWavedec2('haar', 1, separable=s)(x), lambda c, s=s: ptwt.MatrixWaverec2('haar', separable=s)(c)) for s in (True, False)]
    for n, d, ana, f in B:
        c = list(ana(yb[d]))
        good.append((n + ' batch', lambda f=f, c=c, d=d: f(c if d == 1 else tuple(c))))
        for pos in range(len(c)):
            for shp in ([3, 2], [6], [1, 6], [1, 2, 3]):
                def re(t, d=d, shp=shp):
                    return t.reshape(shp + list(t.shape[t.dim() - d:]))

                def some(v, re=re):  # one tensor of the entry
                    if isinstance(v, torch.Tensor):
                        return re(v)
                    if isinstance(v, dict):
                        k = sorted(v)[seed % len(v)]
                        return {**v, k: re(v[k])}
                    return type(v)(*[re(t) if j == seed % 3 else t for j, t in enumerate(v)])
                bad.append((f'{n} batch shape {shp} of entry {pos}', lambda f=f, c=c, pos=pos, some=some, d=d: f((list if d == 1 else tuple)(some(v) if i == pos else v for i, v in enumerate(c)))))
    bad += [('conv mode', lambda: SMX.construct_conv_matrix(torch.randn(3), 5, mode='x')), ('conv2 mode', lambda: SMX.construct_conv2d_matrix(torch.randn(3, 3), 5, 5, mode='x')),
            ('strided conv2 mode', lambda: SMX.construct_strided_conv2d_matrix(torch.randn(3, 3), 5, 5, mode='x')), ('cat non square', lambda: SMX.cat_sparse_identity_matrix(torch.randn(2, 3).to_sparse(), 5)),
            ('cat shrink', lambda: SMX.cat_sparse_identity_matrix(torch.eye(4).to_sparse(), 3)), ('cat dense', lambda: SMX.cat_sparse_identity_matrix(torch.eye(4), 5)),
            ('replace row size', lambda: SMX.sparse_replace_row(torch.eye(4).to_sparse(), 1, torch.ones(1, 3).to_sparse())), ('batch_mm shapes', lambda: SMX.batch_mm(torch.eye(4), torch.randn(2, 3, 5))),
            ('orthogonalize method', lambda: ptwt.matmul_transform.orthogonalize(torch.tensor([[1., 0.], [1., 1.]]).to_sparse(), 2, 'nope'))]
    return bad, good


def gen_C23(rng, tier):
    for i in range(6 if tier == 'quick' else 40):
        yield dict(seed=rng.randint(0, 9999))


def chk_C23(seed):
    bad, good = bad_calls(seed)
    for n, f in good:
        call('valid call ' + n, f)
    for n, f in bad:
        st, r = outcome(f)
        need(st == 'err', f'malformed call accepted: {n}')
    return len(bad) + len(good)


# ---------------------------------------------------------------- C24
def cwt_wavelet(w, kind):
    """the wavelet as the caller gives it, and as the definition reads it"""
    cont = w in pywt.wavelist(kind='continuous') or '-' in w
    ref = pywt.ContinuousWavelet(w) if cont else pywt.Wavelet(w)
    if kind == 'diff':
        from ptwt import continuous_transform as ct
        ref = (ct._ShannonWavelet if w.startswith('shan') else ct._ComplexMorletWavelet)(w)
        return ref, ref
    return w if kind == 'name' else ref, ref


def cwt_ref(x, scales, wv, precision):
    fa = wv.wavefun(precision)
    if isinstance(fa[0], torch.Tensor):
        fa = [npy(a.detach()) for a in fa]
    if len(fa) == 2:
        psi, t = fa
    elif len(fa) == 3:
        _, psi, t = fa
    else:
        return None
    step = t[1] - t[0]
    ip = np.cumsum(psi) * step
    cc = isinstance(wv, pywt.ContinuousWavelet) and wv.complex_cwt
    if cc:
        ip = np.conj(ip)
    out = []
    for s in scales:
        j = np.floor(np.arange(s * (t[-1] - t[0]) + 1) / (s * step)).astype(int)
        j = j[j < len(ip)]
        h = ip[j][::-1]
        co = []
        for row in x.reshape(-1, x.shape[-1]):
            c = -np.sqrt(s) * np.diff(np.convolve(row, h))
            d = (len(c) - len(row)) / 2.
            if d > 0:
                c = c[int(np.floor(d)):-int(np.ceil(d))]
            elif d < 0:
                return 'small'
            co.append(c)
        out.append(np.array(co).reshape(x.shape))
    out = np.stack(out)
    return out if cc else out.real


def gen_C24(rng, tier):
    ws = ['mexh', 'morl', 'gaus3', 'cmor1.5-1.0', 'shan1.5-1.0', 'fbsp1-1.5-1.0', 'cgau2', 'db3', 'sym4']
    while True:
        k = rng.choice([1, 1, 2, 3, 5, 8])
        sc = [rng.choice([1, 2, 3, 4, 5, 8, 12, 1.5, 2.7, 20]) for _ in range(k)]
        if rng.random() < .4:
            sc = sorted(sc, reverse=rng.random() < .5)
        w = rng.choice(ws)
        kinds = ['obj', 'name'] + (['diff'] * 2 if w[:4] in ('cmor', 'shan') else [])
        n = rng.choice([rng.randint(3, 70), rng.randint(3, 70), rng.randint(71, 300), 2 ** rng.randint(3, 8) + rng.randint(-1, 1)])
        yield dict(shape=rng.choice([[], [2], [2, 2], [1], [3, 1, 2]]) + [n], scales=sc, w=w, prec=rng.choice([8, 8, 9, 10, 12]), sp=rng.choice([1.0, .5, 2.0, 3]),
                   st=rng.choice(['np', 'torch', 'scalar', 'npint' if all(float(q).is_integer() for q in sc) else 'np']), seed=rng.randint(0, 9999),
                   kind=rng.choice(kinds), dt=rng.choice(['float64', 'float64', 'float64', 'float32']))


def chk_C24(shape, scales, w, prec, sp, st, seed, kind='obj', dt='float64'):
    from ptwt.continuous_transform import cwt
    x = data(shape, seed)
    if dt == 'float32':
        x = x.float()
        scales = [s for s in scales if float(s).is_integer()] or [2]  # the sampling positions are exact
    if st == 'scalar':
        scales = scales[:1]
        arg = scales[0]
    elif st == 'npint' and all(float(s).is_integer() for s in scales):
        scales = [int(s) for s in scales]
        arg = np.array(scales)
    else:
        arg = np.array(scales, dtype=float) if st != 'torch' else torch.tensor(scales, dtype=torch.float64)
    wav, rw = cwt_wavelet(w, kind)
    ref = cwt_ref(npy(x).astype(float), scales, rw, prec)
    if ref is None:
        return False
    before = npy(x).copy(), np.array(arg, dtype=float).copy()
    if isinstance(ref, str):
        st_, _ = outcome(lambda: cwt(x, arg, wav, sampling_period=sp, precision=prec))
        need(st_ == 'err', 'too small scale accepted')
        return True
    r, f = call('cwt', cwt, x, arg, wav, sampling_period=sp, precision=prec)
    g = r.detach().numpy()
    need(g.shape == ref.shape, f'shape {g.shape} != {ref.shape}')
    need(np.iscomplexobj(g) == np.iscomplexobj(ref), 'complex/real')
    need(g.real.dtype == dt, f'{g.dtype} values for {dt} data')
    need(np.array_equal(before[0], npy(x)) and np.array_equal(before[1], np.array(arg, dtype=float)), 'an argument was modified')
    tol = 1e-6 if dt == 'float64' else 1e-3
    need(np.abs(g - ref).max() <= tol * max(1, np.abs(ref).max()), f'cwt values differ by {np.abs(g - ref).max():.3g}')
    wv = rw if isinstance(rw, pywt.ContinuousWavelet) else pywt.DiscreteContinuousWavelet(w)
    with torch.no_grad():
        ef = np.array([float(pywt.scale2frequency(wv, s, prec)) for s in scales]) / sp
    close(np.asarray(f), ef, 1e-9, 'frequencies')
    return True


# ---------------------------------------------------------------- C25
def gen_C25(rng, tier):
    for w in pywt.wavelist(kind='discrete'):
        if pywt.Wavelet(w).dec_len <= 40 and (tier != 'quick' or rng.random() < .35):
            yield dict(w=w, seed=0, per=0)
    while True:
        yield dict(w=rng.choice(['haar', 'db2', 'bior2.2', 'db5', 'rand:%d:%d' % (2 * rng.randint(1, 8), rng.randint(0, 999))]), seed=rng.randint(0, 999), per=rng.randint(0, 4))


def chk_C25(w, seed, per):
    from ptwt.wavelets_learnable import ProductFilter, SoftOrthogonalWavelet
    _, dl, dh, rl, rh, L = W(w)
    fb = [np.array(f, dtype=float) for f in (dl, dh, rl, rh)]
    if per:
        fb[per - 1] = fb[per - 1].copy()
        fb[per - 1][seed % L] += .25
    dl, dh, rl, rh = fb
    t = [torch.tensor(f) for f in fb]
    sgn = (-1.0) ** np.arange(L)[::-1]
    ac = np.convolve(dl * sgn, rl) + np.convolve(dh * sgn, rh)
    pr = np.convolve(dl, rl) + np.convolve(dh, rh)
    pr[L - 1] -= 2
    eac, epr = (ac ** 2).sum(), (pr ** 2).sum()
    for cls in (ProductFilter, SoftOrthogonalWavelet):
        o = cls(*t)
        need(len(o) == L, 'length')
        a = call('alias loss', o.alias_cancellation_loss)
        p = call('pr loss', o.perfect_reconstruction_loss)
        close(a[0].reshape(()), eac, 1e-9, 'alias cancellation loss')
        close(p[0].reshape(()), epr, 1e-9, 'perfect reconstruction loss')
        close(o.product_filter_loss().reshape(()), eac + epr, 1e-9, 'product filter loss')
        pf = call('pf loss', o.pf_alias_cancellation_loss)[0]
        close(pf.reshape(()), ((rl - sgn * dh) ** 2).sum() + ((rh + sgn * dl) ** 2).sum(), 1e-9, 'pf alias loss')
        if cls is ProductFilter:
            close(o.wavelet_loss().reshape(()), eac + epr, 1e-9, 'wavelet loss')
    e0 = sum((np.dot(dl[2 * k:], dl[:L - 2 * k]) - (k == 0)) ** 2 for k in range(L // 2 + 1))
    close(o.rec_lo_orthogonality_loss().reshape(()), e0, 1e-9, 'double shift orthonormality loss')
    e1 = ((dl - rl[::-1]) ** 2).sum() + ((dh - rh[::-1]) ** 2).sum()
    close(o.filt_bank_orthogonality_loss().reshape(()), e1, 1e-9, 'time reversal loss')
    close(o.wavelet_loss().reshape(()), eac + epr + e1, 1e-9, 'soft orthogonal wavelet loss')
    return True


# ---------------------------------------------------------------- C26
def other_dtype(d, seed):
    """Filter tensors in another type than the data: the result has the type of the data."""
    x = data([2, 8, 8, 8], seed, d)
    wa = WaveletTensorTuple.from_wavelet(pywt.Wavelet('db2'), torch.float32 if d is torch.float64 else torch.float64)
    for f, g in ((ptwt.wavedec, ptwt.waverec), (ptwt.wavedec2, ptwt.waverec2), (ptwt.wavedec3, ptwt.waverec3), (ptwt.fswavedec2, ptwt.fswaverec2), (ptwt.fswavedec3, ptwt.fswaverec3),
                 (lambda x, w, **k: ptwt.swt(x, w, 1), ptwt.iswt)):
        c = call('filters of another type', lambda: f(x, wa, mode='zero', level=1))
        yield from (t for t in flat(c) if isinstance(t, torch.Tensor))
        yield call('filters of another type', g, c, wa)


LONG = [n for n in pywt.wavelist(kind='discrete')]


def exact_taps(w, lo, hi, rlo, rhi, d):
    """Impulse responses consist of the filter taps, rounded once to the type of the data."""
    fb = [torch.tensor([float(v) for v in f], dtype=torch.float64).to(d) for f in (lo, hi, rlo, rhi)]
    L = len(fb[0])
    n = 2 * L + 4
    dec, rec = [], []
    for p in (L, L + 1):
        x = torch.zeros(n, dtype=d)
        x[p] = 1
        a, b = call('impulse response', lambda: ptwt.wavedec(x, w, mode='zero', level=1))
        dec.append((a, b))
    for band in (0, 1):
        cs = [torch.zeros(n, dtype=d), torch.zeros(n, dtype=d)]
        cs[band][L] = 1
        rec.append(call('impulse response', lambda: ptwt.waverec(cs, w)))
    for nm, got, want in (('dec_lo', [a for a, _ in dec], fb[0]), ('dec_hi', [b for _, b in dec], fb[1]), ('rec_lo', [rec[0]], fb[2]), ('rec_hi', [rec[1]], fb[3])):
        got = torch.cat([g.reshape(-1) for g in got])
        g, e = torch.sort(got[got != 0]).values, torch.sort(want[want != 0]).values
        need(g.dtype == d and len(g) == len(e) and torch.equal(g, e), f'{nm}: the impulse response does not hold the taps rounded to {d}')


def chk_C26(nd=None, shape=None, w=None, mode=None, level=None, dt='f8', seed=1, **model):
    c = dict(nd=nd, shape=shape, w=w, mode=mode, level=level, dt=dt)
    d = DT[dt]
    for t in other_dtype(d, seed):
        need(t.dtype == d, f'filters of another type than the data: result dtype {t.dtype} for input {d}')
    for name, f, a, k in single_calls(w=w, mode=mode, shape=shape, level=level, dt=dt, seed=seed, **model) if model else calls_for(c, seed):
        if name == 'orthogonalize':
            continue
        st, r = outcome(lambda: f(*a, **k))
        if st == 'ok':
            for t in flat(r):
                if isinstance(t, torch.Tensor):
                    want = torch.promote_types(d, torch.complex32) if t.is_complex() else d
                    need(t.dtype == want, f'{name}: result dtype {t.dtype} for input {d}')
                    need(t.device.type == 'cpu', f'{name}: device')
    # filters in the precision of the input
    x = data([64], seed, d)
    for wn in ('db4', 'sym6'):
        fb = UT._get_filter_tensors(wn, flip=False, device='cpu', dtype=d)
        for g, e in zip(fb, pywt.Wavelet(wn).filter_bank):
            need(g.dtype == d, 'filter dtype')
            need(torch.equal(g.reshape(-1), torch.tensor(e, dtype=d)), 'filters are rounded to another type')
    for wn in [w] * bool(w) + [LONG[(seed + k) % len(LONG)] for k in range(3)]:
        exact_taps(*W(wn)[:5], d)
    y = ptwt.waverec(ptwt.wavedec(x, 'db4', mode='zero', level=2), 'db4')
    need(float((y - x).abs().max()) < (1e-10 if dt == 'f8' else 1e-4), 'precision of the round trip')
    # meta device: the result stays on the device of the input
    for n, f in (('wavedec', lambda t: ptwt.wavedec(t, 'haar', mode=mode if mode != 'symmetric' else 'zero', level=1)), ('wavedec2', lambda t: ptwt.wavedec2(t, 'haar', level=1, mode='zero')), ('wavedec3', lambda t: ptwt.wavedec3(t, 'haar', level=1, mode='zero')), ('swt', lambda t: ptwt.swt(t, 'haar', 1)),
                 ('fswavedec2', lambda t: ptwt.fswavedec2(t, 'haar', level=1, mode='symmetric'))):
        r = call(n + ' on the meta device', f, torch.empty([2, 4, 4, 4], dtype=d, device='meta'))
        need(all(t.device.type == 'meta' and t.dtype == d for t in flat(r) if isinstance(t, torch.Tensor)), f'{n} left the device of the input')
    return True


# ---------------------------------------------------------------- C27
def gen_C27(rng, tier):
    for n in range(1, 40):
        for w in ('haar', 'db2', 'db4', 'bior2.2', 'db6'):
            yield dict(kind=rng.choice(['c1', 'swt', 'wp']), shape=rng.choice([[n], [2, n], [1, n], [70, n]]), axes=[-1], w=w, seed=n)
    while True:
        kind = rng.choice(['c1', 'c2', 'c3', 's2', 's3', 'swt', 'wp', 'wp2', 'm1', 'm2', 'm2n', 'm3'])
        nd = {'wp': 1, 'wp2': 2}.get(kind) or NDIM[kind]
        rank = nd + rng.randint(0, 2)
        sh = [rng.choice([1, 2, 3, 40]) for _ in range(rank)]
        axes = rng.sample(range(rank), nd)
        for a in axes:
            sh[a] = rng.randint(2, {1: 64, 2: 24, 3: 14}[nd])
        if int(np.prod(sh)) > 60000 or kind == 'm2n' and max(sh[a] for a in axes) > 12:
            continue
        yield dict(kind=kind, shape=sh, axes=[a - rank if rng.random() < .5 else a for a in axes], w=rng.choice(['haar', 'db2', 'db4', 'tuple/db2', 'bior2.2', 'tuple/db4', 'tuple/haar'] if kind[0] != 'm' else ['haar', 'db2', 'db4', 'tuple/haar', 'tuple/db4']), seed=1)


def chk_C27(kind, shape, axes, w, seed):
    wa, dl, dh, rl, rh, L = W(w)
    x = data(shape, seed)
    ax = nrm_axes(axes, len(shape))
    m = min(shape[a] for a in ax)
    exp = O.dwt_max_level(m, L)
    if kind == 'swt':
        exp = O.swt_max_level(m)
        r = call('swt', ptwt.swt, x, wa, axis=axes[0])
        got = len(r) - 1
    elif kind == 'wp':
        got = call('packet', ptwt.WaveletPacket, x, wa, axis=axes[0]).maxlevel
    elif kind == 'wp2':
        got = call('packet', ptwt.WaveletPacket2D, x, wa, axes=tuple(axes)).maxlevel
    elif kind[0] == 'm':
        if kind == 'm1':
            m += m % 2
        lv = max(0, int(np.log2(m / (L - 1))))
        exp = len(matrix_sizes([shape[a] for a in ax], L, lv))
        got = len(call(kind, fwd_any, kind, x, wa, tuple(axes), 'zero', None)) - 1
    else:
        f = call(kind, fwd, kind, x, wa, tuple(axes), 'zero', None)
        got = len(f) - 1
    need(got == exp, f'{kind}: {got} levels for {shape} axes {axes} wavelet {w}, expected {exp}')
    return True


PROPS = {
    'C01': (gen_C01, chk_C01), 'C02': (gen_analysis('c1'), chk_analysis), 'C03': (gen_analysis('c1'), chk_synthesis), 'C04': (gen_analysis('c2'), chk_analysis), 'C05': (gen_analysis('c2'), chk_synthesis),
    'C06': (gen_analysis('c3'), chk_analysis), 'C07': (gen_analysis('c3'), chk_synthesis),
    'C08': (None, chk_analysis), 'C09': (None, chk_synthesis), 'C10': (gen_C10, chk_C10), 'C11': (gen_swt, chk_C11), 'C12': (gen_swt, chk_C12), 'C13': (gen_C13, chk_C13),
    'C14': (gen_C14, chk_C14), 'C15': (gen_C15, chk_C15), 'C16': (gen_mat(['m1']), chk_mat), 'C17': (gen_mat(['m2', 'm2n']), chk_mat), 'C18': (gen_mat(['m3']), chk_mat), 'C19': (gen_C19, chk_C19),
    'C20': (gen_C20, chk_C20), 'C21': (gen_C21, chk_C21), 'C22': (gen_C22, chk_C22), 'C23': (gen_C23, chk_C23), 'C24': (gen_C24, chk_C24), 'C25': (gen_C25, chk_C25), 'C26': (gen_C22, chk_C26), 'C27': (gen_C27, chk_C27),
}


def _both(rng, tier):
    a, b = gen_analysis('s2')(rng, tier), gen_analysis('s3')(rng, tier)
    while True:
        for _ in range(3):
            yield next(a)
        yield next(b)


PROPS['C08'] = (_both, chk_analysis)
PROPS['C09'] = (_both, chk_synthesis)
