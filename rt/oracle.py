"""Reference semantics (numpy, float64) used to evaluate contracts at run time.

Written from the mathematical definitions in properties.jsonl, not from the
code in /repo.
"""
import itertools
import numpy as np


def ext_index(mode, n, t):
    """Index into [0,n) (or -1 for zero) of the extended signal at position t."""
    t = np.asarray(t)
    if mode == 'zero':
        return np.where((t >= 0) & (t < n), t, -1)
    if mode == 'constant':
        return np.clip(t, 0, n - 1)
    if mode == 'periodic':
        return np.mod(t, n)
    if mode == 'symmetric':
        m = np.mod(t, 2 * n)
        return np.where(m < n, m, 2 * n - 1 - m)
    if mode == 'reflect':
        if n == 1:
            return np.zeros_like(t)
        m = np.mod(t, 2 * n - 2)
        return np.where(m < n, m, 2 * n - 2 - m)
    raise ValueError(mode)


def gather(x, axis, mode, t):
    """x extended along axis, evaluated at positions t (any shape; new axes last)."""
    x = np.moveaxis(x, axis, -1)
    n = x.shape[-1]
    idx = ext_index(mode, n, t)
    xx = np.concatenate([x, np.zeros_like(x[..., :1])], -1)
    return xx[..., np.where(idx < 0, n, idx)]


def ext_feasible(mode, n, L):
    p = (2 * L - 3) // 2
    r = p + n % 2
    if mode == 'reflect':
        return r < n
    if mode == 'periodic':
        return r <= n
    return n >= 1


def ana1(x, axis, h, mode):
    n = x.shape[axis]
    L = len(h)
    K = (n + L - 1) // 2
    t = 2 * np.arange(K)[:, None] + 1 - np.arange(L)[None, :]
    g = gather(x, axis, mode, t)              # ..., K, L
    return np.moveaxis(g @ np.asarray(h, dtype=np.float64), -1, axis)


def anan(x, axes, lo, hi, mode):
    """dict key->band, i-th letter is the filter along axes[i]."""
    res = {'': x}
    for ax in axes:
        res = {k + c: ana1(v, ax, f, mode) for k, v in res.items() for c, f in (('a', lo), ('d', hi))}
    return res


def wavedecn(x, axes, lo, hi, mode, level):
    """[approx, {details coarsest}, ..., {details finest}]"""
    out = []
    a = x
    for _ in range(level):
        b = anan(a, axes, lo, hi, mode)
        a = b.pop('a' * len(axes))
        out.append(b)
    return [a] + out[::-1]


def syn1(ca, cd, axis, lo, hi, target=None):
    ca = np.moveaxis(ca, axis, -1)
    cd = np.moveaxis(cd, axis, -1)
    K = ca.shape[-1]
    L = len(lo)
    y = np.zeros(ca.shape[:-1] + (2 * K + L - 2,))
    for j in range(L):
        y[..., j:j + 2 * K:2] += lo[j] * ca + hi[j] * cd
    y = y[..., L - 2:L - 2 + 2 * K - L + 2]
    return np.moveaxis(y, -1, axis)


def synn(bands, axes, lo, hi):
    cur = dict(bands)
    for ax in reversed(axes):
        keys = {k[:-1] for k in cur}
        cur = {k: syn1(cur[k + 'a'], cur[k + 'd'], ax, lo, hi) for k in keys}
    return cur['']


def crop_to(a, shape, axes):
    sl = [slice(None)] * a.ndim
    for ax in axes:
        if a.shape[ax] not in (shape[ax], shape[ax] + 1):
            raise ValueError('inconsistent')
        sl[ax] = slice(0, shape[ax])
    return a[tuple(sl)]


def waverecn(coeffs, axes, lo, hi):
    a = coeffs[0]
    for d in coeffs[1:]:
        shp = next(iter(d.values())).shape
        a = crop_to(a, shp, axes)
        a = synn({**d, 'a' * len(axes): a}, axes, lo, hi)
    return a


def swt(x, axis, lo, hi, level):
    x = np.moveaxis(x, axis, -1)
    n = x.shape[-1]
    L = len(lo)
    out = []
    a = x
    for i in range(level):
        d = 2 ** i
        # a[k] = sum_j h[j] x[k + d*(L/2 - j)]
        t = np.arange(n)[:, None] + d * (L // 2 - np.arange(L))[None, :]
        g = a[..., np.mod(t, n)]
        out.append(np.moveaxis(g @ np.asarray(hi, dtype=float), -1, axis))
        a = g @ np.asarray(lo, dtype=float)
    return [np.moveaxis(a, -1, axis)] + out[::-1]


def iswt(coeffs, axis, lo, hi):
    cs = [np.moveaxis(c, axis, -1) for c in coeffs]
    a = cs[0]
    n = a.shape[-1]
    L = len(lo)
    J = len(cs) - 1
    for pos, dd in enumerate(cs[1:]):
        d = 2 ** (J - pos - 1)
        # y[t] = 1/2 sum_j rec[j] c[t + d*(L/2-1) - d*j]
        t = np.arange(n)[:, None] + d * (L // 2 - 1 - np.arange(L))[None, :]
        idx = np.mod(t, n)
        a = 0.5 * (a[..., idx] @ np.asarray(lo, dtype=float) + dd[..., idx] @ np.asarray(hi, dtype=float))
    return np.moveaxis(a, -1, axis)


def conv1(f, x, mode):
    full = np.convolve(f, x)
    L, n = len(f), len(x)
    if mode == 'full':
        return full
    if mode == 'valid':
        return full[L - 1:n]
    s = L // 2 - 1 + L % 2
    return full[s:s + n]


def conv2(f, x, mode):
    H, W = x.shape
    h, w = f.shape
    full = np.zeros((H + h - 1, W + w - 1))
    for i in range(h):
        for j in range(w):
            full[i:i + H, j:j + W] += f[i, j] * x
    if mode == 'full':
        return full
    if mode == 'valid':
        return full[h - 1:H, w - 1:W]
    si, sj = h // 2 - 1 + h % 2, w // 2 - 1 + w % 2
    return full[si:si + H, sj:sj + W]


def dwt_max_level(n, L):
    if L < 2 or n < L - 1:
        return 0
    lv = 0
    while (L - 1) * 2 ** (lv + 1) <= n:
        lv += 1
    return lv


def swt_max_level(n):
    lv = 0
    while n % 2 == 0:
        n //= 2
        lv += 1
    return lv


def gray(level, a, b):
    out = []
    for i in range(2 ** level):
        g = i ^ (i >> 1)
        out.append(''.join(b if g >> (level - 1 - k) & 1 else a for k in range(level)))
    return out


def natural(level, letters):
    return [''.join(p) for p in itertools.product(letters, repeat=level)]


def freq2d(level):
    exp = {('h', 'h'): 'd', ('h', 'l'): 'h', ('l', 'h'): 'v', ('l', 'l'): 'a'}
    g = gray(level, 'l', 'h')
    return [[''.join(exp[(r, c)] for r, c in zip(rp, cp)) for cp in g] for rp in g]
