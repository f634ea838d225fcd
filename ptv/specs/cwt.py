"""Contracts of the continuous transform (C24, and its part of C22, C26).

Ghost arrays: the elements are polynomials over uninterpreted reals (grid points, samples of the integrated wavelet,
scales, their roots) and over entries of the full convolution of two sequences; z3 only sees them as opaque terms.
Library contracts used: DFT convolution theorem (ifft(fft(a, n) fft(b, n)) is the full convolution if n is at least its
length), arange/floor (positions floor(m / den), m < ceil(end), non-decreasing), boolean selection of a non-decreasing
sequence by an upper bound (a prefix), cumsum, diff, conj, 2**ceil(log2 n) >= n."""
import contextlib

import core
import ir
import load
import fakes
import vc
import verify
from core import El, Seg, SymBool, SymFloat, SymInt, SymIter, TList, Unsupported, mk, top
from ir import P, K, V, ZERO, ONE, TRUE, FALSE, add, sub, mul, neg, scale as pscale, le, lt, eq, ge0, bnot, band, bor
from tensor import DT, F32, F64, Device, mkdev

C64, C128 = DT['complex64'], DT['complex128']
CPLX = {F32: C64, F64: C128, C64: C64, C128: C128}
REAL = {C64: F32, C128: F64, F32: F32, F64: F64}


def wide(a, b):
    r = F64 if F64 in (REAL[a], REAL[b]) else F32
    return CPLX[r] if C64 in (a, b) or C128 in (a, b) else r


class GR:
    """a real number"""

    def __init__(self, p):
        self.p = p

    @staticmethod
    def of(x):
        if isinstance(x, GR):
            return x.p
        if isinstance(x, bool):
            return None
        if isinstance(x, (int, SymInt)):
            return top(x)
        if isinstance(x, float) and x.is_integer():
            return K(int(x))
        return None

    def _bin(self, o, f):
        q = GR.of(o)
        return NotImplemented if q is None else GR(f(self.p, q))

    def __add__(self, o):
        return self._bin(o, add)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, sub)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: sub(b, a))

    def __mul__(self, o):
        return self._bin(o, mul)
    __rmul__ = __mul__

    def __neg__(self):
        return GR(neg(self.p))

    def _no(self, *a):
        raise Unsupported('comparison of symbolic reals')
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __bool__ = __float__ = __int__ = _no
    __hash__ = None

    def deep_subst(self, s):
        return GR(ir.subst(self.p, s))

    def sym_equal(self, o):
        return isinstance(o, GR) and same(self.p, o.p)

    def item(self):
        return self


def same(a, b):
    return a == b or core.C.proved(eq(a, b))


class GT:
    """torch.Tensor (base class of the ghost tensors)"""
    is_cuda = False
    requires_grad = False


class GN:
    """numpy.ndarray (base class of the ghost arrays)"""


class GSeq(GT, GN):
    """one-dimensional: n entries at(t); lib 'np' or 'torch'"""

    def __init__(self, n, at, lib, dtype, device=None):
        self.n, self.at, self.lib, self.dtype, self.device = n, at, lib, dtype, device
        self.writes = 0

    def like(self, n=None, at=None, **k):
        d = dict(lib=self.lib, dtype=self.dtype, device=self.device)
        d.update(k)
        return GSeq(self.n if n is None else n, self.at if at is None else at, **d)

    def symlen(self):
        return mk(self.n)

    def deep_subst(self, s):
        def at(t):
            ph = vc.uvar('p')
            return ir.subst(self.at(V(ph)), dict(s, **{ph: t}))
        return self.like(ir.subst(self.n, s), at)

    def sym_equal(self, o):
        if not isinstance(o, GSeq) or (o.lib, o.dtype, o.device) != (self.lib, self.dtype, self.device) or not same(self.n, o.n):
            return False
        t = V(vc.uvar('t'))
        return vc.with_assume(band(ge0(t), lt(t, self.n)), lambda: same(self.at(t), o.at(t)))

    def __len__(self):
        raise Unsupported('len')

    @property
    def shape(self):
        return (mk(self.n),)

    def is_complex(self):
        return self.dtype in (C64, C128)

    def is_floating_point(self):
        return self.dtype in (F32, F64)

    def pos(self, i):
        p = top(i)
        c = p.const()
        if c is not None and c < 0 or c is None and core.C.decide(lt(p, ZERO)):
            return add(self.n, p)
        return p

    def __getitem__(self, i):
        if isinstance(i, (int, SymInt)) and not isinstance(i, bool):
            return GR(self.at(self.pos(i)))
        if isinstance(i, GIdx):
            core.C.oblige('sampling positions are inside the wavelet', position_bounds(i, self.n))
            n = rcount(i.end, i.den, self.n)  # positions inside the wavelet: all of them
            core.C._axioms(eq(n, i.n))
            return self.like(n if core.C.proved(eq(n, i.n)) else i.n, lambda t: self.at(i.at(t)))
        if isinstance(i, slice) and i == slice(None, None, -1) and self.lib == 'np':
            return self.flip(0)
        if isinstance(i, tuple) and len(i) == 1:
            return self[i[0]]
        raise Unsupported('index of a sequence')

    def flip(self, *dims):
        d = list(dims[0]) if len(dims) == 1 and isinstance(dims[0], (tuple, list)) else list(dims)
        if d not in ([0], [-1]):
            raise Unsupported('flip')
        return self.like(at=lambda t: self.at(sub(sub(self.n, ONE), t)))

    def to(self, *a, dtype=None, device=None, **k):
        for x in a:
            if x in REAL:
                dtype = x
            else:
                device = x
        r = self.like()
        if dtype is not None:
            if self.is_complex() and dtype not in (C64, C128):
                raise Unsupported('complex values made real')
            if dtype not in REAL:
                raise Unsupported('conversion of the samples')
            r.dtype = dtype
        if device is not None:
            r.device = mkdev(device)
        return r
    type = astype = to

    def conj(self):
        return self.like(at=lambda t: ir.mkuf('conj', (self.at(t),)))

    def __mul__(self, o):
        q = GR.of(o)
        if q is None:
            return NotImplemented
        return self.like(at=lambda t: mul(q, self.at(t)))
    __rmul__ = __mul__

    def __imul__(self, o):
        q = GR.of(o)
        if q is None:
            raise Unsupported('in-place product')
        if getattr(self, 'owned', False):
            core.C.record('the arrays of the caller are not modified', 'refuted', backend='frame', time=0, model=core.C.model_dict())
        f = self.at
        self.at = lambda t: mul(q, f(t))
        self.writes += 1
        return self

    def numpy(self):
        return self.like(lib='np')

    def detach(self):
        return self
    cpu = contiguous = detach

    def clone(self):
        return self.like()
    copy = clone


class GRamp(GT):
    """arange(end) [/ den] [floored]: entries m, m / den, floor(m / den)"""

    def __init__(self, end, den=None, floored=False, dtype=None):
        self.end, self.den, self.floored, self.dtype = end, den, floored, dtype

    def __truediv__(self, o):
        q = GR.of(o)
        if q is None or self.den is not None:
            raise Unsupported('division of sampling positions')
        return GRamp(self.end, q, False, self.dtype)
    div = __truediv__

    def floor(self):
        return GRamp(self.end, self.den, True, self.dtype)

    def type(self, d=None):
        if d is not DT['int64'] or not self.floored or self.den is None:
            raise Unsupported('conversion of sampling positions')
        return GIdx(self.end, self.den, rceil(self.end))

    def to(self, d):
        return self.type(d)

    def long(self):
        return self.type(DT['int64'])


def rceil(end):
    return ir.mkuf('rceil', (end,))


def rfloor(m, den):
    return ir.mkuf('rfloor', (m, den))


def rcount(end, den, bound):
    """number of positions m < ceil(end) with floor(m / den) < bound"""
    return ir.mkuf('rcount', (end, den, bound))


def ax_rceil(end):
    return [le(ONE, rceil(end))]  # end > 0


def ax_rfloor(m, den):
    return [bor(lt(m, ZERO), ge0(rfloor(m, den))), bor(bnot(eq(m, ZERO)), eq(rfloor(m, den), ZERO))]


def ax_rcount(end, den, bound):
    n, c = rcount(end, den, bound), rceil(end)
    last = sub(c, ONE)
    return [ge0(n), le(n, c), bor(lt(n, ONE), lt(rfloor(sub(n, ONE), den), bound)),
            bor(le(c, n), band(le(bound, rfloor(n, den)), le(rfloor(n, den), rfloor(last, den)))),
            bor(lt(n, c), lt(n, ONE), lt(rfloor(last, den), bound)),
            bor(lt(bound, ONE), le(ONE, n))]


def position_bounds(i, n):
    """0 <= i[t] < n for every position, by the last entry (non-decreasing)"""
    last = rfloor(sub(i.n, ONE), i.den)
    return bor(lt(i.n, ONE), lt(last, n))


def axioms():
    ir.UFAXIOMS.update(rceil=ax_rceil, rfloor=ax_rfloor, rcount=ax_rcount, nfl=lambda n: [bor(lt(n, ONE), le(n, ir.mkuf('nfl', (n,))))])


class GIdx(GT):
    def __init__(self, end, den, n):
        self.end, self.den, self.n = end, den, n

    def at(self, t):
        return rfloor(t, self.den)

    def symlen(self):
        return mk(self.n)

    @property
    def shape(self):
        return (mk(self.n),)

    def __getitem__(self, i):
        if isinstance(i, (int, SymInt)) and not isinstance(i, bool):
            p = top(i)
            if core.C.proved(lt(p, ZERO)):
                p = add(self.n, p)
            return mk(self.at(p))
        if isinstance(i, GMask):
            return select(self, i)
        raise Unsupported('index of sampling positions')

    def max(self):
        return self[-1]

    def __lt__(self, o):
        return GMask(self, top(o))

    def __le__(self, o):
        return GMask(self, add(top(o), ONE))

    def masked_select(self, m):
        return select(self, m)

    def flip(self, *d):
        raise Unsupported('flip of sampling positions')


class GMask(GT):
    def __init__(self, idx, bound):
        self.idx, self.bound = idx, bound


def select(j, m):
    if not isinstance(m, GMask) or m.idx is not j or not core.C.proved(eq(j.n, rceil(j.end))):
        raise Unsupported('selection of sampling positions')
    return GIdx(j.end, j.den, rcount(j.end, j.den, m.bound))


class GData(GT):
    """the signal: batch dimensions, then the time axis"""

    def __init__(self, batch, n, dtype, device):
        self.batch, self.n, self.dtype, self.device = batch, n, dtype, device

    @property
    def shape(self):
        return tuple(mk(b) for b in self.batch) + (mk(self.n),)

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def symlen(self):
        return self.shape[0]

    @property
    def ndim(self):
        return len(self.batch) + 1
    dim = property(lambda self: lambda: self.ndim)

    def is_floating_point(self):
        return True

    def is_complex(self):
        return False


class GFft:
    def __init__(self, x, n):
        self.x, self.n = x, n
        self.dtype = CPLX[x.dtype]

    def __mul__(self, o):
        if not isinstance(o, GFft):
            raise Unsupported('scaled spectrum')
        core.C.oblige('spectra of one length are multiplied', eq(self.n, o.n))
        ds = [q for q in (self, o) if isinstance(q.x, GData)]
        ks = [q for q in (self, o) if isinstance(q.x, GSeq)]
        if len(ds) != 1 or len(ks) != 1:
            raise Unsupported('product of these spectra')
        dev = ks[0].x.device
        if dev is not None and dev != ds[0].x.device:
            core.C.record('the kernel is on the device of the data', 'refuted', backend='-', time=0, model=core.C.model_dict())
        return GProd(ds[0], ks[0])
    __rmul__ = __mul__

    def deep_subst(self, s):
        if isinstance(self.x, GData):
            return GFft(self.x, ir.subst(self.n, s))
        return GFft(self.x.deep_subst(s), ir.subst(self.n, s))

    def sym_equal(self, o):
        return isinstance(o, GFft) and (o.x is self.x or isinstance(self.x, GSeq) and self.x.sym_equal(o.x)) and same(self.n, o.n)


class GProd:
    def __init__(self, d, k):
        self.d, self.k, self.n = d.x, k.x, d.n
        self.dtype = wide(d.dtype, k.dtype)


def last_dim(x, dim):
    if dim not in (-1, len(getattr(x, 'batch', ()))):
        raise Unsupported('transform of another axis')


def fft(x, n=None, dim=-1, norm=None, **k):
    if not isinstance(x, (GData, GSeq)) or norm is not None or k:
        raise Unsupported('fft')
    last_dim(x, dim)
    if isinstance(x, GSeq) and x.lib != 'torch':
        raise core.LibTypeError('fft(): argument must be Tensor')
    return GFft(x, x.n if n is None else top(n))


def ifft(f, n=None, dim=-1, norm=None, **k):
    if not isinstance(f, GProd) or norm is not None or k:
        raise Unsupported('ifft')
    last_dim(f.d, dim)
    if n is not None and not core.C.proved(eq(top(n), f.n)):
        raise Unsupported('ifft of another length')
    a, b = f.d, f.k
    core.C.oblige('the spectra are long enough for the full convolution', le(sub(add(a.n, b.n), ONE), f.n))
    return Out(a, f.n, [(ONE, Conv(a, b), ZERO)], f.dtype)


class Conv:
    """the full convolution of the signal with a kernel, zero outside"""

    def __init__(self, d, k):
        self.d, self.k = d, k

    def deep_subst(self, s):
        return Conv(self.d, self.k.deep_subst(s))

    def sym_equal(self, o):
        return self.d is o.d and self.k.sym_equal(o.k)


class Out(GT):
    """batch dimensions, then n entries: sum over (coefficient, conv, offset) of coefficient * conv(t + offset)"""

    def __init__(self, d, n, terms, dtype):
        self.d, self.n, self.terms, self.dtype = d, n, terms, dtype
        self.device = d.device

    @property
    def shape(self):
        return tuple(mk(b) for b in self.d.batch) + (mk(self.n),)

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def deep_subst(self, s):
        return Out(self.d, ir.subst(self.n, s), [(ir.subst(c, s), v.deep_subst(s), ir.subst(o, s)) for c, v, o in self.terms], self.dtype)

    def sym_equal(self, o):
        if not isinstance(o, Out) or o.d is not self.d or o.dtype != self.dtype or not same(self.n, o.n):
            return False
        todo = list(o.terms)
        for c, v, off in self.terms:
            for q in todo:
                if same(c, q[0]) and same(off, q[2]) and v.sym_equal(q[1]):
                    todo.remove(q)
                    break
            else:
                return False
        return not todo

    def _with(self, terms, n=None):
        return Out(self.d, self.n if n is None else n, terms, self.dtype)

    def __mul__(self, o):
        q = GR.of(o)
        if q is None:
            return NotImplemented
        return self._with([(mul(q, c), v, off) for c, v, off in self.terms])
    __rmul__ = mul = __mul__

    def __neg__(self):
        return self._with([(neg(c), v, off) for c, v, off in self.terms])

    def __sub__(self, o):
        if not isinstance(o, Out) or o.d is not self.d or not core.C.proved(eq(self.n, o.n)) or o.dtype != self.dtype:
            raise Unsupported('difference of results')
        return self._with(self.terms + [(neg(c), v, off) for c, v, off in o.terms])

    def bound(self, x, default):
        if x is None:
            return default
        C = core.C
        p = top(x)
        if p.const() is not None and p.const() < 0 or p.const() is None and C.decide(lt(p, ZERO)):
            p = add(self.n, p)
            if not C.proved(ge0(p)) and not C.decide(ge0(p)):
                return ZERO
            return p
        if not C.proved(le(p, self.n)) and not C.decide(le(p, self.n)):
            return self.n
        return p

    def __getitem__(self, i):
        i = i if isinstance(i, tuple) else (i,)
        full = [q for q in i[:-1] if q is not Ellipsis and q != slice(None)]
        if not isinstance(i[-1], slice) or full or i[-1].step not in (None, 1) or (Ellipsis not in i and len(i) != len(self.shape)):
            raise Unsupported('index of a result')
        a, b = self.bound(i[-1].start, ZERO), self.bound(i[-1].stop, self.n)
        n = sub(b, a)
        if not core.C.proved(ge0(n)) and not core.C.decide(ge0(n)):
            n = ZERO
        return self._with([(c, v, add(off, a)) for c, v, off in self.terms], n)

    def diff(self, n=1, dim=-1):
        if n != 1:
            raise Unsupported('higher difference')
        last_dim(self.d, dim)
        return self[..., 1:] - self[..., :-1]

    def narrow(self, dim, start, length):
        last_dim(self.d, dim)
        return self[..., start:start + length]

    @property
    def real(self):
        return RealPart(self)


class Stack(GT):
    def __init__(self, segs):
        self.segs = segs

    @property
    def real(self):
        return RealPart(self)

    def deep_subst(self, s):
        raise Unsupported('generalisation of a stack')


class RealPart(GT):
    def __init__(self, x):
        self.x = x

    def deep_subst(self, s):
        return RealPart(self.x.deep_subst(s))

    def sym_equal(self, o):
        return isinstance(o, RealPart) and self.x.sym_equal(o.x)


def stack(ts, dim=0, **k):
    if dim != 0 or k or not isinstance(ts, (TList, list)):
        raise Unsupported('stack')
    return Stack(list(ts.s) if isinstance(ts, TList) else [El(x) for x in ts])


class GScales(SymIter, GT, GN):
    def __init__(self, segs, lib, owned=True):
        SymIter.__init__(self, segs)
        self.lib, self.owned = lib, owned

    def numpy(self):
        if self.lib != 'torch':
            raise Unsupported('numpy of an array')
        return GScales(self.segs, 'np')

    detach = cpu = lambda self: self

    def symlen(self):
        n = ZERO
        for x in self.segs:
            n = add(n, core.seg_len(x))
        return mk(n)


class GFreq(GN):
    def __init__(self, w, scales, precision):
        self.key, self.by = (w, scales, precision), None

    def __truediv__(self, o):
        r = GFreq(*self.key)
        if self.by is not None:
            raise Unsupported('frequencies divided twice')
        r.by = o
        return r

    def __itruediv__(self, o):
        if self.by is not None:
            raise Unsupported('frequencies divided twice')
        self.by = o
        return self


class GCeil:
    """ceil(log2(n))"""

    def __init__(self, p):
        self.p = p

    def __rpow__(self, b):
        if b not in (2, 2.0):
            raise Unsupported('power')
        return GNfl(self.p)

    def __pow__(self, o):
        raise Unsupported('power')


class GNfl(SymFloat):
    def __init__(self, p):
        SymFloat.__init__(self, 'ratio', (ir.mkuf('nfl', (p,)), ONE))


def np_ceil(x):
    if isinstance(x, SymFloat) and x.kind == 'log2' and x.args[1] == ONE:
        return GCeil(x.args[0])
    if isinstance(x, SymFloat) and x.kind == 'ratio':
        return SymFloat('ratio', (neg(ir.div(neg(x.args[0]), x.args[1])), ONE))
    import math
    if isinstance(x, (int, float)):
        return float(math.ceil(x))
    if isinstance(x, SymInt):
        return x
    raise Unsupported('ceil')


def np_floor(x):
    if isinstance(x, SymFloat) and x.kind == 'ratio':
        return SymFloat('ratio', (ir.div(x.args[0], x.args[1]), ONE))
    if isinstance(x, GRamp):
        return x.floor()
    import math
    if isinstance(x, (int, float)):
        return float(math.floor(x))
    if isinstance(x, SymInt):
        return x
    raise Unsupported('floor')


def np_sqrt(x):
    if isinstance(x, GR):
        return GR(ir.mkuf('rsqrt', (x.p,)))
    raise Unsupported('sqrt')


def np_array(x, *a, **k):
    if isinstance(x, (list, TList)) and not a and not k:
        s = x.s if isinstance(x, TList) else [El(v) for v in x]
        if all(isinstance(e, El) and isinstance(e.v, GR) for e in s):
            return GScales(s, 'np', False)
    raise Unsupported('np.array')


def conj(lib):
    def f(x):
        if not isinstance(x, GSeq) or x.lib != lib:
            raise Unsupported('conj')
        return x.conj()
    return f


def cumsum(lib):
    def f(x, *a, dim=None, axis=None):
        d = [q for q in list(a) + [dim, axis] if q is not None]
        if not isinstance(x, GSeq) or x.lib != lib or any(q not in (0, -1) for q in d):
            raise Unsupported('cumsum')
        if getattr(x, 'name', None) is None:
            raise Unsupported('cumsum of another sequence')
        return x.like(at=lambda t: ir.mkuf('cumsum_' + x.name, (t,)))
    return f


class GWavelet:
    """a wavelet: wavefun by contract (samples on a uniform grid of symbolic length)"""

    def __init__(self, kind, complex_, lib='np'):
        self.kind, self.complex_cwt, self.lib = kind, complex_, lib

    def functions(self, precision):
        if precision != core.C.store['precision']:
            core.C.record('the wavelet is sampled at the precision asked for', 'refuted', backend='-', time=0, model=core.C.model_dict())
        n = V('n_grid')
        psi = GSeq(n, lambda t: ir.mkuf('psi', (t,)), self.lib, C128 if self.complex_cwt else F64)
        psi.name = 'psi'
        x = GSeq(n, lambda t: ir.mkuf('grid', (t,)), self.lib, F64)
        return psi, x


def make_world():
    """the module under the ghost library"""
    W = load.World()
    t = W.fake['torch']
    nn = W.fake['torch.nn']
    nn.Parameter = type('Parameter', (), {})
    nn.parameter = fakes.Mod('torch.nn.parameter', Parameter=nn.Parameter)
    F = fakes.Mod('torch.fft', fft=fft, ifft=ifft)
    t.fft, t.Tensor, t.stack, t.diff = F, GT, stack, lambda x, *a, **k: x.diff(*a, **k)
    t.no_grad = contextlib.nullcontext
    t.floor, t.conj, t.cumsum = np_floor, conj('torch'), cumsum('torch')
    t.masked_select = lambda x, m: x.masked_select(m)
    t.flip = lambda x, dims: x.flip(dims)
    t.complex32 = DT.get('complex32') or 'complex32'

    def promote(a, b):
        if 'complex32' in (a, b):
            o = a if b == 'complex32' else b
            return CPLX[o]
        return wide(a, b)
    t.promote_types = promote

    def arange(end, dtype=None, device=None):
        if not isinstance(end, GR):
            raise Unsupported('arange')
        return GRamp(end.p, None, False, dtype)
    t.arange = arange

    def tensor_(x, dtype=None, device=None, **k):
        if not isinstance(x, GSeq) or k:
            raise Unsupported('torch.tensor')
        r = x.like(lib='torch', device=mkdev(device))
        return r if dtype is None else r.to(dtype)
    t.tensor = t.as_tensor = tensor_
    t.from_numpy = lambda x: tensor_(x)
    W.fake['torch.fft'] = F
    n = W.fake['numpy']
    n.ceil, n.floor, n.sqrt, n.array, n.conj, n.cumsum, n.ndarray = np_ceil, np_floor, np_sqrt, np_array, conj('np'), cumsum('np'), GN
    n.conjugate = n.conj
    n.isscalar = lambda x: isinstance(x, (GR, int, float))
    n.asarray = lambda x, *a, **k: x if isinstance(x, GSeq) and x.lib == 'np' and not a and not k else vc_unsup()

    class ContinuousWavelet(GWavelet):
        def __init__(self, *a):
            GWavelet.__init__(self, *a)

        def wavefun(self, precision=8, **k):
            return self.functions(precision)

    class Wavelet(GWavelet):
        def wavefun(self, level=8, **k):
            psi, x = self.functions(level)
            return (core.C.store['phi'], psi, x)
    p = W.fake['pywt']
    p.ContinuousWavelet, p.Wavelet = ContinuousWavelet, Wavelet

    class Name(str):
        pass

    def dcw(name):
        if isinstance(name, Name):
            return name.wav
        raise core.LibTypeError('unknown wavelet')
    p.DiscreteContinuousWavelet = dcw

    def s2f(w, s, precision=8):
        return GFreq(w, s, precision)
    W.fake['pywt._functions'] = fakes.Mod('pywt._functions', scale2frequency=s2f)
    p.scale2frequency = s2f

    def type_(x, *rest):
        if rest:
            return load.p_type(x, *rest)
        if isinstance(x, (GSeq, GScales)):
            return GT if x.lib == 'torch' else GN
        if isinstance(x, GFreq):
            return GN
        if isinstance(x, GT):
            return GT
        if isinstance(x, Name):
            return str
        return load.p_type(x)

    def isinst(x, cls):
        cs = cls if isinstance(cls, tuple) else getattr(cls, '__args__', (cls,))
        if isinstance(x, (GSeq, GScales)) and any(c in (GT, GN) for c in cs):
            return (GT if x.lib == 'torch' else GN) in cs
        return load.p_isinstance(x, cls)
    W.builtins = dict(W.builtins, type=type_, isinstance=isinst)
    W.mod = W.load('continuous_transform')
    W.Name = Name
    return W


def vc_unsup():
    raise Unsupported('library call')


_W = []


def world():
    if not _W:
        _W.append(make_world())
    return _W[0]


class FftT(vc.Tmpl):
    """the spectrum of the signal of the last size"""

    def __init__(self, d):
        self.d = d

    def at(self, i, st):
        if core.C.decide(eq(i, ZERO)):
            return None
        return GFft(self.d, sz(i))

    def holds(self, v, i, st):
        if core.C.proved(eq(i, ZERO)):
            return v is None
        return isinstance(v, GFft) and v.x is self.d and core.C.proved(eq(v.n, sz(i)))

    def __repr__(self):
        return 'the spectrum of the signal at the last transform size'


class SizeT(vc.Tmpl):
    def at(self, i, st):
        return mk(sz(i))

    def holds(self, v, i, st):
        return core.isint(v) and core.C.proved(eq(top(v), sz(i)))

    def __repr__(self):
        return 'the last transform size'


def sz(i):
    return ir.mkuf('sz', (i,))


def cwt_spec(kind, rank, how='array', dtype=F64, cplx=False, name=False, prec=12):
    """cwt(data, scales, wavelet): values, order of the scales, shape, dtype, frequencies, frame"""
    def body():
        C = core.C
        W = world()
        C.store['contracts'] = dict(vc.CONTRACTS)
        C.store['precision'] = prec
        C.inexact = C.ghost_reals = True  # the reals are opaque: a model of the solver need not be one of the code
        axioms()
        C.store['phi'] = GSeq(V('n_grid'), lambda t: ir.mkuf('phi', (t,)), 'np', F64)
        N, S, G = V('N'), V('S'), V('n_grid')
        C.assume(band(le(ONE, N), le(ONE, S), le(K(2), G)))
        dev = mkdev('dev')
        d = C.store.setdefault('signal', GData([V(f'b{q}') for q in range(rank - 1)], N, dtype, dev))  # one object on all paths
        grid = lambda t: ir.mkuf('grid', (t,))
        step, span = sub(grid(ONE), grid(ZERO)), sub(grid(sub(G, ONE)), grid(ZERO))

        def s(i):
            return ir.mkuf('scale', (i,))

        def M(i):
            return rcount(add(mul(s(i), span), ONE), mul(s(i), step), G)

        def ax_scale(i):  # domain: the scale is large enough for the wavelet to have two samples
            return [bor(lt(i, ZERO), le(S, i), le(K(2), M(i)))]
        ir.UFAXIOMS['scale'] = ax_scale
        ir.UFAXIOMS['sz'] = lambda i: [bor(bnot(eq(i, ZERO)), eq(sz(i), K(-1))),
                                       bor(lt(i, ONE), eq(sz(i), ir.mkuf('nfl', (sub(add(N, M(sub(i, ONE))), ONE),))))]

        def templates(v0, v1):
            out = []
            if core.isint(v0) and core.C.proved(eq(top(v0), K(-1))):
                out.append(SizeT())
            if v0 is None and isinstance(v1, GFft):
                out.append(FftT(d))
            return out
        C.store['extra_templates'] = (templates,)
        scales = {'array': lambda: GScales([Seg(S, lambda t: GR(s(t)))], 'np'), 'tensor': lambda: GScales([Seg(S, lambda t: GR(s(t)))], 'torch'),
                  'scalar': lambda: GR(s(ZERO))}[how]()
        n_s = ONE if how == 'scalar' else S
        p = W.fake['pywt']
        if kind == 'module':
            wav = object.__new__(diff_class(W))
            GWavelet.__init__(wav, 'module', cplx, 'torch')
        else:
            wav = (p.Wavelet if kind == 'discrete' else p.ContinuousWavelet)(kind, cplx)
        arg = wav
        if name:
            arg = W.Name('name')
            arg.wav = wav
        period = GR(V('period'))
        r = verify.call('cwt', W.mod.cwt, d, scales, arg, **({} if prec == 12 else dict(precision=prec)), sampling_period=period)
        ok = isinstance(r, tuple) and len(r) == 2
        C.record('a pair is returned', 'discharged' if ok else 'refuted', backend='structure', time=0, model=None if ok else C.model_dict())
        if not ok:
            return
        out, freq = r
        ok = isinstance(freq, GFreq) and freq.key[0] is wav and freq.key[2] == prec and isinstance(freq.by, GR) and same(freq.by.p, period.p)
        ok = ok and isinstance(freq.key[1], GScales) and same_scales(freq.key[1], n_s, s)
        C.record('frequencies = scale2frequency(wavelet, scales, precision) / sampling period', 'discharged' if ok else 'unknown', backend='z3', time=0)
        real = isinstance(out, RealPart)
        C.record('real values unless the wavelet is complex', 'discharged' if real == (not cplx) else 'refuted', backend='structure', time=0,
                 model=None if real == (not cplx) else C.model_dict())
        if real:
            out = out.x
        if not isinstance(out, Stack):
            raise Unsupported('another kind of result')
        segs = [x for x in out.segs if not (isinstance(x, Seg) and C.proved(eq(x.n, ZERO)))]
        if len(segs) != 1:
            C.record('one entry per scale', 'unknown', backend='structure', time=0)
            return
        x = segs[0]
        i = V('i')
        C.assume(band(ge0(i), lt(i, n_s)))
        C.oblige('one entry per scale', eq(core.seg_len(x), n_s))
        v = x.v if isinstance(x, El) else x.fn(i)
        if isinstance(x, El):
            i = ZERO
        m = M(i)
        lib_dt = REAL[dtype]

        def kernel(t):
            q = mul(step, ir.mkuf('cumsum_psi', (rfloor(sub(sub(m, ONE), t), mul(s(i), step)),)))
            return ir.mkuf('conj', (q,)) if cplx else q
        ker = GSeq(m, kernel, 'torch', CPLX[lib_dt] if cplx else lib_dt, dev if kind != 'module' else None)
        cv = Conv(d, ker)
        root = ir.mkuf('rsqrt', (s(i),))
        off = ir.div(sub(m, K(2)), K(2))
        want = Out(d, N, [(neg(root), cv, add(off, ONE)), (root, cv, off)], CPLX[lib_dt])
        if not isinstance(v, Out):
            raise Unsupported('another kind of entry')
        C.oblige('an entry has the length of the signal', eq(v.n, N))
        C.record('the batch shape is kept', 'discharged' if v.d is d else 'refuted', backend='structure', time=0)
        C.record('dtype of the data', 'discharged' if v.dtype == want.dtype else 'refuted', backend='enumeration', time=0, model=None if v.dtype == want.dtype else C.model_dict())
        for q in v.terms:  # the kernel is compared by value, its device by the result
            q[1].k.device = ker.device
            q[1].k.dtype = ker.dtype
        v.dtype = want.dtype
        C.record('entry = -sqrt(scale) times the first difference of the full convolution with the resampled integrated wavelet, cropped centrally',
                 'discharged' if v.sym_equal(want) else 'unknown', backend='z3', time=0)
    return f'cwt[{kind}{", complex" if cplx else ""}{", by name" if name else ""}, rank={rank}, scales={how}, {dtype}, precision={prec}]', body


def same_scales(x, n, s):
    segs = x.segs
    if len(segs) != 1 or not same(core.seg_len(segs[0]), n):
        return False
    t = V(vc.uvar('t'))
    if isinstance(segs[0], El):
        return same(segs[0].v.p, s(ZERO))
    return vc.with_assume(band(ge0(t), lt(t, n)), lambda: same(segs[0].fn(t).p, s(t)))


_D = []


def diff_class(W):
    if not _D:
        base = W.mod._DifferentiableContinuousWavelet
        _D.append(type('GDiff', (base,), dict(wavefun=lambda self, precision, **k: GWavelet.functions(self, precision), cuda=lambda self: self, cpu=lambda self: self)))
    return _D[0]


def specs(thorough=False):
    out = []
    for kind, cplx in (('continuous', False), ('continuous', True), ('discrete', False), ('module', True)):
        for rank in (1, 2, 3) + ((4,) if thorough else ()):
            for how in ('array', 'tensor', 'scalar'):
                for dt in (F64, F32):
                    for name in (False, True) if kind != 'module' else (False,):
                        for prec in (12, 9):
                            out.append(lambda W, a=(kind, rank, how, dt, cplx, name, prec): cwt_spec(*a))
    return out
