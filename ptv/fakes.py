"""Contracts assumed for torch, numpy, pywt and more_itertools (the trusted base).

Every function here states, over exact reals, what the library call returns or
raises.  selftest.py compares them with the real libraries on concrete inputs.
"""
import builtins
import math
import types
from fractions import Fraction

import core
import fseq
import ir
import tensor as T
from core import El, Seg, STuple, SymBool, SymFloat, SymInt, SymIter, SRange, TList, Unsupported, as_segments, mk, mkb, mk_tuple, top, tob
from ir import P, K, V, ZERO, ONE, TRUE, add, sub, mul, le, lt, eq, ge0, bnot, band, bor
from tensor import SymTensor, DT, F32, F64, I64, BOOL, Device, mkdev, e_atom, e_const, e_guard, prod, ndim_of


class Mod(types.ModuleType):
    def __init__(self, name, **kw):
        super().__init__(name)
        self.__dict__.update(kw)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Missing(f'{self.__name__}.{n}')


class Missing:
    """A library entity without a contract; using it ends the analysis of the path."""

    def __init__(self, n):
        object.__setattr__(self, 'n', n)

    def __call__(self, *a, **k):
        raise Unsupported(f'{self.n} has no contract')

    def __getattr__(self, a):
        if a.startswith('__'):
            raise AttributeError(a)
        return Missing(f'{self.n}.{a}')

    def __or__(self, o):
        return object
    __ror__ = __or__

    def __getitem__(self, o):
        return object

    def __mro_entries__(self, bases):
        return (Opaque,)


class Opaque:
    pass


# ------------------------------------------------------------------ SymWavelet
class Filt:
    """A filter: a Python list of 2h reals."""

    def __init__(self, wav, name):
        self.wav, self.name = wav, name

    def symlen(self):
        return mk(self.wav.L)

    def __len__(self):
        n = self.symlen()
        if isinstance(n, int):
            return n
        raise Unsupported('len of a filter')

    def tensor(self, dtype, device):
        g = (self.wav.L,)
        return SymTensor([g], lambda flat: e_atom(T.tag(dtype) + self.name, flat if flat else [ZERO]), dtype, device)

    def _sym_segments(self):
        raise Unsupported('iteration over filter taps')

    def __iter__(self):
        raise Unsupported('iteration over filter taps')

    def __getitem__(self, i):
        if isinstance(i, slice) and i.start is None and i.stop is None and i.step == -1:
            return RevFilt(self)
        raise Unsupported('filter tap')


class RevFilt(Filt):
    def __init__(self, f):
        self.f, self.wav, self.name = f, f.wav, f.name

    def tensor(self, dtype, device):
        L = self.wav.L
        return SymTensor([(L,)], lambda flat: e_atom(T.tag(dtype) + self.name, [sub(sub(L, ONE), flat[0] if flat else ZERO)]), dtype, device)


class SymWavelet:
    """An arbitrary filter bank whose four filters share the even length L = 2h."""

    def __init__(self, name='W', L=None, pre=''):
        self.name = name
        self.L = L if L is not None else ir.scale(V('h'), 2)
        self.pre = pre
        self.dec_lo, self.dec_hi = Filt(self, pre + 'dec_lo'), Filt(self, pre + 'dec_hi')
        self.rec_lo, self.rec_hi = Filt(self, pre + 'rec_lo'), Filt(self, pre + 'rec_hi')

    @property
    def filter_bank(self):
        return (self.dec_lo, self.dec_hi, self.rec_lo, self.rec_hi)

    @property
    def dec_len(self):
        return mk(self.L)
    rec_len = dec_len

    def symlen(self):
        return mk(self.L)

    def __len__(self):
        raise Unsupported('len of the wavelet')


class WName(str):
    """A wavelet given by name; pywt.Wavelet(name) yields its filter bank."""
    wav = None


# ------------------------------------------------------------------ torch
def as_tensor(data, dtype=None, device=None, requires_grad=False, **k):
    dev = mkdev(device)
    if isinstance(data, Filt):
        if dtype is None:
            dtype = F32
        return data.tensor(dtype, dev)
    if isinstance(data, SymTensor):
        r = data
        if dtype is not None and dtype is not data.dtype or device is not None and dev != data.device:
            r = data.to(dtype=dtype or data.dtype, device=dev if device is not None else data.device)
        return r
    if core.isint(data):
        p = top(data)
        return SymTensor([], None if False else (lambda fl: T.e_intval(p)), dtype or I64, dev, ielem=lambda fl: p)
    if isinstance(data, (float, Fraction)):
        return SymTensor([], lambda fl: e_const(Fraction(data)), dtype or F32, dev)
    if isinstance(data, (TList, list, tuple, STuple, builtins.range, SRange, SymIter)):
        segs = core.norm_segs(as_segments(data))
        if all(isinstance(x, El) for x in segs):
            vals = [x.v for x in segs]
            if all(core.isint(v) for v in vals):
                ps = [top(v) for v in vals]
                n = len(ps)

                def iel(fl):
                    i = fl[0] if n > 1 else ZERO
                    c = i.const()
                    if c is not None:
                        return ps[c]
                    r = ps[-1]
                    for q in range(n - 2, -1, -1):
                        r = ir.ite(eq(i, K(q)), ps[q], r)
                    return r
                r = SymTensor([(K(n),)], lambda fl: T.e_intval(iel(fl)), dtype or I64, dev, ielem=iel)
                return r
            if all(isinstance(v, (int, float, Fraction)) for v in vals):
                fs = [Fraction(v) for v in vals]
                n = len(fs)

                def el(fl):
                    i = fl[0] if n > 1 else ZERO
                    c = i.const()
                    if c is not None:
                        return e_const(fs[c])
                    return T.e_add(*[e_guard(e_const(f), eq(i, K(q))) for q, f in enumerate(fs)])
                return SymTensor([(K(n),)], el, dtype or F32, dev)
            if all(isinstance(v, (TList, list, tuple, STuple)) for v in vals):
                return T.stack([as_tensor(v, dtype, device) for v in vals], 0)
            if all(isinstance(v, T.SymScalar) for v in vals):
                n = len(vals)
                return SymTensor([(K(n),)], lambda fl: T.e_add(*[e_guard(v.e, eq(fl[0] if n > 1 else ZERO, K(q))) for q, v in enumerate(vals)]), dtype or F32, dev)
        elif len(segs) == 1:
            x = segs[0]
            v, at = fseq.uniform(x)
            if core.isint(v):
                iel = lambda fl: top(at(fl[0] if x.n != ONE else ZERO))  # noqa: E731
                return SymTensor([(x.n,)], lambda fl: T.e_intval(iel(fl)), dtype or I64, dev, ielem=iel)
            if isinstance(v, SymTensor) and v._ielem is None and all(not g for g in v.groups) and len(v.groups) <= 1:
                # a list of tensors with one element each is a list of numbers
                return SymTensor([(x.n,)], lambda fl: at(fl[0] if x.n != ONE else ZERO).E([]), dtype or v._dtype, dev)
    raise Unsupported(f'torch.tensor of {type(data).__name__}')


def tensor_(data, dtype=None, device=None, requires_grad=False, **k):
    r = as_tensor(data, dtype, device)
    return r.clone() if r is data else r


def sizes_of(a):
    if len(a) == 1 and not core.isint(a[0]):
        a = tuple(a[0])
    return [top(x) for x in a]


def zeros(*size, dtype=None, device=None, **k):
    if 'size' in k:
        size = (k['size'],)
    ps = sizes_of(size)
    return filled([(p,) for p in ps], 0, dtype or F32, mkdev(device))


def filled(groups, c, dtype, dev):
    r = SymTensor(groups, lambda fl: e_const(c), dtype, dev)
    if not dtype.is_floating_point and not dtype.is_complex:
        r._ielem = lambda fl: K(c)
    return r


def ones(*size, dtype=None, device=None, **k):
    ps = sizes_of(size)
    return filled([(p,) for p in ps], 1, dtype or F32, mkdev(device))


def ones_like(x, dtype=None, device=None, **k):
    return filled(x.groups, 1, dtype or x.dtype, mkdev(device) if device is not None else x.device)


def arange(*a, dtype=None, device=None, step=None, start=None, end=None, **k):
    if end is not None:
        a = (start or 0, end)
    if len(a) == 1:
        a = (0, a[0])
    if len(a) == 3:
        step = a[2]
    step = 1 if step is None else step
    r = SRange(a[0], a[1], step)
    n = r.count()
    lo, st = top(a[0]), top(step)
    iel = lambda fl: add(lo, mul(st, fl[0] if fl else ZERO))  # noqa: E731
    dt = dtype or I64
    return SymTensor([(n,)], lambda fl: T.e_intval(iel(fl)), dt, mkdev(device), ielem=iel)


def argsort(x, dim=-1, descending=False, **k):
    if x._ielem is None or len(x.groups) != 1:
        raise Unsupported('argsort')
    n = top(x.shape[0]).const()
    if n is None:
        raise Unsupported('argsort of symbolic size')
    vals = [x._ielem([K(i)] if x.groups[0] else []).const() for i in range(n)]
    if None in vals:
        raise Unsupported('argsort of symbolic values')
    return as_tensor(sorted(range(n), key=lambda i: vals[i], reverse=descending))


def arg_tensor(x):
    if not isinstance(x, SymTensor):
        raise core.LibTypeError('argument must be Tensor')
    return x


def split_(x, split_size_or_sections=None, dim=0, **k):
    if 'split_size' in k:
        split_size_or_sections = k['split_size']
    return T.split(arg_tensor(x), split_size_or_sections, dim)


def chunk(x, chunks, dim=0):
    return x.chunk(chunks, dim)


def seq(xs):
    segs = core.norm_segs(as_segments(xs))
    out = []
    for x in segs:
        if isinstance(x, Seg):
            raise Unsupported('tensor list of symbolic length')
        out.append(x.v)
    return out


def stack(tensors, dim=0, **k):
    segs = core.norm_segs(as_segments(tensors))
    if dim == 0 and len(segs) == 1 and isinstance(segs[0], Seg):
        x = segs[0]
        if not core.C.decide(ir.le(ONE, x.n)):
            raise RuntimeError('stack expects a non-empty TensorList')
        y, at = fseq.uniform(x)
        if not isinstance(y, SymTensor):
            raise core.LibTypeError('expected Tensor as element')
        z = at(V('probe'))
        if any('probe' in ir.fv(f) for g in z.groups for f in g):
            raise Unsupported('stack of tensors of varying size')
        one = x.n == ONE
        r = SymTensor([(x.n,)] + list(y.groups), lambda fl: at(ZERO).E(list(fl)) if one else at(fl[0]).E(list(fl[1:])), y._dtype, y._device)
        if y._ielem is not None:
            r._ielem = lambda fl: at(ZERO)._ielem(list(fl)) if one else at(fl[0])._ielem(list(fl[1:]))
        return r
    return T.stack(seq(tensors), dim)


def cat(tensors, dim=0, **k):
    h = core.C.store.get('cat_handler')
    if h is not None:
        segs = core.norm_segs(as_segments(tensors))
        if any(isinstance(x, Seg) for x in segs):
            return h(segs, dim)
    return T.cat(seq(tensors), dim)


def F_pad(input, pad, mode='constant', value=None):
    return T.pad(arg_tensor(input), seq(pad), mode, value)


def mkconv(k):
    def f(input, weight, bias=None, stride=1, padding=0, dilation=1, groups=1):
        return T.conv(arg_tensor(input), arg_tensor(weight), k, bias, stride, padding, dilation, groups)
    return f


def mkconvt(k):
    def f(input, weight, bias=None, stride=1, padding=0, output_padding=0, groups=1, dilation=1):
        return T.conv_transpose(arg_tensor(input), arg_tensor(weight), k, bias, stride, padding, output_padding, groups, dilation)
    return f


def method(n):
    def f(input, *a, **k):
        return getattr(arg_tensor(input), n)(*a, **k)
    return f


def device(x=None, *a):
    return mkdev(x)


def kron(a, b):
    if len(a.groups) != len(b.groups):
        raise Unsupported('kron of different ranks')
    if a._device != b._device:
        raise RuntimeError('Expected all tensors to be on the same device')
    if a.sparse is not None or b.sparse is not None:
        raise Unsupported('kron of sparse tensors')
    groups = [x + y for x, y in zip(a.groups, b.groups)]
    na = [len(g) for g in a.groups]

    def el(flat):
        parts = T.split_flat(groups, flat)
        return T.e_mul(a.E([v for p, k in zip(parts, na) for v in p[:k]]), b.E([v for p, k in zip(parts, na) for v in p[k:]]))
    r = SymTensor(groups, el, T.promote(a._dtype, b._dtype), a._device)
    r._rg = a._rg or b._rg
    return r


def pow_(x, n):
    """Integer powers: of a tensor that is -1, 0 or 1 everywhere, or with a small exponent."""
    if not isinstance(x, SymTensor) or not core.isint(n):
        raise Unsupported('torch.pow')
    p = top(n)
    c = p.const()
    if c is not None and 0 <= c <= 4:
        r = T.binop(x, 0, 'mul') + 1 if c == 0 else x
        for _ in range(c - 1):
            r = r * x
        return r if c != 1 else x.clone()
    base = x.E([V(f'?{q}') for q in range(sum(map(len, x.groups)))])
    if len(base) > 1 or base and (base[0][1] or base[0][2] != TRUE or base[0][3]) or not x._dtype.is_floating_point and not x._dtype.is_complex:
        raise Unsupported('torch.pow of an arbitrary tensor')
    b = base[0][0] if base else 0
    if b == 1:
        return x.clone()
    if b != -1:
        raise Unsupported('torch.pow of an arbitrary tensor')
    even = eq(ir.mod(p, K(2)), ZERO)
    odd = eq(ir.mod(p, K(2)), ONE)
    return x._like(x.groups, lambda fl: T.e_add(e_guard(e_const(1), even), e_guard(e_const(-1), odd)), view=False)


def Parameter(data, requires_grad=True):
    r = data._like(data.groups, data._elem, ielem=data._ielem)
    r._rg = requires_grad
    return r


def result_type(a, b):
    return T.promote(a.dtype, b.dtype)


def einsum(*a):
    raise Unsupported('einsum')


def numel(x):
    return x.numel()


def is_tensor(x):
    return isinstance(x, SymTensor)


def all_(x):
    return arg_tensor(x).all()


def unique_consecutive(x, return_inverse=False, return_counts=False, dim=None):
    import sparse
    if return_inverse or dim not in (None, 0):
        raise Unsupported('torch.unique')
    u, c = sparse.run_lengths(arg_tensor(x))
    return (u, c) if return_counts else u


def unique(x, sorted=True, return_inverse=False, return_counts=False, dim=None):
    return unique_consecutive(x, return_inverse, return_counts, dim)  # of a nondecreasing sequence


def norm(x, p=2, *a, **k):
    f = core.C.store.get('norm')
    if f is None or p not in (2, 2.0, 'fro') or a or k:
        raise Unsupported('torch.norm')
    return f(arg_tensor(x))


def vector_norm(x, ord=2, *a, **k):
    return norm(x, ord, *a, **k)


def qr(A, mode='reduced'):
    f = core.C.store.get('qr')
    if f is None or mode != 'reduced':
        raise Unsupported('torch.linalg.qr')
    return f(arg_tensor(A))


def sparse_mm(a, b):
    return T.matmul(a, b)


def make_torch():
    import sparse as S
    F = Mod('torch.nn.functional', pad=F_pad, conv1d=mkconv(1), conv2d=mkconv(2), conv3d=mkconv(3),
            conv_transpose1d=mkconvt(1), conv_transpose2d=mkconvt(2), conv_transpose3d=mkconvt(3))
    nn = Mod('torch.nn', functional=F)
    nn.Module = type('Module', (), {'__init__': lambda self, *a, **k: None})
    nn.Parameter = Parameter
    nn.parameter = Mod('torch.nn.parameter', Parameter=Parameter)
    t = Mod('torch', pow=pow_, square=lambda x: arg_tensor(x) * x, Tensor=SymTensor, nn=nn, device=DeviceProxy, dtype=T.DType, Size=T.Size,
            as_tensor=as_tensor, tensor=tensor_, zeros=zeros, ones=ones, arange=arange, argsort=argsort,
            zeros_like=T.zeros_like, ones_like=ones_like, split=split_, chunk=chunk, stack=stack, cat=cat, concat=cat, concatenate=cat,
            is_tensor=is_tensor, all=all_, numel=numel, matmul=T.matmul, mm=T.matmul, conv1d=mkconv(1), conv2d=mkconv(2), conv3d=mkconv(3),
            conv_transpose1d=mkconvt(1), conv_transpose2d=mkconvt(2), conv_transpose3d=mkconvt(3), result_type=result_type, kron=kron,
            sparse_coo=S.COO, strided=S.STRIDED, sparse_coo_tensor=S.coo, eye=S.eye)
    for n in ('reshape', 'permute', 'unsqueeze', 'squeeze', 'transpose', 'flip', 'flatten', 'sum', 'mean', 'clone', 'swapaxes',
              'movedim', 'moveaxis', 'narrow', 'select', 'mul', 'add', 'sub', 'swapdims', 't', 'is_floating_point', 'is_complex', 'unbind', 'neg', 'detach', 'ravel'):
        setattr(t, n, method(n))
    t.sparse = Mod('torch.sparse', mm=sparse_mm)
    t.linalg = Mod('torch.linalg', qr=qr, norm=norm, vector_norm=vector_norm)
    t.native_norm = t.norm = norm
    t.unique_consecutive, t.unique = unique_consecutive, unique
    t.promote_types = T.promote
    for n, d in DT.items():
        setattr(t, n, d)
    t.float, t.double, t.long, t.int, t.half, t.bool = F32, F64, I64, DT['int32'], DT['float16'], BOOL
    t.complex64, t.complex128 = DT['complex64'], DT['complex128']
    t.set_default_dtype = Missing('torch.set_default_dtype')
    return t, F, nn


class DeviceMeta(type):
    def __call__(cls, x=None, *a):
        return mkdev(x)

    def __instancecheck__(cls, x):
        return isinstance(x, Device)


class DeviceProxy(metaclass=DeviceMeta):
    pass


# ------------------------------------------------------------------ numpy / pywt / itertools
def np_prod(xs, *a, **k):
    r = 1
    for x in seq(xs):
        r = r * x
    if isinstance(r, (int, SymInt)) and not seq(xs):
        return 1.0  # numpy: the empty product is a float
    return r


def np_log2(x):
    if isinstance(x, SymInt):
        return SymFloat('log2', (x.p, ONE))
    if isinstance(x, SymFloat) and x.kind == 'ratio':
        return SymFloat('log2', x.args)
    if isinstance(x, (int, float)):
        if x == 0:
            return float('-inf')
        return math.log2(x)
    raise Unsupported('log2')


def np_min(xs):
    return core.sym_min(seq(xs))


def np_max(xs):
    return core.sym_max(seq(xs))


def Wavelet(name, filter_bank=None):
    if isinstance(name, WName):
        return name.wav
    if isinstance(name, str):
        return core.C.store['named_wavelet'](name) if 'named_wavelet' in core.C.store else _unsup('pywt.Wavelet of a literal name')
    raise core.LibTypeError('Argument name must be a string')


def _unsup(m):
    raise Unsupported(m)


def wlen(w):
    if core.isint(w):
        return top(w)
    if isinstance(w, (SymWavelet,)):
        return w.L
    if isinstance(w, WName):
        return w.wav.L
    raise Unsupported('filter length')


def maxlevel(n, L):
    """Contract of pywt.dwt_max_level for a filter of at least two taps."""
    b = ir.sub(L, ir.ONE)
    return ir.ite(ir.le(b, n), ir.mkuf('flog2', (n, b)), ir.ZERO)


def dwt_max_level(data_len, filter_len):
    if core.isint(data_len):
        return mk(maxlevel(top(data_len), wlen(filter_len)))
    raise Unsupported('dwt_max_level')


def dwtn_max_level(shape, wavelet, axes=None):
    if axes is not None:
        raise Unsupported('dwtn_max_level axes')
    ls = [dwt_max_level(n, wavelet) for n in seq(shape)]
    return core.sym_min(*ls) if len(ls) > 1 else ls[0]


def swt_max_level(n):
    return mk(ir.mkuf('swtmax', (top(n),)))


def _ax_nonneg(name):
    def f(*args):
        return [ge0(ir.atom(('uf', name, tuple(args))))]
    return f


ir.UFAXIOMS['swtmax'] = _ax_nonneg('swtmax')


def grouper(iterable, n, incomplete='fill', fillvalue=None):
    vals = seq(iterable)
    out = []
    for i in range(0, len(vals), n):
        g = vals[i:i + n]
        if len(g) < n:
            if incomplete == 'fill':
                g = g + [fillvalue] * (n - len(g))
            elif incomplete == 'strict':
                raise ValueError('Expected iterable to be divisible by n.')
            elif incomplete == 'ignore':
                break
        out.append(tuple(g))
    return SymIter([El(x) for x in out])


def make_numpy():
    m = Mod('numpy', prod=np_prod, log2=np_log2, min=np_min, max=np_max, pi=math.pi)
    return m


def make_pywt():
    m = Mod('pywt', Wavelet=WaveletProxy, dwt_max_level=dwt_max_level, dwtn_max_level=dwtn_max_level, swt_max_level=swt_max_level)
    return m


class WMeta(type):
    def __call__(cls, name, filter_bank=None):
        return Wavelet(name, filter_bank)

    def __instancecheck__(cls, x):
        return isinstance(x, SymWavelet)


class WaveletProxy(metaclass=WMeta):
    pass
