"""Symbolic tensors: shapes are lists of integer factors, entries are sums of
products over the (mathematical) reals.

Mono = (coefficient, bound variables, guard, atoms);  value of an entry =
sum over monos, over all integer values of the bound variables with guard true,
of coefficient * product of atoms.  atom = (name, index tuple).
"""
import itertools
from fractions import Fraction

import ir
import z3
import core
from ir import P, K, V, ZERO, ONE, TRUE, FALSE, add, sub, mul, neg, scale, ge0, le, lt, eq, bnot, band, bor, ite
from core import Unsupported, SymInt, SymBool, SymFloat, TList, STuple, mk, mkb, top, tob, sym_len

_bvn = itertools.count()
F1 = Fraction(1)


def fresh_bv():
    return f'#{next(_bvn)}'


# ------------------------------------------------------------------ entries
def e_const(c):
    c = Fraction(c)
    return [(c, (), TRUE, ())] if c else []


def e_atom(name, idx):
    return [(F1, (), TRUE, ((name, tuple(idx)),))]


def e_add(*es):
    return [m for e in es for m in e]


def e_scale(e, c):
    c = Fraction(c)
    return [(a * c, b, g, t) for a, b, g, t in e] if c else []


def e_guard(e, cond):
    if cond == TRUE:
        return e
    if cond == FALSE:
        return []
    out = []
    for a, b, g, t in e:
        g2 = band(g, cond)
        if g2 != FALSE:
            out.append((a, b, g2, t))
    return out


def e_subst(e, s):
    memo = {}
    out = []
    for a, b, g, t in e:
        g2 = ir.subst(g, s, memo)
        if g2 == FALSE:
            continue
        out.append((a, b, g2, tuple((n, tuple(ir.subst(x, s, memo) for x in ix)) for n, ix in t)))
    return out


def e_rename(m):
    a, b, g, t = m
    if not b:
        return m
    s = {x: V(fresh_bv()) for x in b}
    (r,) = e_subst([(a, (), g, t)], s) or [None]
    if r is None:
        return None
    return (a, tuple(next(iter(ir.fv(s[x]))) for x in b), r[2], r[3])


def e_mul(x, y):
    out = []
    for m1 in x:
        for m2 in y:
            if m1[1] and m2[1]:
                m2 = e_rename(m2)
                if m2 is None:
                    continue
            g = band(m1[2], m2[2])
            if g != FALSE:
                out.append((m1[0] * m2[0], m1[1] + m2[1], g, m1[3] + m2[3]))
    return out


def e_sum(n, fn):
    """sum_{0 <= k < n} fn(k)"""
    c = n.const()
    if c is not None and c <= 8:
        return e_add(*[fn(K(i)) for i in range(c)])
    k = fresh_bv()
    kk = V(k)
    dom = band(ge0(kk), lt(kk, n))
    return [(a, b + (k,), band(g, dom), t) for a, b, g, t in fn(kk)]


# ------------------------------------------------------------------ dtype / device
class DType:
    def __init__(self, name, fp, order):
        self.name, self.is_floating_point, self.order = name, fp, order
        self.is_complex = name.startswith('complex')

    def __repr__(self):
        return 'torch.' + self.name

    def __reduce__(self):
        return (str, (self.name,))


class Device:
    def __init__(self, t):
        self.type = t
        self.index = None

    def __eq__(self, o):
        if isinstance(o, str):
            return False
        return isinstance(o, Device) and self.type == o.type

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.type)

    def __repr__(self):
        return f'device(type={self.type!r})'


DT = {n: DType(n, n.startswith(('float', 'bfloat')), i) for i, n in enumerate(
    ['bool', 'uint8', 'int8', 'int16', 'int32', 'int64', 'bfloat16', 'float16', 'float32', 'float64', 'complex64', 'complex128'])}
F64, F32, I64, BOOL = DT['float64'], DT['float32'], DT['int64'], DT['bool']


class Storage:
    __slots__ = ('frozen', 'version', 'name')

    def __init__(self, frozen=None, name=None):
        self.frozen, self.version, self.name = frozen, 0, name


class Size(tuple):
    """torch.Size"""

    def numel(self):
        r = 1
        for x in self:
            r = r * x
        return r

    def __getitem__(self, i):
        if isinstance(i, SymInt):
            raise Unsupported('symbolic axis')
        try:
            r = tuple.__getitem__(self, i)
        except IndexError as e:
            raise IndexError(str(e)) from None
        return Size(r) if isinstance(i, slice) else r

    def __add__(self, o):
        return Size(tuple(self) + tuple(o))

    def __radd__(self, o):
        return Size(tuple(o) + tuple(self))


def prod(ps):
    r = ONE
    for p in ps:
        r = mul(r, p)
    return r


class SymTensor:
    def __init__(self, groups, elem, dtype=F64, device=None, storage=None, sparse=None, ielem=None):
        self.groups = [tuple(f for f in g if f != ONE) for g in groups]
        self._raw = None
        self._elem = elem
        self._ielem = ielem
        self._dtype = dtype
        self._device = device or Device('cpu')
        self.storage = storage or Storage()
        self.version = self.storage.version
        self.sparse = sparse  # None or a Coo
        self._rowof = None  # (tensor, row, version at selection) of a row view that may be written
        self._rg = False
        self.bcond = None
        self._recip = None  # function giving 1 / self, where the contract knows it

    # -- basic
    dtype = property(lambda s: s._dtype)
    device = property(lambda s: s._device)
    is_sparse = property(lambda s: s.sparse is not None)
    requires_grad = property(lambda s: s._rg)

    @property
    def shape(self):
        return Size(mk(prod(g)) for g in self.groups)

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def dim(self):
        return len(self.groups)
    ndim = property(dim)
    ndimension = dim

    def symlen(self):
        if not self.groups:
            raise core.LibTypeError('len() of a 0-d tensor')
        return self.shape[0]

    def __len__(self):
        n = self.symlen()
        if isinstance(n, int):
            return n
        raise Unsupported('len of a symbolic tensor')

    def numel(self):
        return mk(prod([f for g in self.groups for f in g]))
    nelement = numel

    def is_floating_point(self):
        return self._dtype.is_floating_point

    def is_complex(self):
        return self._dtype.is_complex

    def E(self, flat):
        if self.version != self.storage.version:
            raise Unsupported('use of a view after an in-place write')
        return self._elem(flat)

    def at(self, multi):
        """Entry for one index (P, or tuple of factor indices) per dimension."""
        flat = []
        for g, i in zip(self.groups, multi):
            if isinstance(i, tuple):
                flat.extend(i)
            elif len(g) == 1:
                flat.append(i)
            elif len(g) == 0:
                pass
            else:
                flat.extend(unlin(i, g))
        return self.E(flat)

    def _like(self, groups, elem, view=True, dtype=None, ielem=None):
        r = SymTensor(groups, elem, dtype or self._dtype, self._device, self.storage if view else None, ielem=ielem)
        if view:
            r.version = self.version
        r._rg = self._rg
        return r

    def __repr__(self):
        return f'tensor(shape={tuple(self.shape)}, dtype={self._dtype})'

    def __bool__(self):
        if self._ielem is not None and not any(self.groups):
            return bool(mkb(bnot(eq(self._ielem([]), ZERO))))
        raise Unsupported('truth of a tensor')

    def __iter__(self):
        n = self.symlen()
        if not isinstance(n, int):
            raise Unsupported('iteration over a tensor of symbolic length')
        for i in range(n):
            yield self[i]

    def _sym_segments(self):
        n = top(self.symlen())
        c = n.const()
        if c is not None:
            return [core.El(self[i]) for i in range(c)]
        return [core.Seg(n, lambda t: select(self, 0, t))]

    # -- views
    def unsqueeze(self, dim):
        n = len(self.groups) + 1
        d = dim + n if dim < 0 else dim
        if not 0 <= d < n:
            raise IndexError('Dimension out of range')
        g = self.groups
        r = self._like(g[:d] + [()] + g[d:], self._elem, ielem=self._ielem)
        r.sparse = self.sparse and True
        return r

    def squeeze(self, dim=None):
        g = self.groups
        if dim is None:
            out = self
            for d in reversed(range(len(g))):
                out = out.squeeze(d)
            return out
        d = ndim_of(dim, len(g))
        if g[d]:
            n = prod(g[d])
            if not core.C.decide(eq(n, ONE)):
                return self._like(g, self._elem, ielem=self._ielem)
            k = sum(len(x) for x in g[:d])
            m = len(g[d])
            ins = [ZERO] * m

            def fix(f):
                return None if f is None else (lambda flat: f(flat[:k] + ins + flat[k:]))
            return self._like(g[:d] + g[d + 1:], fix(self._elem), ielem=fix(self._ielem))
        return self._like(g[:d] + g[d + 1:], self._elem, ielem=self._ielem)

    def permute(self, *dims):
        if len(dims) == 1 and not isinstance(dims[0], (int, SymInt)):
            dims = tuple(dims[0])
        return permute(self, dims)

    def transpose(self, a, b):
        n = len(self.groups)
        a, b = ndim_of(a, n), ndim_of(b, n)
        d = list(range(n))
        d[a], d[b] = d[b], d[a]
        return permute(self, d)
    swapaxes = swapdims = transpose

    @property
    def T(self):
        return permute(self, list(range(len(self.groups)))[::-1])

    @property
    def mT(self):
        return self.transpose(-1, -2)

    def t(self):
        return self.T

    def reshape(self, *shape):
        if len(shape) == 1 and not core.isint(shape[0]):
            shape = shape[0]
        return reshape(self, shape)
    view = reshape

    def flatten(self, start_dim=0, end_dim=-1):
        n = len(self.groups)
        s, e = ndim_of(start_dim, n), ndim_of(end_dim, n)
        g = self.groups
        return self._like(g[:s] + [tuple(f for x in g[s:e + 1] for f in x)] + g[e + 1:], self._elem, ielem=self._ielem)

    def contiguous(self, **k):
        return self

    def detach(self):
        r = self._like(self.groups, self._elem, ielem=self._ielem)
        r.sparse = self.sparse
        r._rg = False
        return r

    def requires_grad_(self, v=True):
        self._rg = v
        return self

    def clone(self):
        r = self._like(self.groups, self._elem, view=False, ielem=self._ielem)
        r.sparse = self.sparse
        return r

    def cpu(self):
        return self.to('cpu')

    def to(self, *a, dtype=None, device=None, **k):
        for x in a:
            if isinstance(x, DType):
                dtype = x
            elif isinstance(x, (Device, str)):
                device = x
            elif isinstance(x, SymTensor):
                dtype, device = x.dtype, x.device
            else:
                raise Unsupported('Tensor.to')
        r = self._like(self.groups, self._elem, dtype=dtype, ielem=self._ielem)
        if dtype is not None and dtype.is_floating_point and self._ielem is not None:
            r._ielem = None
            f = self._ielem
            r._elem = lambda flat: e_intval(f(flat))
        elif dtype is not None and dtype.order < self._dtype.order and self._dtype.is_floating_point and self._elem is not None:
            r._elem = lambda flat, f=r._elem: e_narrow(f(flat), dtype)
        if device is not None:
            r._device = mkdev(device)
        r.sparse = self.sparse
        return r
    type = to

    def float(self):
        return self.to(F32)

    def double(self):
        return self.to(F64)

    def expand(self, *shape):
        if len(shape) == 1 and not core.isint(shape[0]):
            shape = tuple(shape[0])
        return broadcast_to(self, [None if isinstance(s, int) and s == -1 else top(s) for s in shape])

    def flip(self, *dims):
        if len(dims) == 1 and not core.isint(dims[0]):
            dims = tuple(dims[0])
        n = len(self.groups)
        ds = [ndim_of(d, n) for d in dims]
        g = [tuple(x) for x in self.groups]

        def mapi(f):
            if f is None:
                return None

            def r(flat):
                out, p = [], 0
                for d, x in enumerate(g):
                    for q in x:
                        out.append(sub(sub(q, ONE), flat[p]) if d in ds else flat[p])
                        p += 1
                return f(out)
            return r
        return self._like(g, mapi(self._elem), view=False, ielem=mapi(self._ielem))

    def split(self, size, dim=0):
        return split(self, size, dim)

    def chunk(self, n, dim=0):
        d = ndim_of(dim, len(self.groups))
        s = top(self.shape[d])
        return split(self, mk(ir.div(add(s, K(n - 1)), K(n))), dim)

    def unbind(self, dim=0):
        n = self.shape[dim]
        if not isinstance(n, int):
            raise Unsupported('unbind')
        return tuple(select(self, ndim_of(dim, len(self.groups)), K(i)) for i in range(n))

    def select(self, dim, i):
        if isinstance(i, SymTensor) and not any(i.groups) and i._ielem is not None:
            i = i.item()
        return select(self, ndim_of(dim, len(self.groups)), norm_index(i, top(self.shape[dim])))

    def narrow(self, dim, start, length):
        d = ndim_of(dim, len(self.groups))
        ix = [slice(None)] * len(self.groups)
        ix[d] = slice(start, start + length)
        return self[tuple(ix)]

    def movedim(self, a, b):
        return movedim(self, a, b)
    moveaxis = movedim

    def __getitem__(self, ix):
        return getitem(self, ix)

    # -- arithmetic
    def __add__(self, o):
        return binop(self, o, 'add')
    __radd__ = __add__
    add = __add__

    def __sub__(self, o):
        return binop(self, o, 'sub')

    def __rsub__(self, o):
        return binop(-self, o, 'add')

    def __mul__(self, o):
        return binop(self, o, 'mul')
    __rmul__ = __mul__
    mul = __mul__

    def __pow__(self, n):
        import fakes
        return fakes.pow_(self, n)
    pow = __pow__

    def square(self):
        return self * self

    def __neg__(self):
        return self._like(self.groups, lambda f: e_scale(self.E(f), -1), view=False, ielem=None if self._ielem is None else lambda f: neg(self._ielem(f)))

    def __truediv__(self, o):
        return binop(self, o, 'div')
    div = __truediv__

    def __rtruediv__(self, o):
        if self._recip is None:
            raise Unsupported('division by a tensor')
        return self._recip() * o

    def reciprocal(self):
        if self._recip is None:
            raise Unsupported('division by a tensor')
        return self._recip()

    def norm(self, p=None, *a, **k):
        import fakes
        return fakes.norm(self, *(() if p is None else (p,)), *a, **k)

    def _inplace(self, r):
        if [prod(g) for g in r.groups] != [prod(g) for g in self.groups]:
            for a, b in zip(r.groups, self.groups):
                if not core.C.proved(eq(prod(a), prod(b))):
                    raise Unsupported('in-place operation changes the shape')
        if self.storage.frozen:
            core.C.frozen_hits.append(self.storage.frozen)
        self.storage.version += 1
        self.version = self.storage.version
        old = r
        self.groups, self._elem, self._ielem = r.groups, old._elem, old._ielem
        self.bcond = r.bcond
        if r.sparse is not None:
            self.sparse = r.sparse
        return self

    def __iadd__(self, o):
        return self._inplace(binop(self._snap(), o, 'add'))
    add_ = __iadd__

    def __isub__(self, o):
        return self._inplace(binop(self._snap(), o, 'sub'))
    sub_ = __isub__

    def __imul__(self, o):
        return self._inplace(binop(self._snap(), o, 'mul'))
    mul_ = __imul__

    def __itruediv__(self, o):
        return self._inplace(binop(self._snap(), o, 'div'))
    div_ = __itruediv__

    def _snap(self):
        r = self._like(self.groups, self._elem, view=False, ielem=self._ielem)
        r.sparse = self.sparse
        return r

    def zero_(self):
        return self._inplace(zeros_like(self))

    def fill_(self, v):
        return self._inplace(SymTensor(self.groups, lambda f: e_const(Fraction(v)), self._dtype, self._device))

    def copy_(self, o):
        return self._inplace(broadcast_to(o, [prod(g) for g in self.groups])._snap())

    def __setitem__(self, ix, v):
        import sparse
        sparse.setitem(self, ix, v)

    def repeat_interleave(self, repeats, dim=None, **k):
        import sparse
        if dim not in (None, 0):
            raise Unsupported('repeat_interleave along a dimension')
        return sparse.repeat_interleave(self, repeats)

    def all(self):
        import sparse
        return sparse.all_true(self)

    def mm(self, o):
        if len(self.groups) != 2 or len(o.groups) != 2:
            raise RuntimeError('mm: 2-D tensors expected')
        return matmul(self, o)

    def __matmul__(self, o):
        return matmul(self, o)

    def sum(self, dim=None, keepdim=False):
        return tsum(self, dim, keepdim)

    def mean(self, dim=None, keepdim=False):
        return tmean(self, dim, keepdim)

    def _cmp(self, o, f):
        if self._ielem is not None and core.isint(o):
            g = self._ielem
            q = top(o)
            r = SymTensor(self.groups, lambda fl: [], BOOL, self._device)
            r.bcond = lambda fl: f(g(fl), q)
            return r
        raise Unsupported('comparison of tensors')

    def __lt__(self, o):
        return self._cmp(o, lt)

    def __le__(self, o):
        return self._cmp(o, le)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: lt(b, a))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: le(b, a))

    def __eq__(self, o):
        return self._cmp(o, eq)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: bnot(eq(a, b)))
    __hash__ = object.__hash__

    def __and__(self, o):
        if self.bcond and o.bcond:
            r = SymTensor(self.groups, lambda fl: [], BOOL, self._device)
            r.bcond = lambda fl: band(self.bcond(fl), o.bcond(fl))
            return r
        raise Unsupported('& of tensors')

    def tolist(self):
        if self._ielem is None:
            raise Unsupported('tolist')
        sh = self.shape
        if len(sh) == 1:
            n = top(sh[0])
            return TList.of(core.norm_segs([core.Seg(n, lambda t: mk(self._ielem([t] if self.groups[0] else [])))]))
        if len(sh) == 0:
            return mk(self._ielem([]))
        raise Unsupported('tolist')

    def item(self):
        if self._ielem is not None:
            return mk(self._ielem([ZERO for g in self.groups for _ in g]))
        e = self.E([ZERO for g in self.groups for _ in g])
        f = core.C.store.get('scalar')
        c = f(e) if f else None
        return SymScalar(e if c is None else c[1])

    def _item_int(self):
        return self.item()

    def __index__(self):
        r = self.item()
        if isinstance(r, int):
            return r
        raise Unsupported('tensor as index')

    # -- sparse
    def coalesce(self):
        if self.sparse is None:
            raise RuntimeError('coalesce expected sparse coordinate tensor layout but got Strided')
        import sparse
        return sparse.coalesce(self)

    def indices(self):
        import sparse
        return sparse.indices(self)

    def values(self):
        import sparse
        return sparse.values(self)
    _indices, _values = indices, values

    def to_dense(self):
        r = self._like(self.groups, self._elem, view=False)
        r.sparse = None
        return r

    def to_sparse(self):
        import sparse
        return sparse.from_dense(self)

    def __getattr__(self, n):
        raise Unsupported(f'Tensor.{n} has no contract')


class SymScalar:
    """A real number (one entry)."""

    def __init__(self, e):
        self.e = e

    def __getattr__(self, n):
        raise Unsupported('scalar value')

    def __bool__(self):
        raise Unsupported('truth of a real')


ROUNDED = set()  # atom names that stand for values rounded once to the data type BASE[0] of the specification
BASE = [F64]


def tag(dtype):
    return '' if dtype is BASE[0] else dtype.name + ':'


def e_narrow(e, dtype):
    """Conversion to a narrower type: exact values become rounded ones (never exact again)."""
    def nm(n):
        if n in ROUNDED:
            return tag(dtype) + n if dtype.order < BASE[0].order else n
        if n.startswith('float64:') and n[8:] in ROUNDED:
            return tag(dtype) + n[8:]
        return n
    return [(a, b, g, tuple((nm(n), ix) for n, ix in t)) for a, b, g, t in e]


def e_intval(p):
    """The integer p as a real entry."""
    c = p.const()
    if c is not None:
        return e_const(c)
    return [(F1, (), TRUE, (('int', (p,)),))]


def mkdev(d):
    if isinstance(d, Device):
        return d
    if d is None:
        return Device('cpu')
    return Device(str(d).split(':')[0])


def ndim_of(d, n):
    if not isinstance(d, int):
        raise Unsupported('symbolic dimension')
    if not -n <= d < n:
        raise IndexError('Dimension out of range')
    return d % n


def unlin(i, g):
    """Linear index -> factor indices."""
    c = i.const()
    if c == 0:
        return [ZERO] * len(g)
    # i of the form sum of idx*stride is not recovered syntactically; use div/mod for constant strides
    out = []
    rest = i
    for f in reversed(g[1:]):
        if f.const() is None:
            raise Unsupported('linear index into a product of symbolic sizes')
        out.append(ir.mod(rest, f))
        rest = ir.div(rest, f)
    out.append(rest)
    return out[::-1]


def split_flat(groups, flat):
    out, p = [], 0
    for g in groups:
        out.append(list(flat[p:p + len(g)]))
        p += len(g)
    return out


def single(x, d):
    """View of dim d as a single factor (its size as P)."""
    g = x.groups[d]
    if len(g) > 1:
        cs = [f.const() for f in g]
        if None in cs[1:]:
            raise Unsupported('dimension is a product of symbolic sizes')
    return prod(g)


def idx1(g, i):
    """flat indices for a dim with factors g from a single index."""
    if len(g) == 1:
        return [i]
    if len(g) == 0:
        return []
    return unlin(i, g)


def remap(x, d, size, f, view=True, guardf=None):
    """New tensor whose dim d has `size`; index i of it reads index f(i) of x (guard guardf(i))."""
    g = x.groups
    single(x, d)
    ng = g[:d] + [() if size == ONE else (size,)] + g[d + 1:]
    a = sum(len(y) for y in g[:d])
    one = size == ONE
    gd = g[d]

    def el(base):
        if base is None:
            return None

        def r(flat):
            if one:
                i, rest = ZERO, flat[a:]
            else:
                i, rest = flat[a], flat[a + 1:]
            out = base(list(flat[:a]) + idx1(gd, f(i)) + list(rest))
            if guardf is not None:
                out = e_guard(out, guardf(i))
            return out
        return r
    return x._like(ng, el(x.E), view=view, ielem=el(x._ielem) if guardf is None else None)


def select(x, d, i):
    g = x.groups
    a = sum(len(y) for y in g[:d])
    ins = idx1(g[d], i)

    def el(base):
        return None if base is None else lambda flat: base(list(flat[:a]) + ins + list(flat[a:]))
    r = x._like(g[:d] + g[d + 1:], el(x.E), ielem=el(x._ielem))
    r.sparse = x.sparse and True
    return r


def permute(x, dims):
    dims = [top(d).const() for d in dims]
    n = len(x.groups)
    dims = [ndim_of(d, n) for d in dims]
    if sorted(dims) != list(range(n)):
        raise RuntimeError('permute(sparse_coo): number of dimensions in the tensor input does not match the length of the desired ordering of dimensions')
    g = x.groups

    def el(base):
        if base is None:
            return None

        def r(flat):
            parts = split_flat([g[d] for d in dims], flat)
            out = [None] * n
            for k, d in enumerate(dims):
                out[d] = parts[k]
            return base([v for p in out for v in p])
        return r
    r = x._like([g[d] for d in dims], el(x.E), ielem=el(x._ielem))
    if x.sparse is not None:
        import sparse
        r.sparse = sparse.permuted(x.sparse, dims)
    return r


def movedim(x, a, b):
    a = [a] if isinstance(a, int) else list(a)
    b = [b] if isinstance(b, int) else list(b)
    n = len(x.groups)
    a, b = [ndim_of(i, n) for i in a], [ndim_of(i, n) for i in b]
    order = [i for i in range(n) if i not in a]
    for dst, src in sorted(zip(b, a)):
        order.insert(dst, src)
    return permute(x, order)


FACTORS = {}  # remembered factorisations of products


def reshape(x, shape):
    shape = [top(s) for s in shape]
    src = [f for g in x.groups for f in g]
    tot = prod(src)
    C = core.C
    minus = [i for i, s in enumerate(shape) if s.const() == -1]
    if len(minus) > 1:
        raise RuntimeError('only one dimension can be inferred')
    if minus:
        rest = prod([s for i, s in enumerate(shape) if i != minus[0]])
    groups = [None] * len(shape)

    def take(fs, want):
        """Consume factors from the left of fs with product `want`."""
        acc = ONE
        for k in range(len(fs) + 1):
            if acc == want:
                return list(fs[:k]), fs[k:]
            if k < len(fs):
                acc = mul(acc, fs[k])
        out = []
        need = want
        while need != ONE:
            if not fs:
                return None if not C.proved(eq(need, ONE)) else (out, fs)
            f = fs[0]
            q = f if need == f else None
            if q is not None:
                out.append(f)
                fs = fs[1:]
                need = ONE
                break
            d = ir.monic_div(need, f)
            if d is not None:
                out.append(f)
                fs = fs[1:]
                need = d
                continue
            if C.proved(eq(need, f)):
                out.append(f)
                fs = fs[1:]
                need = ONE
                break
            cn, cf = need.const(), f.const()
            if cn is not None and cf is not None and cf % cn == 0:
                # split a constant factor
                return ('split', 0, cn)
            return None
        return out, fs

    # left to right until the -1, right to left after it
    fs = list(src)
    left = minus[0] if minus else len(shape)
    ok = True
    for i in range(left):
        r = take(fs, shape[i])
        if r is None or r[0] == 'split':
            ok = False
            break
        groups[i], fs = r
    if ok and minus:
        fs = fs[::-1]
        for i in range(len(shape) - 1, left, -1):
            r = take(fs, shape[i])
            if r is None or r[0] == 'split':
                ok = False
                break
            groups[i], fs = list(reversed(r[0])), r[1]
        if ok:
            groups[left] = fs[::-1]
            fs = []
    if ok and fs:
        ok = all(C.proved(eq(f, ONE)) for f in fs)
        if ok and fs:
            # trailing factors equal to one: read index 0
            k = len(fs)
            m = len(src) - k
            base = x._like([tuple(src[:m])], lambda flat: x.E(list(flat) + [ZERO] * k))
            return base._like([tuple(g) for g in groups], base._elem)
    if not ok:
        # a genuine size mismatch raises, everything else is outside the subset
        if not minus:
            p = prod(shape)
            if C.check(eq(p, tot)) == 'unsat':
                raise RuntimeError(f'shape {shape} is invalid for input')
            return regroup(x, shape, src)
        p = ir.monic_div(tot, rest)
        if p is not None:
            shape[minus[0]] = p
            return regroup(x, shape, src)
        raise Unsupported(f'reshape {src} -> {shape}')
    r = x._like([tuple(g) for g in groups], x.E, ielem=x._ielem)
    r.sparse = x.sparse and True
    return r


def regroup(x, shape, src):
    """Reshape where constant factors have to be split or merged."""
    fs, k = [s for s in shape if s != ONE], 0
    while k < len(src) - 1 and k < len(fs) and fs[k] == src[k]:
        k += 1
    if k == len(src) - 1 and not (k == 0 and prod(shape) == src[0]) and src[k].const() is None and ir.monic_div(src[k], fs[k]) is None and core.C.proved(eq(prod(fs[k:]), src[k])):
        # a last factor of another form: row-major splitting of its index

        def split(base):
            def r(flat):
                lin = ZERO
                for f, i in zip(fs[k:], flat[k:]):
                    lin = add(mul(lin, f), i)
                return base(list(flat[:k]) + [lin])
            return None if base is None else r
        return x._like([() if s == ONE else (s,) for s in shape], split(x.E), ielem=split(x._ielem))
    if len(src) == 1 and prod(shape) == src[0]:  # one index: row-major splitting into any sizes
        keep = [s for s in shape if s != ONE]

        def row_major(base):
            def r(flat):
                lin = ZERO
                for f, i in zip(keep, flat):
                    lin = add(mul(lin, f), i)
                return base([lin])
            return None if base is None else r
        return x._like([() if s == ONE else (s,) for s in shape], row_major(x.E), ielem=row_major(x._ielem))
    # split every constant factor where the target asks for it, via linear index of constant trailing factors
    if all(f.const() is not None for f in src) and all(s.const() is not None for s in shape):
        tgt = [s.const() for s in shape]
        sc = [f.const() for f in src]

        def el(base):
            if base is None:
                return None

            def r(flat):
                full = []
                it = iter(flat)
                for t in tgt:
                    full.append(next(it) if t != 1 else ZERO)
                lin = ZERO
                for t, i in zip(tgt, full):
                    lin = add(scale(lin, t), i)
                out = []
                for c in reversed(sc):
                    out.append(ir.mod(lin, K(c)))
                    lin = ir.div(lin, K(c))
                return base(out[::-1])
            return r
        return x._like([(K(t),) for t in tgt], el(x.E), ielem=el(x._ielem))
    # factor refinement: one source factor c*f or constant split
    fs = list(src)
    refined = []
    maps = []  # per source factor: list of (factor) pieces
    ti = [s for s in shape if s != ONE]
    k = 0
    need = None
    for f in fs:
        if need is None:
            if k >= len(ti):
                raise Unsupported('reshape')
            need = ti[k]
            k += 1
        pieces = []
        rest = f
        while True:
            d = ir.monic_div(need, rest)
            if need == rest:
                pieces.append(rest)
                need = None
                break
            if d is not None:
                pieces.append(rest)
                need = d
                break
            d = ir.monic_div(rest, need)
            if d is None and core.C.proved(eq(need, rest)):
                pieces.append(need)
                need = None
                break
            if d is None:
                raise Unsupported(f'reshape {src} -> {shape}')
            pieces.append(need)
            rest = d
            if k >= len(ti):
                raise Unsupported('reshape')
            need = ti[k]
            k += 1
        maps.append(pieces)
        refined.extend(pieces)

    def el(base):
        if base is None:
            return None

        def r(flat):
            out, p = [], 0
            for pcs in maps:
                lin = ZERO
                for q in pcs:
                    lin = add(mul(lin, q), flat[p])
                    p += 1
                out.append(lin)
            return base(out)
        return r
    y = x._like([tuple(refined)], el(x.E), ielem=el(x._ielem))
    return reshape(y, [mk(s) for s in shape])


def norm_index(i, n):
    """Python index -> P in [0, n), raising IndexError like torch."""
    p = top(i)
    C = core.C
    if C.decide(lt(p, ZERO)):
        p = add(p, n)
        if C.decide(lt(p, ZERO)):
            raise IndexError('index out of range')
    elif not C.decide(lt(p, n)):
        raise IndexError('index out of range')
    return p


def getitem(x, ix):
    if isinstance(ix, (TList, list)):
        raise Unsupported('list index')
    if isinstance(ix, STuple):
        raise Unsupported('symbolic index tuple')
    if not isinstance(ix, tuple):
        ix = (ix,)
    n = len(x.groups)
    used = sum(1 for i in ix if i is not None and i is not Ellipsis)
    if used > n:
        raise IndexError('too many indices for tensor')
    if len(ix) == 1 and n == 2 and x._ielem is not None and core.isint(ix[0]):  # may be written through: x[i] += c
        x.E([ZERO] * sum(map(len, x.groups)))
        i = norm_index(ix[0], top(x.shape[0]))
        r = select(x._snap(), 0, i)
        r.storage, r.version, r._rowof = x.storage, x.version, (x, i, x.version)
        return r
    if not any(i is Ellipsis for i in ix):
        ix = ix + (Ellipsis,)
    out = x
    d = 0
    seen = False
    for i in ix:
        if i is Ellipsis:
            if not seen:
                d += n - used
                seen = True
            continue
        if i is None:
            out = out.unsqueeze(d)
            d += 1
            continue
        if isinstance(i, slice):
            out = slice_dim(out, d, i)
            d += 1
            continue
        if core.isint(i) or isinstance(i, SymTensor) and not i.groups and i._ielem is not None:
            if isinstance(i, SymTensor):
                i = i.item()
            out = select(out, d, norm_index(i, top(out.shape[d])))
            continue
        if isinstance(i, SymTensor) and i.bcond is not None:
            import sparse
            out = sparse.mask_select(out, d, i)
            d += 1
            continue
        if isinstance(i, str):
            raise core.LibTypeError('only integers, slices (`:`), ellipsis (`...`), None and long or byte Variables are valid indices')
        raise Unsupported(f'index of type {type(i).__name__}')
    if out is x:
        out = x._like(x.groups, x.E, ielem=x._ielem)
    return out


def slice_dim(x, d, sl):
    if sl.start is None and sl.stop is None and sl.step in (None, 1):
        return x
    C = core.C
    n = top(x.shape[d])
    step = 1 if sl.step is None else sl.step
    if not isinstance(step, int):
        cst = top(step).const()
        step = top(step) if cst is None else cst
    if step <= 0 if isinstance(step, int) else not C.decide(le(ONE, step)):
        raise ValueError('step must be greater than zero')

    def clamp(v):
        p = top(v)
        if C.decide(lt(p, ZERO)):
            p = add(p, n)
            return p if C.decide(ge0(p)) else ZERO
        return p if C.decide(le(p, n)) else n
    a = ZERO if sl.start is None else clamp(sl.start)
    b = n if sl.stop is None else clamp(sl.stop)
    if not C.decide(le(a, b)):
        b = a
    if x.groups[d] and len(x.groups[d]) > 1:
        if C.proved(eq(a, ZERO)) and C.proved(eq(b, n)) and step == 1:
            return x
    size = sub(b, a)
    if step == 1:
        if a == ZERO and size == n:
            return x
        return remap(x, d, size, lambda i: add(a, i))
    sp = K(step) if isinstance(step, int) else step
    return remap(x, d, ir.div(add(size, sub(sp, ONE)), sp), lambda i: add(a, mul(i, sp)))


def dims_equal(p, q):
    """Equal sizes? forks if unknown."""
    return p == q or core.C.decide(eq(p, q))


def broadcast_to(x, sizes):
    n = len(sizes)
    k = n - len(x.groups)
    g = [()] * k + list(x.groups)
    sizes = [prod(g[i]) if s is None else s for i, s in enumerate(sizes)]
    bc = []
    ng = []
    for i in range(n):
        if not g[i] and sizes[i] != ONE:
            bc.append(True)
            ng.append((sizes[i],))
        else:
            if not dims_equal(prod(g[i]), sizes[i]):
                if core.C.decide(eq(prod(g[i]), ONE)):
                    raise Unsupported('broadcast of a symbolic size')
                raise RuntimeError('The expanded size of the tensor must match the existing size')
            bc.append(False)
            ng.append(g[i])

    def el(base):
        return None if base is None else lambda flat: base([v for p, b in zip(split_flat(ng, flat), bc) if not b for v in p])
    return x._like(ng, el(x.E), ielem=el(x._ielem))


def result_groups(x, y):
    """Broadcast two tensors to a common shape."""
    n = max(len(x.groups), len(y.groups))
    gx = [()] * (n - len(x.groups)) + list(x.groups)
    gy = [()] * (n - len(y.groups)) + list(y.groups)
    out, mx, my = [], [], []
    for a, b in zip(gx, gy):
        if not a:
            out.append(b)
            mx.append(False)
            my.append(True)
        elif not b:
            out.append(a)
            mx.append(True)
            my.append(False)
        else:
            if not dims_equal(prod(a), prod(b)):
                if core.C.feasible(eq(prod(a), ONE)) and core.C.decide(eq(prod(a), ONE)) or core.C.feasible(eq(prod(b), ONE)) and core.C.decide(eq(prod(b), ONE)):
                    raise Unsupported('broadcast of symbolic sizes')
                raise RuntimeError('The size of tensor a must match the size of tensor b')
            out.append(a)
            mx.append(True)
            if len(a) == len(b):
                my.append(True)
            elif len(a) == 1:
                my.append(('un', b))
            else:
                my.append(('lin', a, b))
    return out, mx, my


def pick(groups, mask, flat):
    r = []
    for p, m, g in zip(split_flat(groups, flat), mask, groups):
        if m is True:
            r.extend(p)
        elif m is False:
            continue
        elif m[0] == 'un':
            r.extend(unlin(p[0], m[1]))
        else:
            if len(m[2]) != 1:
                raise Unsupported('incompatible factorisations')
            lin = ZERO
            for f, i in zip(m[1], p):
                lin = add(mul(lin, f), i)
            r.append(lin)
    return r


def promote(a, b):
    if a is b:
        return a
    fa, fb = (a.is_floating_point or a.is_complex), (b.is_floating_point or b.is_complex)
    if fa != fb:
        return a if fa else b
    return a if a.order >= b.order else b


def binop(x, o, op):
    if isinstance(o, SymTensor):
        if x._device != o._device:
            raise RuntimeError('Expected all tensors to be on the same device')
        dt = promote(x._dtype, o._dtype) if x.groups and o.groups or not (x.groups or o.groups) else (x._dtype if x.groups else o._dtype) if x._dtype.is_floating_point == o._dtype.is_floating_point else promote(x._dtype, o._dtype)
        if (x.sparse is None) != (o.sparse is None) and op != 'mul' and not (op == 'div' and not o.groups):
            raise Unsupported('mixed sparse/dense arithmetic')
        g, mx, my = result_groups(x, o)
        if x._ielem is not None and o._ielem is not None and op != 'div':
            f = {'add': add, 'sub': sub, 'mul': mul}[op]
            r = SymTensor(g, None, dt, x._device, ielem=lambda fl: f(x._ielem(pick(g, mx, fl)), o._ielem(pick(g, my, fl))))
            r._elem = lambda fl: e_intval(r._ielem(fl))
            return r
        if op == 'add':
            el = lambda fl: e_add(x.E(pick(g, mx, fl)), o.E(pick(g, my, fl)))  # noqa: E731
        elif op == 'sub':
            el = lambda fl: e_add(x.E(pick(g, mx, fl)), e_scale(o.E(pick(g, my, fl)), -1))  # noqa: E731
        elif op == 'mul':
            el = lambda fl: e_mul(x.E(pick(g, mx, fl)), o.E(pick(g, my, fl)))  # noqa: E731
        else:
            if o._recip is None:
                raise Unsupported('division of tensors')
            return binop(x, o._recip(), 'mul')
        r = SymTensor(g, el, dt, x._device)
        r._rg = x._rg or o._rg
        if x.sparse is not None and o.sparse is not None:
            r.sparse = True
        if op == 'mul' and (x.sparse is not None or o.sparse is not None):
            r.sparse = True
        return r
    if isinstance(o, SymScalar):
        if op == 'mul':
            r = x._like(x.groups, lambda fl: e_mul(x.E(fl), o.e), view=False)
            r.sparse = x.sparse and True
            return r
        raise Unsupported('scalar operation')
    if core.isint(o):
        q = top(o)
        if x._ielem is not None and op != 'div':
            f = {'add': add, 'sub': sub, 'mul': mul}[op]
            r = SymTensor(x.groups, None, x._dtype, x._device, ielem=lambda fl: f(x._ielem(fl), q))
            r._elem = lambda fl: e_intval(r._ielem(fl))
            return r
        c = q.const()
        if c is None:
            if op == 'mul':
                return x._like(x.groups, lambda fl: e_mul(x.E(fl), e_intval(q)), view=False)
            raise Unsupported('tensor and symbolic scalar')
        o = c
    elif isinstance(o, (float, Fraction)):
        o = Fraction(o)
    else:
        raise Unsupported(f'tensor arithmetic with {type(o).__name__}')
    if op == 'add':
        r = x._like(x.groups, lambda fl: e_add(x.E(fl), e_const(o)), view=False)
    elif op == 'sub':
        r = x._like(x.groups, lambda fl: e_add(x.E(fl), e_const(-o)), view=False)
    elif op == 'mul':
        r = x._like(x.groups, lambda fl: e_scale(x.E(fl), o), view=False)
    else:
        if o == 0:
            raise Unsupported('division of a tensor by zero')
        r = x._like(x.groups, lambda fl: e_scale(x.E(fl), 1 / Fraction(o)), view=False)
    if x.sparse is not None and op in ('mul', 'div'):
        r.sparse = True
    return r


def stack(xs, dim=0):
    xs = list(xs)
    if not xs:
        raise RuntimeError('stack expects a non-empty TensorList')
    for y in xs:
        if not isinstance(y, SymTensor):
            raise core.LibTypeError('expected Tensor')
    n = len(xs[0].groups) + 1
    d = ndim_of(dim, n)
    x0 = xs[0]
    for y in xs[1:]:
        if len(y.groups) != len(x0.groups):
            raise RuntimeError('stack expects each tensor to be equal size')
        for a, b in zip(x0.groups, y.groups):
            if not dims_equal(prod(a), prod(b)):
                raise RuntimeError('stack expects each tensor to be equal size')
    return cat([y.unsqueeze(d) for y in xs], d)


def refactor(x, d, g):
    """A dimension with one index, as a dimension with the factors g (row-major; same size)."""
    p = sum(map(len, x.groups[:d]))

    def f(base):
        def r(flat):
            lin = ZERO
            for s, i in zip(g, flat[p:p + len(g)]):
                lin = add(mul(lin, s), i)
            return base(list(flat[:p]) + [lin] + list(flat[p + len(g):]))
        return None if base is None else r
    return x._like(x.groups[:d] + [tuple(g)] + x.groups[d + 1:], f(x.E), ielem=f(x._ielem))


def cat(xs, dim=0):
    xs = list(xs)
    if not xs:
        raise RuntimeError('torch.cat(): expected a non-empty list of Tensors')
    x0 = xs[0]
    n = len(x0.groups)
    d = ndim_of(dim, n)
    dt = x0._dtype
    for y in xs[1:]:
        if len(y.groups) != n:
            raise RuntimeError('Tensors must have same number of dimensions')
        if y._device != x0._device:
            raise RuntimeError('Expected all tensors to be on the same device')
        dt = promote(dt, y._dtype)
        for k in range(n):
            if k != d and not dims_equal(prod(x0.groups[k]), prod(y.groups[k])):
                raise RuntimeError('Sizes of tensors must match except in dimension')
    for k in range(n):
        if k != d:
            g = max((y.groups[k] for y in xs), key=len)
            if len(g) > 1:
                xs = [refactor(y, k, g) if len(y.groups[k]) == 1 else y for y in xs]
    x0 = xs[0]
    isint = all(y._ielem is not None for y in xs)
    others = [g for k, g in enumerate(x0.groups) if k != d]
    for y in xs[1:]:
        for k in range(n):
            if k != d and (len(y.groups[k]) != len(x0.groups[k]) or len(x0.groups[k]) > 1
                           and not all(p == q or core.C.proved(eq(p, q)) for p, q in zip(y.groups[k], x0.groups[k]))):
                raise Unsupported(f'cat of different factorisations {[y.groups for y in xs]} {core.C.model_dict()}')
    if any(len(y.groups[d]) > 1 for y in xs):
        # equal pieces: leading constant factor
        if all(len(y.groups[d]) == len(x0.groups[d]) and all(dims_equal(a, b) for a, b in zip(y.groups[d], x0.groups[d])) for y in xs):
            k = K(len(xs))
            ng = x0.groups[:d] + [(k,) + x0.groups[d]] + x0.groups[d + 1:]
            a = sum(len(g) for g in x0.groups[:d])

            def el2(flat):
                i = flat[a] if len(xs) > 1 else ZERO
                rest = list(flat[:a]) + list(flat[a + (1 if len(xs) > 1 else 0):])
                if i.const() is not None:
                    return xs[i.const()].E(rest)
                return e_add(*[e_guard(y.E(rest), eq(i, K(q))) for q, y in enumerate(xs)])
            r = SymTensor(ng, el2, dt, x0._device)
            r.sparse = True if x0.sparse is not None else None
            return r
        raise Unsupported('cat along a product dimension')
    sizes = [prod(y.groups[d]) for y in xs]
    tot = ZERO
    offs = []
    for s in sizes:
        offs.append(tot)
        tot = add(tot, s)
    ng = x0.groups[:d] + [() if tot == ONE else (tot,)] + x0.groups[d + 1:]
    a = sum(len(g) for g in x0.groups[:d])
    one = tot == ONE

    def gen(bases, merge):
        def r(flat):
            if one:
                i, rest = ZERO, list(flat[a:])
            else:
                i, rest = flat[a], list(flat[a + 1:])
            parts = []
            for y, o, s, base in zip(xs, offs, sizes, bases):
                c = band(le(o, i), lt(i, add(o, s))) if len(xs) > 1 else TRUE
                if c == FALSE:
                    continue
                parts.append((c, base(list(flat[:a]) + idx1(y.groups[d], sub(i, o)) + rest)))
                if c == TRUE:
                    break
            return merge(parts)
        return r

    def mergeE(parts):
        return e_add(*[e_guard(v, c) for c, v in parts])

    def mergeI(parts):
        v = parts[-1][1] if parts else ZERO
        for c, w in reversed(parts[:-1]):
            v = ite(c, w, v)
        return v
    r = SymTensor(ng, gen([y.E for y in xs], mergeE), dt, x0._device, ielem=gen([y._ielem for y in xs], mergeI) if isint else None)
    r._rg = any(y._rg for y in xs)
    if x0.sparse is not None:
        import sparse
        r.sparse = sparse.cat([y.sparse for y in xs], d, offs)
    return r


def split(x, size, dim=0):
    n = len(x.groups)
    d = ndim_of(dim, n)
    g = x.groups[d]
    tot = prod(g)
    C = core.C
    if isinstance(size, (tuple, list, TList)):
        sizes = [top(s) for s in size]
        if not C.decide(eq(tot, core.top(sum_p(sizes)))):
            raise RuntimeError('split_with_sizes expects split_sizes to sum exactly')
    else:
        s = top(size)
        if len(g) > 1 and s == prod(g[1:]) and g[0].const() is not None:
            k = g[0].const()
            a = sum(len(y) for y in x.groups[:d])
            out = []
            for q in range(k):
                out.append(x._like(x.groups[:d] + [g[1:]] + x.groups[d + 1:], lambda flat, q=q: x.E(list(flat[:a]) + [K(q)] + list(flat[a:]))))
            return tuple(out)
        if len(g) > 1 and C.proved(eq(s, tot)):
            return (x._like(x.groups, x.E),)
        c, t = s.const(), tot.const()
        if c is not None and t is not None:
            if c <= 0:
                raise RuntimeError('split expects split_size be positive')
            sizes = [K(min(c, t - i)) for i in range(0, t, c)]
        else:
            if C.decide(le(s, ZERO)):
                raise RuntimeError('split expects split_size be positive')
            sizes = None
            for k in range(1, 9):
                if C.proved(eq(tot, scale(s, k))):
                    sizes = [s] * k
                    break
            if sizes is None:
                # number of chunks by forking
                sizes = []
                rest = tot
                for k in range(4):
                    if C.decide(le(rest, s)):
                        sizes.append(rest)
                        rest = None
                        break
                    sizes.append(s)
                    rest = sub(rest, s)
                if rest is not None:
                    raise Unsupported('split into an unknown number of chunks')
    out = []
    o = ZERO
    for s in sizes:
        out.append(remap(x, d, s, lambda i, o=o: add(i, o)) if len(sizes) > 1 else x._like(x.groups, x.E, ielem=x._ielem))
        o = add(o, s)
    return tuple(out)


def sum_p(ps):
    r = ZERO
    for p in ps:
        r = add(r, p)
    return r


def tsum(x, dim=None, keepdim=False):
    n = len(x.groups)
    if dim is None:
        dims = list(range(n))
    else:
        dims = [ndim_of(d, n) for d in ([dim] if isinstance(dim, int) else dim)]
    g = x.groups
    ng = [() if (k in dims and keepdim) else g[k] for k in range(n) if keepdim or k not in dims]
    keep = [g[k] for k in range(n) if k not in dims]

    def el(flat):
        parts = split_flat(keep, flat)

        def rec(k, acc, ps):
            if k == n:
                return x.E(acc)
            if k not in dims:
                return rec(k + 1, acc + ps[0], ps[1:])

            def facs(j, acc2):
                if j == len(g[k]):
                    return rec(k + 1, acc2, ps)
                return e_sum(g[k][j], lambda i: facs(j + 1, acc2 + [i]))
            return facs(0, acc)
        return rec(0, [], parts)
    return x._like(ng, el, view=False)


def tmean(x, dim=None, keepdim=False):
    n = len(x.groups)
    dims = list(range(n)) if dim is None else [ndim_of(d, n) for d in ([dim] if isinstance(dim, int) else dim)]
    c = prod([f for d in dims for f in x.groups[d]]).const()
    if not c:
        raise Unsupported('mean over a symbolic size')
    return tsum(x, dim, keepdim) / c


def zeros_like(x):
    r = SymTensor(x.groups, lambda fl: [], x._dtype, x._device)
    if x._ielem is not None:
        r._ielem = lambda fl: ZERO
    r.sparse = x.sparse and True
    return r


def matmul(a, b):
    n = len(a.groups)
    if n == 1 or len(b.groups) == 1:
        raise Unsupported('matmul with a vector')
    if a._device != b._device:
        raise RuntimeError('Expected all tensors to be on the same device')
    if a._dtype is not b._dtype:
        raise RuntimeError('expected m1 and m2 to have the same dtype')
    k1, k2 = a.groups[-1], b.groups[-2]
    same = len(k1) == len(k2) and all(x == y or core.C.proved(eq(x, y)) for x, y in zip(k1, k2))
    if not same and not dims_equal(prod(k1), prod(k2)):
        raise RuntimeError('mat1 and mat2 shapes cannot be multiplied')
    if not same and len(k1) == len(k2) > 1:
        raise Unsupported('incompatible factorisations')
    if len(k1) != len(k2):
        if len(k1) <= 1:
            k = k2
        elif len(k2) <= 1:
            k = k1
        else:
            raise Unsupported('incompatible factorisations')
    else:
        k = k1
    la, lb = a.groups[:-2], b.groups[:-2]
    if la and lb and len(la) != len(lb):
        raise Unsupported('batched matmul')
    lead = la if len(la) >= len(lb) else lb
    ng = list(lead) + [a.groups[-2], b.groups[-1]]

    def lin(fs, idx):
        r = ZERO
        for f, i in zip(fs, idx):
            r = add(mul(r, f), i)
        return r

    def el(flat):
        parts = split_flat(ng, flat)
        L = [v for p in parts[:-2] for v in p]

        def facs(j, acc):
            if j == len(k):
                ka = acc if len(k1) == len(k) else ([lin(k, acc)] if k1 else [])
                kb = acc if len(k2) == len(k) else ([lin(k, acc)] if k2 else [])
                ea = a.E((L if la else []) + parts[-2] + ka)
                eb = b.E((L if lb else []) + kb + parts[-1])
                return e_mul(ea, eb)
            return e_sum(k[j], lambda i: facs(j + 1, acc + [i]))
        return facs(0, [])
    r = SymTensor(ng, el, promote(a._dtype, b._dtype), a._device)
    r._rg = a._rg or b._rg
    if a.sparse is not None and b.sparse is not None:
        r.sparse = True
    return r


# ------------------------------------------------------------------ padding and convolution contracts
def pad(x, padding, mode='constant', value=None):
    if isinstance(padding, SymTensor):
        raise Unsupported('pad')
    ps = [top(v) for v in padding]
    if len(ps) % 2:
        raise RuntimeError('Padding length must be divisible by 2')
    k = len(ps) // 2
    n = len(x.groups)
    C = core.C
    if k > n:
        raise RuntimeError('Padding length should be less than or equal to two times the input dimension')
    if mode not in ('constant', 'reflect', 'replicate', 'circular'):
        raise NotImplementedError(f'Unrecognised padding mode {mode}')
    if mode != 'constant':
        if not (n == k + 1 or n == k + 2) or k > 3:
            raise NotImplementedError(f'padding of {n}D tensors by {2 * k} values')
        if value not in (None, 0, 0.0):
            raise ValueError('padding mode does not take in value argument')
    out = x
    for q in range(k):
        d = n - 1 - q
        pl, pr = ps[2 * q], ps[2 * q + 1]
        sz = prod(x.groups[d])
        if mode != 'constant' and (C.feasible(lt(pl, ZERO)) or C.feasible(lt(pr, ZERO))):
            if C.decide(bor(lt(pl, ZERO), lt(pr, ZERO))):
                raise Unsupported('negative padding')
        if mode == 'reflect':
            if C.decide(bor(le(sz, pl), le(sz, pr))):
                raise RuntimeError('Padding size should be less than the corresponding input dimension')
        if mode == 'circular':
            if C.decide(bor(lt(sz, pl), lt(sz, pr))):
                raise RuntimeError('Padding value causes wrapping around more than once.')
        if pl == ZERO and pr == ZERO:
            continue
        if mode == 'constant' and value not in (None, 0, 0.0):
            raise Unsupported('pad with a non-zero value')
        new = add(add(sz, pl), pr)
        if mode == 'constant':
            if C.decide(lt(new, ZERO)):
                raise RuntimeError('resulting in a negative output size')
            out = remap(out, d, new, lambda i, pl=pl: sub(i, pl), view=False, guardf=lambda i, pl=pl, sz=sz: band(ge0(sub(i, pl)), lt(sub(i, pl), sz)))
        else:
            f = {'reflect': ext_reflect, 'replicate': ext_constant, 'circular': ext_periodic}[mode]
            out = remap(out, d, new, lambda i, pl=pl, sz=sz, f=f: f(sub(i, pl), sz), view=False)
    if out is x:
        out = x._like(x.groups, x.E, view=False)
    return out


def ext_reflect(q, n):
    return ite(lt(q, ZERO), neg(q), ite(le(n, q), sub(sub(scale(n, 2), K(2)), q), q))


def ext_constant(q, n):
    return ite(lt(q, ZERO), ZERO, ite(le(n, q), sub(n, ONE), q))


def ext_periodic(q, n):
    return ite(lt(q, ZERO), add(q, n), ite(le(n, q), sub(q, n), q))


def _tuplify(v, k):
    if core.isint(v):
        return [top(v)] * k
    v = [top(a) for a in v]
    return v * k if len(v) == 1 else v


def conv(x, w, k, bias=None, stride=1, padding=0, dilation=1, groups=1):
    C = core.C
    if bias is not None or groups != 1 or isinstance(padding, str):
        raise Unsupported('conv options')
    if len(w.groups) != k + 2:
        raise RuntimeError(f'expected a {k + 2}D weight')
    unb = len(x.groups) == k + 1
    if unb:
        x = x.unsqueeze(0)
    if len(x.groups) != k + 2:
        raise RuntimeError(f'Expected {k + 1}D or {k + 2}D input')
    if x._dtype is not w._dtype:
        raise RuntimeError('expected input and weight of the same dtype')
    if x._device != w._device:
        raise RuntimeError('Expected all tensors to be on the same device')
    cin, cout, wc = prod(x.groups[1]).const(), prod(w.groups[0]).const(), prod(w.groups[1]).const()
    if None in (cin, cout, wc):
        raise Unsupported('symbolic number of channels')
    if cin != wc:
        raise RuntimeError('expected input to have the same number of channels as the weight')
    st, pd, dl = _tuplify(stride, k), _tuplify(padding, k), _tuplify(dilation, k)
    outs = []
    for q in range(k):
        n, m = prod(x.groups[2 + q]), prod(w.groups[2 + q])
        single(x, 2 + q)
        eff = add(mul(dl[q], sub(m, ONE)), ONE)
        tot = add(n, scale(pd[q], 2))
        if C.decide(lt(tot, eff)):
            raise RuntimeError('Kernel size can\'t be greater than actual input size')
        if st[q].const() is None:
            raise Unsupported('symbolic stride')
        outs.append(add(ir.div(sub(tot, eff), st[q]), ONE))
    ng = [x.groups[0], (K(cout),)] + [(o,) for o in outs]
    ng = [tuple(f for f in g if f != ONE) for g in ng]

    def el(flat):
        parts = split_flat(ng, flat)
        b = parts[0]
        o = parts[1] or [ZERO]
        js = [p[0] if p else ZERO for p in parts[2:]]
        res = []
        for c in range(cin):
            def rec(q, ks):
                if q == k:
                    wi = [tuple(idx1(w.groups[0], o[0])), tuple(idx1(w.groups[1], K(c)))] + [tuple(idx1(w.groups[2 + r], ks[r])) for r in range(k)]
                    xi = [tuple(b), tuple(idx1(x.groups[1], K(c)))]
                    g = TRUE
                    for r in range(k):
                        i = sub(add(mul(st[r], js[r]), mul(dl[r], ks[r])), pd[r])
                        if pd[r] != ZERO:
                            g = band(g, ge0(i), lt(i, prod(x.groups[2 + r])))
                        xi.append(tuple(idx1(x.groups[2 + r], i)))
                    return e_guard(e_mul(w.at(wi), x.at(xi)), g)
                return e_sum(prod(w.groups[2 + q]), lambda i: rec(q + 1, ks + [i]))
            res.append(rec(0, []))
        return e_add(*res)
    r = SymTensor(ng, el, x._dtype, x._device)
    r._rg = x._rg or w._rg
    return r.squeeze(0) if unb else r


def conv_transpose(x, w, k, bias=None, stride=1, padding=0, output_padding=0, groups=1, dilation=1):
    C = core.C
    if bias is not None or output_padding not in (0, (0,)):
        raise Unsupported('conv_transpose options')
    if len(w.groups) != k + 2:
        raise RuntimeError(f'expected a {k + 2}D weight')
    unb = len(x.groups) == k + 1
    if unb:
        x = x.unsqueeze(0)
    if len(x.groups) != k + 2:
        raise RuntimeError(f'Expected {k + 1}D or {k + 2}D input')
    if x._dtype is not w._dtype:
        raise RuntimeError('expected input and weight of the same dtype')
    if x._device != w._device:
        raise RuntimeError('Expected all tensors to be on the same device')
    cin, wc, cg = prod(x.groups[1]).const(), prod(w.groups[0]).const(), prod(w.groups[1]).const()
    if None in (cin, cg, wc):
        raise Unsupported('symbolic number of channels')
    if cin != wc or cin % groups:
        raise RuntimeError('expected input to have the same number of channels as the weight')
    cout = cg * groups
    st, pd, dl = _tuplify(stride, k), _tuplify(padding, k), _tuplify(dilation, k)
    outs = []
    for q in range(k):
        n, m = prod(x.groups[2 + q]), prod(w.groups[2 + q])
        single(x, 2 + q)
        o = add(sub(mul(sub(n, ONE), st[q]), scale(pd[q], 2)), add(mul(dl[q], sub(m, ONE)), ONE))
        if C.decide(lt(o, ONE)):
            raise RuntimeError('calculated output size is too small')
        outs.append(o)
    ng = [x.groups[0], (K(cout),)] + [(o,) for o in outs]
    ng = [tuple(f for f in g if f != ONE) for g in ng]

    def el(flat):
        parts = split_flat(ng, flat)
        b = parts[0]
        o = parts[1] or [ZERO]
        js = [p[0] if p else ZERO for p in parts[2:]]
        per = cin // groups
        res = []

        def chan(og, oc, cond):
            for c in range(og * per, (og + 1) * per):
                def rec(q, ks, ms, g):
                    if q == k:
                        wi = [tuple(idx1(w.groups[0], K(c))), tuple(idx1(w.groups[1], oc))] + [tuple(idx1(w.groups[2 + r], ks[r])) for r in range(k)]
                        xi = [tuple(b), tuple(idx1(x.groups[1], K(c)))] + [tuple(idx1(x.groups[2 + r], ms[r])) for r in range(k)]
                        return e_guard(e_mul(w.at(wi), x.at(xi)), g)
                    return e_sum(prod(w.groups[2 + q]), lambda i: e_sum1(prod(x.groups[2 + q]), lambda m: rec(
                        q + 1, ks + [i], ms + [m], band(g, eq(add(mul(st[q], m), mul(dl[q], i)), add(js[q], pd[q]))))))
                res.append(e_guard(rec(0, [], [], TRUE), cond))
        oc = o[0].const()
        if oc is not None:
            chan(oc // cg, K(oc % cg), TRUE)
        elif cg == 1:
            for q in range(cout):
                chan(q, ZERO, eq(o[0], K(q)))
        elif groups == 1:
            chan(0, o[0], TRUE)
        else:
            raise Unsupported('grouped convolution')
        return e_add(*res)
    r = SymTensor(ng, el, x._dtype, x._device)
    r._rg = x._rg or w._rg
    return r.squeeze(0) if unb else r


def e_sum1(n, fn):
    """like e_sum, never expanded (the guard eliminates the variable)"""
    c = n.const()
    if c == 1:
        return fn(ZERO)
    k = fresh_bv()
    kk = V(k)
    dom = band(ge0(kk), lt(kk, n))
    return [(a, b + (k,), band(g, dom), t) for a, b, g, t in fn(kk)]
