"""C23: malformed input raises an error, for every size, level and position of the malformed entry."""
from specs.common import *  # noqa: F401,F403
import verify
from specs import convn, swt, matrix, matrixn
from specs.convn import Layout, Coeffs, Analysis, begin, wavelet_arg, entry_points, WORDS, FrozenDict
from tensor import Device, DT
from specs.mats import coo_tensor
from specs.matrix import boundary
from core import Unsupported


class Other(str):
    """Any string that is none of those named in the code."""
    def __new__(cls, what):
        return str.__new__(cls, f'<{what}>')


class Thing:
    """An object of no relevant type."""


BAD_DTYPES = [n for n in DT if n not in ('float32', 'float64')]


def outcome(name, f, lev=None):
    """f() raises on every path."""
    C = core.C
    verify.raises(name, f)
    C.assume(TRUE)


# ------------------------------------------------------------------ tensors handed to a transform
def analysis_spec(W, fam, d, rank, what, call=None, axes=None, dtype=F64, mode='zero', datum=..., dims=None, **extra):
    """what: title; axes: given to the call; dims: number of dimensions of the data"""
    def body():
        C = core.C
        lay = Layout(rank, list(range(-min(d, rank), 0)))
        w = setup(fam, lay)
        name, dec = ends(W, fam, d, w)[0]
        N = [V(f'N{q}') for q in range(min(d, rank))]
        C.assume(band(*[le(ONE, x) for x in N]))
        if mode in ('reflect', 'periodic'):
            C.assume(band(*[le(add(w.L, ONE), x) for x in N]))
        J = V('J')
        C.assume(ge0(J))
        x = lay.tensor(N, lambda b, t: e_atom('X', b + t), dtype, name='data') if datum is ... else datum
        kw = dict(extra)
        kw.setdefault('level', mk(J))
        if fam != 'swt':
            kw['mode'] = mode
        if mode.startswith('<'):
            C.assume(le(ONE, J))
            if fam in MATS:
                C.assume(nontrivial(N, w.L))
        if fam in MATS and 'level' not in extra:
            C.assume(le(ONE, J))
        verify.raises(f'{name} of {what}', lambda: dec(x, axes, **kw))
    return f'{NAMES[fam][0]}{d}[{what},rank={rank}]', body


NAMES = {'conv': ('wavedec', 'waverec'), 'sep': ('fswavedec', 'fswaverec'), 'swt': ('swt', 'iswt'), 'mat': ('MatrixWavedec', 'MatrixWaverec'), 'full': ('non-separable MatrixWavedec', 'non-separable MatrixWaverec')}


def nontrivial(N, L):
    """some axis of odd size, no axis shorter than the filter: the padding mode is used"""
    return band(bor(*[eq(ir.mod(x, K(2)), ONE) for x in N]), *[le(add(L, ONE), x) for x in N])


def bad_axes(d, rank):
    """axis arguments of the wrong number, repeated (also with mixed signs) or out of range"""
    if d == 1:
        return [(0, 1), (0, 0), (-1, -2), ()][:4 if rank > 1 else 0]
    out = [0, -1, (0,), (), tuple(range(d + 1)), tuple(range(-d - 1, 0))]
    for i in range(d):
        for j in range(i):
            for a in range(rank):
                ax = [k for k in range(rank) if k != a][:d]
                ax = (ax + [0] * d)[:d]
                for x, y in ((a, a), (a - rank, a - rank), (a, a - rank), (a - rank, a)):
                    t = list(ax)
                    t[j], t[i] = x, y
                    out.append(tuple(t))
    return list(dict.fromkeys(out))


# ------------------------------------------------------------------ coefficient lists
class Same:
    """Coefficients of the stationary transform: one length everywhere."""

    def __init__(self, lay, dtype):
        N = V('N0')
        core.C.assume(le(ONE, N))
        self.sizes = lambda p: [N]
        self.approx = lay.tensor([N], lambda b, t: e_atom('CA', b + t), dtype, None, 'coeffs[0]')
        self.seg = lambda p: lay.tensor([N], lambda b, t: e_atom('CD', [p] + b + t), dtype, None, 'a detail')
        core.C.ghosts['R'] = vc.Ghost('R', lay.lead, [lambda i: N], dtype, lay.device)


class OfMatrix:
    """Coefficients of the matrix transforms."""

    def __init__(self, W, fam, lay, w, J, dtype):
        d = lay.d
        dv = T.mkdev('cpu')
        sp = matrix.Rebuild(lay, w, J, dtype, dv, 'qr') if d == 1 else matrixn.RebuildN(W, lay, w, J, dtype, dv, 'qr', separable=fam == 'mat')
        ms = [sp.m] if d == 1 else sp.m
        self.sizes = lambda p: [m(p) for m in ms]
        c = sp.coefficients('list').s
        self.approx, self.seg = c[0].v, c[1].fn
        self.joined = lambda q, p: scale(ms[q](p), 2)
        self.ghost = core.C.ghosts['R']


def consistent(W, fam, lay, w, J, dtype):
    if fam == 'swt':
        return Same(lay, dtype)
    if fam in MATS:
        return OfMatrix(W, fam, lay, w, J, dtype)
    co = Coeffs(W, fam, lay, w, J, dtype)
    co.joined = lambda q, p: sub(scale(co.m[q](p), 2), sub(w.L, K(2)))
    return co


MATS = ('mat', 'full')


def matrices_contract(fam, d):
    """_construct_synthesis_matrices: a list of K <= level square matrices (per axis) of some sizes, for a device and type"""
    def f(fn, a, k):
        C = core.C
        v = dict(zip(['self', 'device', 'dtype'], a), **k)
        o = v['self']
        ns = [top(x) for x in ([o.input_length] if d == 1 else o.input_signal_shape)]
        C.oblige('precondition of _construct_synthesis_matrices: at least one level, even positive sizes',
                 band(le(ONE, top(o.level)), *[x for m in ns for x in (le(ONE, m), eq(ir.mod(m, K(2)), ZERO))]))
        n = C.fint('K')
        C.assume(band(ge0(n), le(n, top(o.level))))
        ir.UFAXIOMS['size of a matrix'] = lambda q, t: [le(ONE, ir.atom(('uf', 'size of a matrix', (q, t))))]
        dev_, dt = T.mkdev(v['device']), v['dtype']

        def one(q, t):
            m = ir.mkuf('size of a matrix', (K(q), t))
            return coo_tensor([(m,), (m,)], lambda ix: e_atom('matrix', [K(q), t] + list(ix)), dt, dev_)

        def el(t):
            if fam == 'full':
                return one(0, t)
            ms = [one(q, t) for q in range(d)]
            return ms[0] if d == 1 else tuple(ms) if d == 2 else core.TList.of([core.El(m) for m in ms])
        o.ifwt_matrix_list = core.TList.of([core.Seg(n, el)])
        o.padded = core.mkb(eq(C.fint('padded'), ONE))
        if d == 1:
            o.size_list = core.TList.of([core.Seg(n, lambda t: mk(ir.mkuf('size of a matrix', (ZERO, t))))])
    return f


def matrices_spec(W, fam, d):
    """the contract, for every number of levels and every size"""
    cls = classes(W, d)[1]
    key = f'{cls.__module__.split(".")[-1]}.{cls.__name__}._construct_synthesis_matrices'

    def body():
        C = core.C
        lay = Layout(d + 1, list(range(-d, 0)))
        w = setup(fam, lay)
        J = V('J')
        C.assume(le(ONE, J))
        N = [scale(V(f'N{q}'), 2) for q in range(d)]
        C.assume(band(*[le(ONE, x) for x in N]))
        sep = {'separable': False} if fam == 'full' else {}
        o = cls(wavelet_arg(w, 'obj', F64), **sep)
        o.level = mk(J)
        dv = T.mkdev('cpu')
        x = lambda b, t: e_atom('X', b + t)  # noqa: E731
        if d == 1:
            o.input_length = mk(N[0])
            sp = matrix.Levels(lay, w, 'zero', J, N[0], x, F64, dv, 'qr')
            ns = [sp.n]
        else:
            o.input_signal_shape = tuple(mk(n) for n in N)
            sp = matrixn.LevelsN(lay, w, 'zero', J, N, x, F64, dv, 'qr', separable=fam == 'mat')
            ns = sp.n
        for f in ns:
            C.store['elem_templates'].append(lambda i, f=f: matrix.transposed(boundary(sp.BA, ir.mul(K(2), ir.div(add(f(i), ONE), K(2))), F64, dv)))
        o._construct_synthesis_matrices(device=dv, dtype=F64)
        r = o.ifwt_matrix_list
        convn.expect_type('a list', r, core.TList)
        n = top(core.sym_len(r))
        C.oblige('at most one entry per level', le(n, J))
        t = C.fint('t')
        C.assume(band(ge0(t), lt(t, n)))
        if not C.feasible():
            return
        e = r[mk(t)]
        parts = [e]
        if fam == 'mat' and d > 1:
            convn.expect_type('the matrices of one level', e, tuple if d == 2 else core.TList)
            parts = list(e) if d == 2 else [y.v for y in e.s]
            verify.oblige_eq('one matrix per axis', len(parts), d)
        for m in parts:
            convn.expect_type('a matrix', m, SymTensor)
            C.oblige('square, sparse, of the type of the data', band(eq(prod(m.groups[0]), prod(m.groups[1]))) if m.is_sparse and m._dtype is F64 and m._device == dv and len(m.groups) == 2 else FALSE)
    return f'{NAMES[fam][1]}{d}._construct_synthesis_matrices', body


def setup(fam, lay, dtype=F64):
    if fam == 'swt':
        return swt.swt_setup(lay, 'sym', dtype)
    w = begin(lay, dtype=dtype)
    if fam in MATS:
        (matrixn.setup_full if fam == 'full' else matrix.setup_builders)(w)
    return w


def axkw(d, axes):
    return {} if axes is None else {'axis': axes[0] if isinstance(axes, list) else axes} if d == 1 else {'axes': tuple(axes) if isinstance(axes, list) else axes}


def classes(W, d):
    return [getattr(W.load(f'matmul_transform{"" if d == 1 else f"_{d}"}'), f'Matrix{s}{d if d > 1 else ""}') for s in ('Wavedec', 'Waverec')]


def ends(W, fam, d, w, dtype=F64):
    """(name, analysis(x, axes, **options)), (name, synthesis(c, axes, **options)) of a family"""
    wav = wavelet_arg(w, 'obj', dtype)
    if fam in MATS:
        A, S = classes(W, d)
        sep = {'separable': False} if fam == 'full' else {}

        def ana(x, axes=None, level=None, mode=None, **k):
            if mode is not None:
                k['odd_coeff_padding_mode'] = mode
            return A(wav, *([] if level is None else [level]), **axkw(d, axes), **sep, **k)(x)
        return (A.__name__, ana), (S.__name__, lambda c, axes=None, **k: S(wav, **axkw(d, axes), **sep, **k)(c))
    if fam == 'swt':
        m = W.load('stationary_transform')
        dec, rec = m.swt, m.iswt
    else:
        dec, rec = entry_points(W, fam, d)
    return (dec.__name__, lambda x, axes=None, **k: dec(x, wav, **axkw(d, axes), **k)), (rec.__name__, lambda c, axes=None, **k: rec(c, wav, **axkw(d, axes), **k))


class BadCoeffs:
    """A consistent list of symbolic length in which one entry is replaced; at: 'approx' or 'detail' (at any position)."""

    def __init__(self, W, fam, lay, w, at, dtype=F64):
        C = core.C
        self.W, self.fam, self.lay, self.d, self.dtype = W, fam, lay, lay.d, dtype
        self.J = V('J')
        self.co = consistent(W, fam, lay, w, self.J, dtype)
        self.at = at
        if at == 'detail':
            self.p = C.fint('p')
            C.assume(band(ge0(self.p), lt(self.p, self.J)))
            # the first position, or one behind another: the size there unfolds
            self.p = ZERO if C.decide(eq(self.p, ZERO)) else add(C.fint('o'), ONE)
            if self.p != ZERO:
                C.assume(band(le(ONE, self.p), lt(self.p, self.J)))
        else:
            C.assume(ge0(self.J))
            self.p = ZERO

    def tensor(self, wd, sizes=None, lay=None, dtype=None, device=None):
        """a part of the entry, possibly changed"""
        sizes = sizes or self.co.sizes(self.p)
        lay = lay or self.lay
        pre = lambda b, t: [self.p] + list(b) + list(t)  # noqa: E731
        name = f'CD{wd}' if wd != 'approx' else 'CA'
        fn = (lambda b, t: e_atom(name, pre(b, t))) if wd != 'approx' else (lambda b, t: e_atom(name, list(b) + list(t)))
        return lay.tensor(sizes, fn, dtype or self.dtype, device and Device(device), 'a coefficient')

    def mutated(self, wd, kind):
        """one tensor of the entry, malformed in the given way"""
        if kind == 'dtype':
            return self.tensor(wd, dtype=F32 if self.dtype is F64 else F64)
        if kind == 'device':
            return self.tensor(wd, device='other')
        if kind in ('rank+', 'rank-'):
            r = self.lay.rank + (1 if kind == 'rank+' else -1)
            lay = Layout(r, list(range(-self.d, 0)))
            return self.tensor(wd, lay=lay)
        if kind == 'object':
            return Thing()
        if kind == 'None':
            return None
        raise ValueError(kind)

    def shapes(self, words, same, crop):
        """tensors of any shape for the words, not all as they should be; same: with one shape;
        crop: a tensor one sample smaller than the synthesis of the level before it may be the crop of an odd input"""
        C = core.C
        good = self.co.sizes(self.p) + self.lay.lead
        out, fit = {}, []
        for k, wd in enumerate(words):
            if k == 0 or not same:
                new = [C.fint('e') for _ in good]
                C.assume(band(*[le(ONE, e) for e in new]))
                for q, (e, g) in enumerate(zip(new, good)):
                    ok = [eq(e, g)]
                    if crop and q < self.d and self.p != ZERO:
                        s = self.co.joined(q, sub(self.p, ONE))
                        # such a list is consistent, or a case of 'others' with the sizes of this tensor
                        C.assume(bor(eq(e, g), bnot(bor(eq(e, s), eq(e, sub(s, ONE))))))
                        if self.fam in MATS and self.d == 2:
                            # the synthesis is cropped by one sample if it does not fit
                            self.co.ghost.sizes[q] = lambda i, f=self.co.ghost.sizes[q], s=s, bad=bnot(eq(e, g)): ite(band(eq(i, self.p), bad), sub(s, ONE), f(i))
                    fit.append(bor(*ok))
            lay = Layout(self.lay.rank, self.lay.axes)
            lay.lead = new[self.d:]
            out[wd] = self.tensor(wd, sizes=new[:self.d], lay=lay)
        C.assume(bnot(band(*fit)))
        return out

    def words(self):
        return WORDS[self.d]

    def detail(self, change=None):
        """the detail entry with some tensors replaced"""
        ts = {wd: self.tensor(wd) for wd in self.words()}
        ts.update(change or {})
        return convn.detail_container(self.W, 'sep' if self.fam == 'sep' else 'conv', self.d, ts)

    def arg(self, entry, container=None):
        co, p = self.co, self.p
        if self.at == 'approx':
            segs = [core.El(entry), core.Seg(self.J, co.seg)]
        else:
            segs = [core.El(co.approx), core.Seg(p, co.seg), core.El(entry), core.Seg(sub(sub(self.J, p), ONE), lambda t: co.seg(add(add(p, ONE), t)))]
        if (container or ('list' if self.d == 1 else 'tuple')) == 'list':
            return core.TList.of(segs)
        return core.mk_tuple(segs)


def structures(d, fam):
    """replacements of a detail entry by a container of the wrong kind: name -> function of the tensors"""
    W_ = WORDS[d]
    if d == 1:
        return {'a tuple': lambda ts: (ts['d'],), 'a list': lambda ts: core.TList.of([core.El(ts['d'])]), 'a dict': lambda ts: {'d': ts['d']},
                'None': lambda ts: None, 'an object': lambda ts: Thing()}
    out = {'None': lambda ts: None, 'an object': lambda ts: Thing(), 'one tensor': lambda ts: ts[W_[0]], 'a list': lambda ts: core.TList.of([core.El(ts[w]) for w in W_]),
           'an empty tuple': lambda ts: (), 'an empty dict': lambda ts: {}}
    if fam != 'sep' and d == 2:
        out.update({'a dict': lambda ts: dict(ts), 'a pair': lambda ts: tuple(ts[w] for w in W_[:2]), 'a 4-tuple': lambda ts: tuple(ts[w] for w in W_) + (ts[W_[0]],),
                    'a dict of words': lambda ts: dict(zip('hvd', ts.values()))})
    else:
        out['a tuple'] = lambda ts: tuple(ts[w] for w in W_)
        for w in W_:
            out[f'a dict without {w}'] = lambda ts, w=w: {k: t for k, t in ts.items() if k != w}
        if fam != 'sep':
            out['a dict with one name more'] = lambda ts: {**ts, 'x' * d: ts[W_[0]]}
            out['a dict with a shorter name more'] = lambda ts: {**ts, 'd' * (d - 1): ts[W_[0]]}
        for w in W_:
            out[f'a dict with a wrong name for {w}'] = lambda ts, w=w: {(k if k != w else 'x' * d): t for k, t in ts.items()}
    return out


def coeff_spec(W, fam, d, rank, at, kind, wd=None, axes=None, container=None, call=None):
    ax = axes or list(range(-d, 0))
    title = f'{NAMES[fam][1]}{d}[{at}{"" if wd is None else " " + wd}: {kind},rank={rank},axes={tuple(ax)}]'

    def body():
        C = core.C
        lay = Layout(rank, ax)
        w = setup(fam, lay)
        name, rec = ends(W, fam, d, w)[1]
        C.store.update(learn_first=True, depth=2)
        bc = BadCoeffs(W, fam, lay, w, at)
        if fam in MATS and kind == 'shape' and at == 'detail' and (wd != 'others' or d == 3) and C.decide(eq(bc.J, add(bc.p, ONE))):
            # the sizes of the matrices follow the malformed entry
            cls = classes(W, d)[1]
            C.store['contracts'][f'{cls.__module__.split(".")[-1]}.{cls.__name__}._construct_synthesis_matrices'] = matrices_contract(fam, d)
            bc.co.ghost.opaque = True
            eqprove.UNFOLD.pop('R')
        if at == 'approx':
            if kind in ('dtype', 'device', 'shape', 'rank+', 'rank-'):
                C.assume(le(ONE, bc.J))  # alone it would be well formed
            entry = bc.detail() if kind == 'detail' else bc.shapes(['approx'], True, False)['approx'] if kind == 'shape' else bc.mutated('approx', kind)
        elif kind == 'shape':
            ws = bc.words()
            # the synthesis of the level before is cropped to the first tensor; if that one is cut by one sample the others do not fit
            which, same, crop = {'first': (ws[:1], True, fam not in ('sep', 'swt')), 'others': (ws[1:], False, False), 'all': (ws, True, fam != 'swt')}[wd]
            entry = bc.detail(bc.shapes(which, same, crop))
        elif wd is None:
            entry = structures(d, fam)[kind]({x: bc.tensor(x) for x in bc.words()})
        else:
            entry = bc.detail({wd: bc.mutated(wd, kind)})
        a = bc.arg(entry, container)
        verify.raises(f'{name} of a list with a malformed entry', lambda: rec(a, axes and list(axes)))
    return title, body


KINDS = ('dtype', 'device', 'object', 'None')


def coeff_specs(W, fam, d, rank, axes=None, every=True):
    """malformed coefficient lists of one inverse transform"""
    f = lambda *a, **k: coeff_spec(W, fam, d, rank, *a, axes=axes, **k)  # noqa: E731
    ranks = ('rank+',) + (('rank-',) if rank > d else ())
    out = [f('approx', k) for k in KINDS + ('shape',) + ranks]
    if d > 1:
        out.append(f('approx', 'detail'))
    ws = WORDS[d]
    for wd in ws:
        out += [f('detail', k, wd=wd) for k in KINDS]
        if every or wd in (ws[0], ws[-1]):
            out += [f('detail', k, wd=wd) for k in ranks]
    out += [f('detail', 'shape', wd=k) for k in (('all',) if d == 1 else ('first', 'others', 'all'))]
    out += [f('detail', k) for k in structures(d, fam) if every or 'name' not in k and 'without' not in k or k.split()[-1] in (ws[0], ws[-1])]
    return out


def analysis_specs(W, fam, d, ranks, every=True):
    """malformed arguments of one analysis transform"""
    f = lambda *a, **k: analysis_spec(W, fam, d, *a, **k)  # noqa: E731
    out = []
    dtypes = BAD_DTYPES if every else BAD_DTYPES[1::3]
    for r in ranks:
        out += [f(r, f'{n} data', dtype=DT[n]) for n in dtypes]
        out += [f(r, f'axes {a!r}', axes=a) for a in bad_axes(d, r)]
        if fam != 'swt':
            out.append(f(r, 'an unknown mode', mode=Other('mode'), **({'level': 1} if fam in MATS and d > 1 else {})))
    out += [f(d, f'{t} for a tensor', datum=x) for t, x in (('an object', Thing()), ('None', None), ('a number', 1.0), ('a string', Other('text')))]
    out += [f(r, f'{r} dimensions', mode=m) for r in range(d) for m in (('zero',) if not every else ('zero', 'reflect', 'symmetric'))]
    return out


def rec_axes_specs(W, fam, d, rank):
    """synthesis along wrong axes of a consistent list"""
    def mk_spec(a):
        def body():
            C = core.C
            lay = Layout(rank, list(range(-d, 0)))
            w = setup(fam, lay)
            name, rec = ends(W, fam, d, w)[1]
            J = V('J')
            C.assume(ge0(J))
            co = consistent(W, fam, lay, w, J, F64)
            segs = [core.El(co.approx), core.Seg(J, co.seg)]
            c = core.TList.of(segs) if d == 1 else core.mk_tuple(segs)
            verify.raises(f'{name} along axes {a!r}', lambda: rec(c, a))
        return f'{NAMES[fam][1]}{d}[axes {a!r},rank={rank}]', body
    return [mk_spec(a) for a in bad_axes(d, rank)]


# ------------------------------------------------------------------ constructors and matrix builders
def constructor_specs(W, d):
    """unknown orthogonalisation methods; level counts below one"""
    out = []
    for cls in classes(W, d):
        def body(cls=cls):
            lay = Layout(d, list(range(-d, 0)))
            w = setup('mat', lay)
            verify.raises(f'{cls.__name__} with an unknown orthogonalisation', lambda: cls(wavelet_arg(w, 'obj', F64), orthogonalization=Other('method')))
        out.append((f'{cls.__name__}[unknown orthogonalisation]', body))
    cls = classes(W, d)[0]
    for fam in ('mat', 'full') if d == 2 else ('mat',):
        def body2(fam=fam):
            C = core.C
            lay = Layout(d + 1, list(range(-d, 0)))
            w = setup(fam, lay)
            N = [V(f'N{q}') for q in range(d)]
            J = C.fint('J')
            C.assume(band(le(J, ZERO), *[le(ONE, x) for x in N]))
            x = lay.tensor(N, lambda b, t: e_atom('X', b + t), F64, name='data')
            sep = {'separable': False} if fam == 'full' else {}
            verify.raises(f'{cls.__name__} with less than one level', lambda: cls(wavelet_arg(w, 'obj', F64), mk(J), **sep)(x))
        out.append((f'{NAMES[fam][0]}{d}[less than one level]', body2))
    return out


def builder_specs(W):
    """unknown modes and sizes that do not fit"""
    from specs import mats, orth
    m = mats.sm(W)
    out = []

    def spec(title, f):
        def body():
            core.C.store['contracts'] = dict(vc.CONTRACTS)
            verify.raises(title, f())
        out.append((title, body))

    def sizes(*names):
        vs = [V(n) for n in names]
        core.C.assume(band(*[le(ONE, v) for v in vs]))
        return vs
    bad = Other('mode')

    def conv1():
        n, L = sizes('n', 'L')
        return lambda: m.construct_conv_matrix(mats.dense('F', [L], F64, 'cpu'), mk(n), mode=bad)

    def conv2():
        a, b, k, q = sizes('n0', 'n1', 'L0', 'L1')
        return lambda: m.construct_conv2d_matrix(mats.dense('F', [k, q], F64, 'cpu'), mk(a), mk(b), mode=bad)

    def strided1():
        n, L, s = sizes('n', 'L', 's')
        return lambda: m.construct_strided_conv_matrix(mats.dense('F', [L], F64, 'cpu'), mk(n), mk(s), mode=bad)

    def strided2():
        a, b, k, q, s = sizes('n0', 'n1', 'L0', 'L1', 's')
        return lambda: m.construct_strided_conv2d_matrix(mats.dense('F', [k, q], F64, 'cpu'), mk(a), mk(b), mk(s), mode=bad)
    for name, f in (('construct_conv_matrix', conv1), ('construct_conv2d_matrix', conv2), ('construct_strided_conv_matrix', strided1), ('construct_strided_conv2d_matrix', strided2)):
        if hasattr(m, name):
            spec(f'{name} in an unknown mode', f)

    def cat(kind):
        def f():
            n, k, N = sizes('n', 'm', 'N')
            core.C.assume(bnot(eq(n, k)) if kind == 'rows' else lt(N, n) if kind == 'shrink' else TRUE)
            if kind != 'rows':
                k = n
            a = mats.dense('A', [n, k], F64, 'cpu') if kind == 'dense' else mats.stored_matrix('A', [n, k], F64, 'cpu', True)
            return lambda: m.cat_sparse_identity_matrix(a, mk(N))
        return f
    for kind, t in (('rows', 'of a matrix that is not square'), ('shrink', 'to a smaller size'), ('dense', 'of a dense matrix')):
        spec(f'cat_sparse_identity_matrix {t}', cat(kind))

    def row():
        n, k, q = sizes('n', 'm', 'q')
        i = V('i')
        core.C.assume(band(bnot(eq(k, q)), ge0(i), lt(i, n)))
        return lambda: m.sparse_replace_row(mats.stored_matrix('A', [n, k], F64, 'cpu', True), mk(i), mats.stored_matrix('R', [ONE, q], F64, 'cpu', True))
    spec('sparse_replace_row of another size', row)

    def bmm(sp):
        def f():
            a, b, c, e, k = sizes('m', 'n', 'b', 'e', 'k')
            core.C.assume(bnot(eq(b, e)))
            A = mats.stored_matrix('A', [a, b], F64, 'cpu', True) if sp else mats.dense('A', [a, b], F64, 'cpu')
            return lambda: m.batch_mm(A, mats.dense('X', [c, e, k], F64, 'cpu'))
        return f
    for sp in (True, False):
        spec(f'batch_mm of sizes that do not fit, {"sparse" if sp else "dense"}', bmm(sp))

    def ort():
        n, k, L, a, p = orth.begin_stored(True, F64, 'cpu', False)
        f = orth.mt(W).orthogonalize
        core.C.store['contracts'] = dict(vc.CONTRACTS)
        core.C.store['contracts']['matmul_transform._get_to_orthogonalize'] = lambda fn, args, kw: rows_to_do(n)
        return lambda: f(a, mk(L), Other('method'))

    def rows_to_do(n):
        q = core.C.fint('rows')
        core.C.assume(band(le(ONE, q), le(q, n)))
        return SymTensor([(q,)], lambda fl: T.e_intval(ir.mkuf('row', tuple(fl))), T.I64, Device('cpu'), Storage('rows'), ielem=lambda fl: ir.mkuf('row', tuple(fl) or (ZERO,)))
    spec('orthogonalize by an unknown method (some row to orthogonalise)', ort)
    return out
