"""C16, C19: boundary-wavelet matrices and transform objects."""
from specs.convn import *  # noqa: F401,F403
from specs import mats
import eqprove
from specs.mats import coo_tensor, check_matrix, strided1_post

METHODS = ('qr', 'gramschmidt')


def mt(W):
    return W.load('matmul_transform')


# ------------------------------------------------------------------ contracts of the builders
def boundary(name, n, dtype, device):
    """The orthogonal matrix of size n (analysis): entries name(n, row, column)."""
    return coo_tensor([(n,), (n,)], lambda ix: e_atom(name, [n] + list(ix)), dtype, device)


def boundary_name(method, dtype):
    """The matrix is computed in the type of the data."""
    return f'BA{method}{dtype}'.replace('torch.', '_')


def resolve(w):
    return w.wav if isinstance(w, WName) else w


def builder_contract(fname, wav, transpose):
    """Precondition: the wavelet of the object, an even size of at least the filter length.
    Postcondition: the orthogonalised analysis matrix of that size (its transpose for the synthesis)."""
    def f(fn, a, k):
        C = core.C
        C.nargs = None
        v = dict(zip(['wavelet', 'length', 'device', 'orthogonalization', 'dtype'], a), **k)
        if 'boundary' in v:
            v['orthogonalization'] = v.pop('boundary')
        n = top(v['length'])
        method = v.get('orthogonalization', 'qr')
        w = resolve(v['wavelet'])
        if w is not wav and not same_wavelet(w, wav):
            raise Unsupported('a boundary matrix of another wavelet')
        C.oblige(f'precondition of {fname}: an even size of at least the filter length', band(eq(ir.mod(n, K(2)), ZERO), le(wav.L, n)))
        dt = v.get('dtype', F64)
        r = boundary(boundary_name(method, dt), n, dt, T.mkdev(v.get('device', 'cpu')))
        if transpose:
            el = r._elem
            r._elem = lambda fl: el([fl[1], fl[0]])
        return r
    return f


def same_wavelet(w, wav):
    fb = getattr(w, 'filter_bank', w)
    try:
        return all(x.wav is wav and x.name == y.name for x, y in zip(fb, wav.filter_bank))
    except (AttributeError, TypeError):
        return False


def lemma(what, n0, step, prop, given):
    """prop holds of every element after the first of the sequence n0, step(n0), .. (by induction)"""
    C = core.C
    m = V(vc.uvar('m'))
    C.oblige(f'lemma: {what} (base)', bor(bnot(given), prop(step(n0))))
    C.oblige(f'lemma: {what} (step)', bor(bnot(band(given, prop(m))), prop(step(m))))


def padded_before(nm, size):
    """nm(i): whether one of the sizes 0..i-1 is odd"""
    def fold(args):
        p = args[0]
        if p.const() == 0:
            return ZERO
        if p.t.get((), 0) >= 1:
            q = sub(p, ONE)
            return ite(eq(ir.mod(size(q), K(2)), ONE), ONE, ir.mkuf(nm, (q,)))
        return None

    def axiom(p):
        a = ir.atom(('uf', nm, (p,)))
        return [band(ge0(a), le(a, ONE))]
    ir.UF_FOLD[nm] = fold
    ir.UFAXIOMS[nm] = axiom

    def cond(i):
        return eq(ir.mkuf(nm, (i,)), ONE)

    def template(v0, v1):
        t = vc.BoolFn(cond, f'{nm}(i)')
        if t.holds(v0, ZERO, None) and t.holds(v1, ONE, None):
            yield t
    core.C.store['extra_templates'].append(template)
    return cond


# ------------------------------------------------------------------ counter-models as run-time cases
DTN = {F32: 'f4', F64: 'f8'}


def tap(m):
    h = max(1, m.get('h', 1))
    return f'db{h}' if h <= 8 else None


def c16_case(mode, rank, axis, level, method, synth=False):
    def f(m):
        J = m.get('J', 1) if level == 'sym' else level
        n = m.get('M0', m.get('N0', 2 * m.get('h', 1)))
        if synth:
            n = n * 2 ** min(20, max(0, m.get('J', 1)))
        shape = [min(3, max(1, m.get(f'B{k}', 1))) for k in range(rank)]
        shape[axis] = n
        if tap(m) is None or not 1 <= n <= 3000 or (J is not None and not 1 <= J <= 12):
            return None
        return dict(kind='m1', w=tap(m), shape=shape, level=J, mode=mode, meth=method, axes=[axis], seed=1)
    return f


def c19_case(level, dt, ranks, mode, synth=False):
    def f(m):
        def length(q):
            if synth:
                return m.get(f'M{q}0', 1) * 2 ** min(12, max(1, m.get('J1' if q == 'Z' else 'J', 1)))
            return max(1, 2 * m.get('u1' if q == 'Z' else 'u', m.get('u', 1)))
        calls = []
        for q, r, d in zip(('Z', ''), ranks, dt):
            n = length(q)
            if not 1 <= n <= 3000:
                return None
            calls.append(dict(shape=[2] * (r - 1) + [n], dt=DTN.get(d, 'f8'), lv=min(12, max(1, m.get('J', 1)))))
        J = m.get('J', 1)
        if tap(m) is None:
            return None
        return dict(kind='i1' if synth else 'm1', w=tap(m), level=None if level is None else min(12, max(1, J)), calls=calls, seed=1, mode='boundary')
    return f


# ------------------------------------------------------------------ 1-D analysis
class Levels:
    """Sizes, number of levels and values of the matrix analysis of one input."""

    def __init__(self, lay, w, mode, J, N, x, dtype, device, method, name='A', share=None, n0=None):
        C = core.C
        L = w.L
        self.lay, self.w, self.mode, self.J, self.name, self.N = lay, w, mode, J, name, N
        self.BA = boundary_name(method, dtype)
        self.dtype, self.device = dtype, device
        if share is None:
            KK = V(f'K{name}')
            C.assume(band(ge0(KK), le(KK, J)))
            if C.decide(eq(KK, ZERO)):
                KK = ZERO
            self.K = KK
            n0 = self.n0 = n0 or add(N, ir.mod(N, K(2)))

            def dom(p, m):
                return [bor(bnot(ge0(p)), le(ONE, m)), bor(bnot(band(ge0(p), lt(p, KK))), le(L, m)), bor(bnot(le(ONE, p)), le(scale(m, 2), n0)),
                        bor(bnot(eq(p, ZERO)), eq(m, n0))]
            C.assume(band(*dom(ZERO, n0)))
            self.n = size_seq(f'n{name}', n0, lambda m: ir.div(add(m, ONE), K(2)), dom)
            C.assume(bor(eq(KK, J), lt(self.n(KK), L)))
            lemma('sizes are positive and at most half of the padded length', n0, lambda m: ir.div(add(m, ONE), K(2)),
                  lambda m: band(le(ONE, m), le(scale(m, 2), n0)), le(K(2), n0))
            self.pad = padded_before(f'pad{name}', self.n)
        else:
            self.K, self.n0, self.n, self.pad = share.K, share.n0, share.n, share.pad
        KK = self.K
        nl = len(lay.lead)

        def unfold(ix):
            i, b, t = ix[0], ix[1:1 + nl], ix[1 + nl]
            if i.const() == 0:
                return self.padded(lambda q: x(list(b), [q]), t, N)
            if i.t.get((), 0) >= 1:
                return self.entry(sub(i, ONE), b, t)
            return None
        eqprove.UNFOLD[name] = unfold
        C.ghosts[name] = vc.Ghost(name, lay.lead, [self.n], dtype, device)
        st = C.store
        st['elem_templates'] += [
            lambda i: mk(scale(self.n(add(i, ONE)), 2)),
            lambda i: core.mkb(eq(ir.mod(self.n(i), K(2)), ONE)),
            lambda i: boundary(self.BA, scale(self.n(add(i, ONE)), 2), dtype, device),
            lambda i: self.high_t(i),
        ]
        st['loop_facts'].append(lambda i: le(i, KK))

    def size(self, i):
        return scale(self.n(add(i, ONE)), 2)

    def padded(self, entry, c, n):
        odd = eq(ir.mod(n, K(2)), ONE)
        return e_add(e_guard(entry(c), bnot(odd)), e_guard(extend(entry, c, n, self.mode), odd))

    def entry(self, i, b, r):
        """row r of the matrix of level i times the approximation A(i), extended by one sample if its length is odd"""
        n = self.size(i)
        return e_sum(n, lambda c: e_mul(e_atom(self.BA, [n, r, c]),
                                        self.padded(lambda q: e_atom(self.name, [i] + list(b) + [q]), c, self.n(i))))

    def high(self, i, b, t):
        return self.entry(i, b, add(self.n(add(i, ONE)), t))

    def high_t(self, i):
        lead = prod(tuple(self.lay.lead))
        h = self.n(add(i, ONE))
        groups = [(h,), tuple(self.lay.lead)]
        keep = [f != ONE for g in groups for f in g]

        def el(flat):
            it = iter(flat)
            full = [next(it) if k else ZERO for k in keep]
            return self.high(i, full[1:], full[0])
        return SymTensor(groups, el, self.dtype, self.device)


def setup_builders(w):
    cs = core.C.store['contracts'] = dict(vc.CONTRACTS)
    cs['matmul_transform.construct_boundary_a'] = builder_contract('construct_boundary_a', w, False)
    for k in ('elem_templates', 'loop_facts', 'extra_templates'):
        core.C.store[k] = []
    cs['matmul_transform.construct_boundary_s'] = builder_contract('construct_boundary_s', w, True)


def wavedec_spec(W, mode, rank=2, axis=-1, level='sym', wav='obj', dtype=F64, device=None, method='qr', defaults=False):
    cls = mt(W).MatrixWavedec

    def body():
        C = core.C
        lay = Layout(rank, [axis], device)
        w = begin(lay, dtype=dtype)
        setup_builders(w)
        L = w.L
        N = V('N0')
        C.assume(le(ONE, N))
        if mode == 'reflect':
            C.assume(le(K(2), N))
        if level == 'sym':
            J = V('J')
            C.assume(le(ONE, J))
        else:
            J = level
        data = lay.tensor([N], lambda b, t: e_atom('X', b + t), dtype, name='data')
        if J is None:
            n0 = add(N, ir.mod(N, K(2)))
            C.assume(le(K(2), L))
            J = fakes.maxlevel(n0, L)
        sp = Levels(lay, w, mode, J, N, lambda b, t: e_atom('X', b + t), dtype, data.device, method)
        kw = {} if defaults else dict(axis=axis, orthogonalization=method, odd_coeff_padding_mode=mode)
        o = verify.call('MatrixWavedec', cls, wavelet_arg(w, wav, dtype, device), *([] if level is None else [mk(J)]), **kw)
        r = verify.call('MatrixWavedec.__call__', o, data)
        analysis_result(sp, r)
    return f'MatrixWavedec[{mode},rank={rank},axis={axis},level={level},wavelet={wav},{method},{dtype}{dev(device)}{",defaults" if defaults else ""}]', body, c16_case(mode, rank, axis, level, method)


def analysis_result(sp, r):
    C = core.C
    lay, dtype, device = sp.lay, sp.dtype, sp.device
    expect_type('the result is a list', r, core.TList)
    if not verify.oblige_eq('the number of entries is one more than the number of levels that fit', core.sym_len(r), mk(add(sp.K, ONE))):
        return
    verify.oblige_eq('the approximation is A(K)', r[0], lay.tensor([sp.n(sp.K)], lambda b, t: e_atom(sp.name, [sp.K] + b + t), dtype, device))
    frame_obligation()
    t = C.fint('t')
    C.assume(band(le(ONE, t), le(t, sp.K)))
    if not C.feasible():
        return
    i = sub(sp.K, t)
    x = r[mk(t)]
    expect_type('a detail entry is a tensor', x, SymTensor)
    verify.oblige_eq('the detail entry is the lower half of the matrix times the padded A(i)', x,
                     lay.tensor([sp.n(add(i, ONE))], lambda b, ts: sp.high(i, b, ts[0]), dtype, device))


# ------------------------------------------------------------------ 1-D synthesis
class Rebuild:
    """Coefficients of J levels as the analysis produces them (finest last): sizes m(0), m(0), m(1), .. m(J-1) with m(p+1) = 2 m(p)
    or 2 m(p) - 1, no level shorter than the filter; R(p+1) = transposed matrix of size 2 m(p) times [R(p); detail p], cropped to m(p+1)."""

    def __init__(self, lay, w, J, dtype, device, method, name='', share=None):
        C = core.C
        L = w.L
        self.lay, self.w, self.J, self.dtype, self.device, self.name = lay, w, J, dtype, device, name
        self.BA = boundary_name(method, dtype)
        self.tag = share.tag if share else name
        if share:
            self.M0, self.odd, self.m, self.pad = share.M0, share.odd, share.m, share.pad
        else:
            self.sizes_of(name, J, L)
        R = self.R = f'R{name}'
        nl = len(lay.lead)

        def unfold(ix):
            i, b, t = ix[0], list(ix[1:1 + nl]), ix[1 + nl]
            if i.const() == 0:
                return e_atom(f'CA{name}', b + [t])
            if i.t.get((), 0) >= 1:
                return self.step(sub(i, ONE), b, t)
            return None
        eqprove.UNFOLD[R] = unfold
        C.ghosts[R] = vc.Ghost(R, lay.lead, [self.m], dtype, device)
        st = C.store
        st['elem_templates'] += [
            lambda i: mk(scale(self.m(sub(sub(J, ONE), i)), 2)),
            lambda i: transposed(boundary(self.BA, scale(self.m(sub(sub(J, ONE), i)), 2), dtype, device)),
        ]
        st['extra_templates'].append(self.templates)

    def sizes_of(self, name, J, L):
        C = core.C
        mname, odd = f'm{name}', f'odd{name}'
        M0 = self.M0 = V(f'M{name}0')
        C.assume(le(ONE, M0))

        def oax(p):
            a = ir.atom(('uf', odd, (p,)))
            return [ge0(a), le(a, ONE), bor(bnot(eq(add(p, ONE), J)), eq(a, ZERO)),
                    bor(bnot(band(ge0(p), lt(p, J))), eq(ir.mkuf(f'padR{name}', (J,)), ONE), eq(a, ZERO))]  # Lean: pad_none
        ir.UFAXIOMS[odd] = oax
        o = self.odd = lambda p: ir.mkuf(odd, (p,))

        def fold(args):
            p = args[0]
            if p.const() == 0:
                return M0
            if p.t.get((), 0) >= 1:
                q = sub(p, ONE)
                return sub(scale(ir.mkuf(mname, (q,)), 2), o(q))
            return None

        def ax(p):
            a = ir.atom(('uf', mname, (p,)))
            out = [bor(bnot(band(ge0(p), le(p, J))), le(ONE, a)), bor(bnot(band(le(ONE, p), le(p, J))), le(L, a)), bor(bnot(eq(p, ZERO)), eq(a, M0))]
            if p.t.get((), 0) >= -core.C.store.get('depth', 1):
                q = sub(p, ONE)
                out.append(bor(bnot(le(ONE, p)), eq(a, sub(scale(ir.mkuf(mname, (q,)), 2), o(q)))))
            return out
        ir.UF_FOLD[mname] = fold
        ir.UFAXIOMS[mname] = ax
        self.m = lambda p: ir.mkuf(mname, (p,))
        C.assume(bor(le(J, ZERO), le(L, self.m(ONE))))
        self.pad = padded_before(f'padR{name}', lambda q: self.m(sub(J, q)))

    def templates(self, v0, v1):
        if core.isint(v0) and core.isint(v1) and not isinstance(v0, (bool, core.SymBool)):
            t = vc.IntFn(lambda i: self.m(sub(self.J, i)), f'm{self.name}(J-i)')
            if t.holds(v0, ZERO, None) and t.holds(v1, ONE, None):
                yield t

    def step(self, i, b, t):
        h = self.m(i)
        n = scale(h, 2)
        return e_sum(n, lambda c: e_mul(e_atom(self.BA, [n, c, t]), e_add(e_guard(e_atom(self.R, [i] + b + [c]), lt(c, h)),
                                                                         e_guard(e_atom(f'CD{self.name}', [i] + b + [sub(c, h)]), le(h, c)))))

    def coefficients(self, container='list', first=None):
        segs = [core.El(self.lay.tensor([first or self.M0], lambda b, t: e_atom(f'CA{self.name}', b + t), self.dtype, self.device, 'coeffs[0]')),
                core.Seg(self.J, lambda p: self.lay.tensor([self.m(p)], lambda b, t: e_atom(f'CD{self.name}', [p] + b + t), self.dtype, self.device, 'a detail'))]
        if container == 'list':
            arg = core.TList.of(segs)
            arg.frozen = 'the coefficient list'
            return arg
        return core.mk_tuple(segs)


def transposed(x):
    el = x._elem
    x._elem = lambda fl: el([fl[1], fl[0]])
    return x


def waverec_spec(W, rank=2, axis=-1, wav='obj', dtype=F64, device=None, method='qr', defaults=False, container='list'):
    cls = mt(W).MatrixWaverec

    def body():
        C = core.C
        lay = Layout(rank, [axis], device)
        w = begin(lay, dtype=dtype)
        setup_builders(w)
        J = V('J')
        C.assume(ge0(J))
        if C.decide(eq(J, ZERO)):
            J = ZERO
        dv = T.mkdev(device or 'cpu')
        sp = Rebuild(lay, w, J, dtype, dv, method)
        kw = {} if defaults else dict(axis=axis, orthogonalization=method)
        o = verify.call('MatrixWaverec', cls, wavelet_arg(w, wav, dtype, device), **kw)
        r = verify.call('MatrixWaverec.__call__', o, sp.coefficients(container))
        expect_type('the result is a tensor', r, SymTensor)
        verify.oblige_eq('the result is the iterated synthesis R(J)', r, lay.tensor([sp.m(J)], lambda b, t: e_atom(sp.R, [J] + b + t), dtype, dv))
        frame_obligation('the coefficients')
    return f'MatrixWaverec[rank={rank},axis={axis},wavelet={wav},{method},{dtype}{dev(device)},{container}{",defaults" if defaults else ""}]', body, c16_case('zero', rank, axis, 'sym', method, synth=True)


# ------------------------------------------------------------------ operators
def operator_ghost(name, steps, n, dtype, device):
    """Sparse n x n matrices name(0) = 1, name(p+1) = step(p): entries (p, r, c) -> e over the entries of name(p)."""
    def unfold(ix):
        p, r, c = ix
        if p.const() == 0:
            return e_guard(e_const(1), eq(r, c))
        if p.t.get((), 0) >= 1:
            q = sub(p, ONE)
            return steps(q, r, c, lambda a, b: e_atom(name, [q, a, b]))
        return None
    eqprove.UNFOLD[name] = unfold
    core.C.ghosts[name] = vc.Ghost(name, [], [lambda i: n, lambda i: n], dtype, device, sparse=True)


def extended(name, m, r, c):
    """block diagonal of the matrix of size m and the identity"""
    return e_add(e_guard(e_atom(name, [m, r, c]), band(lt(r, m), lt(c, m))), e_guard(e_const(1), band(le(m, r), eq(r, c))))


def fwt_operator_spec(W, dtype=F64, device=None, method='qr'):
    """One data-independent matrix: the product of the level matrices, each extended by the identity, coarsest last."""
    cls = mt(W).MatrixWavedec

    def body():
        C = core.C
        lay = Layout(1, [0], device)
        w = begin(lay, dtype=dtype)
        setup_builders(w)
        C.store['contracts']['sparse_math.cat_sparse_identity_matrix'] = mats.cat_contract
        N, J = V('N0'), V('J')
        C.assume(band(le(ONE, N), le(ONE, J)))
        data = lay.tensor([N], lambda b, t: e_atom('X', b + t), dtype, name='data')
        sp = Levels(lay, w, 'zero', J, N, lambda b, t: e_atom('X', b + t), dtype, data.device, method)
        n0 = sp.n(ZERO)
        operator_ghost('O', lambda q, r, c, at: e_sum(n0, lambda k: e_mul(extended(sp.BA, sp.size(q), r, k), at(k, c))), n0, dtype, data.device)
        o = verify.call('MatrixWavedec', cls, w, mk(J), orthogonalization=method)
        verify.call('MatrixWavedec.__call__', o, data)
        if sp.K == ZERO:
            verify.raises('sparse_fwt_operator without levels', lambda: o.sparse_fwt_operator, ValueError)
            return
        padded = band(sp.pad(sp.K), le(K(2), sp.K))
        if C.decide(padded):
            verify.raises('sparse_fwt_operator of a padded transform', lambda: o.sparse_fwt_operator, NotImplementedError)
            return
        r = verify.call('sparse_fwt_operator', lambda: o.sparse_fwt_operator)
        KK = ONE if C.decide(eq(sp.K, ONE)) else sp.K
        check_matrix('the operator', r, coo_tensor([(n0,), (n0,)], lambda ix: e_atom('O', [KK] + list(ix)), dtype, data.device))
        frame_obligation()
    return f'MatrixWavedec.sparse_fwt_operator[{method},{dtype}{dev(device)}]', body, c16_case('zero', 1, 0, 'sym', method)


def ifwt_operator_spec(W, dtype=F64, device=None, method='qr'):
    cls = mt(W).MatrixWaverec

    def body():
        C = core.C
        lay = Layout(1, [0], device)
        w = begin(lay, dtype=dtype)
        setup_builders(w)
        C.store['contracts']['sparse_math.cat_sparse_identity_matrix'] = mats.cat_contract
        J = V('J')
        C.assume(le(ONE, J))
        if C.decide(eq(J, ONE)):
            J = ONE
        dv = T.mkdev(device or 'cpu')
        sp = Rebuild(lay, w, J, dtype, dv, method)
        # P(p+1) = transposed matrix of size 2 m(p) times (P(p), extended by the identity)
        name = 'P'

        def unfold(ix):
            p, r, c = ix
            if p.const() == 0:
                return e_guard(e_const(1), eq(r, c))
            if p.const() == 1:
                return e_atom(sp.BA, [scale(sp.M0, 2), c, r])
            if p.t.get((), 0) >= 1:
                q = sub(p, ONE)
                m = scale(sp.m(q), 2)
                h = sp.m(q)
                return e_sum(m, lambda k: e_mul(e_atom(sp.BA, [m, k, r]), e_add(e_guard(e_atom(name, [q, k, c]), band(lt(k, h), lt(c, h))),
                                                                               e_guard(e_const(1), band(le(h, k), eq(k, c))))))
            return None
        eqprove.UNFOLD[name] = unfold
        sz = lambda p: scale(sp.m(sub(p, ONE)), 2)  # noqa: E731
        C.ghosts[name] = vc.Ghost(name, [], [sz, sz], dtype, dv, sparse=True)
        o = verify.call('MatrixWaverec', cls, w, orthogonalization=method)
        verify.call('MatrixWaverec.__call__', o, sp.coefficients('list'))
        if C.decide(band(sp.pad(J), le(K(2), J))):
            verify.raises('sparse_ifwt_operator of a padded transform', lambda: o.sparse_ifwt_operator, NotImplementedError)
            return
        r = verify.call('sparse_ifwt_operator', lambda: o.sparse_ifwt_operator)
        n = scale(sp.m(sub(J, ONE)), 2)
        check_matrix('the operator', r, coo_tensor([(n,), (n,)], lambda ix: e_atom(name, [J] + list(ix)), dtype, dv))
        frame_obligation()
    return f'MatrixWaverec.sparse_ifwt_operator[{method},{dtype}{dev(device)}]', body, c16_case('zero', 1, 0, 'sym', method, synth=True)


# ------------------------------------------------------------------ builders
def raw_post(w, n, mode, dtype, device, synth):
    """[low-pass rows; high-pass rows] of the strided convolution matrices; the synthesis uses the reversed filters and is transposed."""
    L = w.L
    kind = 'rec' if synth else 'dec'
    parts = [strided1_post(lambda p, c=c: e_atom(filt_name(kind, c), [sub(sub(L, ONE), p) if synth else p]), n, L, K(2), mode, dtype, device) for c in 'ad']
    rows = prod(parts[0].groups[0])

    def el(ix):
        r, c = ix
        return e_add(e_guard(parts[0].at([r, c]), lt(r, rows)), e_guard(parts[1].at([sub(r, rows), c]), le(rows, r)))
    m = coo_tensor([(scale(rows, 2),), (n,)], el, dtype, device)
    return m.transpose(0, 1) if synth else m


def raw_spec(W, synth, mode=None, wav='obj', dtype=F64, device='cpu'):
    name = '_construct_s' if synth else '_construct_a'

    def body():
        C = core.C
        lay = Layout(1, [0], device)
        w = begin(lay, dtype=dtype)
        cs = C.store['contracts'] = dict(vc.CONTRACTS)
        cs['sparse_math.construct_strided_conv_matrix'] = strided1_contract
        n = V('n')
        C.assume(le(ONE, n))
        if mode == 'valid':
            C.assume(le(w.L, n))
        if mode in (None, 'sameshift'):
            C.assume(le(K(2), n))
        r = verify.call(name, getattr(mt(W), name), wavelet_arg(w, wav, dtype, device), mk(n), dtype=dtype, device=device, **({} if mode is None else {'mode': mode}))
        check_matrix('the matrix', r, raw_post(w, n, mode or 'sameshift', dtype, T.mkdev(device), synth))
        frame_obligation('the wavelet')
    return f'{name}[{mode or "default"},wavelet={wav},{dtype},{device}]', body, lambda m: None


def orthogonal_spec(W, dtype=F64, device='cpu'):
    """For an orthogonal wavelet (reconstruction filters = reversed decomposition filters) both directions orthogonalise the same matrix."""
    def body():
        C = core.C
        lay = Layout(1, [0], device)
        w = begin(lay, dtype=dtype)
        n = V('n')
        C.assume(le(K(2), n))
        for c in 'ad':
            eqprove.UNFOLD[filt_name('rec', c)] = lambda ix, c=c: e_atom(filt_name('dec', c), [sub(sub(w.L, ONE), ix[0])])
        verify.oblige_eq('lemma: for an orthogonal wavelet the transposed synthesis matrix is the analysis matrix',
                         raw_post(w, n, 'sameshift', dtype, T.mkdev(device), True).transpose(0, 1), raw_post(w, n, 'sameshift', dtype, T.mkdev(device), False))
    return f'orthogonal wavelet[{dtype},{device}]', body, lambda m: None


def strided1_contract(f, a, k):
    C = core.C
    v = dict(zip(['filter', 'input_rows', 'stride', 'mode'], a), **k)
    flt, n, mode, s = v['filter'], top(v['input_rows']), v.get('mode', 'sameshift'), top(v.get('stride', 2))
    if len(flt.groups) != 1 or mode not in mats.CM:
        raise Unsupported('construct_strided_conv_matrix outside its contract')
    L = prod(flt.groups[0])
    C.oblige('precondition of construct_strided_conv_matrix: at least one row and tap and a positive stride, the filter fits in mode valid',
             band(le(ONE, n), le(ONE, L), le(ONE, s), le(L, n) if mode == 'valid' else TRUE))
    flt = flt._snap()
    return strided1_post(lambda p: flt.at([p]), n, L, s, mode, flt._dtype, flt._device)


def boundary_spec(W, synth, method='qr', wav='obj', dtype=F64, device='cpu', defaults=False):
    """The full matrix is orthogonalised with the filter length and the method; the synthesis matrix is the transpose of the result."""
    name = 'construct_boundary_s' if synth else 'construct_boundary_a'

    def body():
        C = core.C
        lay = Layout(1, [0], device)
        w = begin(lay, dtype=dtype)
        n = V('n')
        C.assume(band(eq(ir.mod(n, K(2)), ZERO), le(w.L, n)))
        cs = C.store['contracts'] = dict(vc.CONTRACTS)
        calls = []

        def raw(sy):
            def f(fn, a, k):
                v = dict(zip(['wavelet', 'length', 'device', 'dtype'], a), **k)
                if not same_wavelet(resolve(v['wavelet']), w) and resolve(v['wavelet']) is not w:
                    raise Unsupported('another wavelet')
                C.oblige('precondition of the raw matrix: at least two rows', le(K(2), top(v['length'])))
                return raw_post(w, top(v['length']), v.get('mode', 'sameshift'), v.get('dtype', F64), T.mkdev(v.get('device', 'cpu')), sy)
            return f
        cs['matmul_transform._construct_a'] = raw(False)
        cs['matmul_transform._construct_s'] = raw(True)

        def orth(fn, a, k):
            v = dict(zip(['matrix', 'filt_len', 'method'], a), **k)
            m = v['matrix']
            check_matrix('the orthogonalised matrix', m, raw_post(w, n, "sameshift", dtype, T.mkdev(device), True).transpose(0, 1) if synth else
                         raw_post(w, n, 'sameshift', dtype, T.mkdev(device), False))
            verify.oblige_eq('rows with fewer entries than the filter length are orthogonalised', v['filt_len'], mk(w.L))
            calls.append(v.get('method', 'qr'))
            r = boundary('Q', n, m._dtype, m._device)
            return r
        cs['matmul_transform.orthogonalize'] = orth
        kw = {} if defaults else dict(orthogonalization=method, dtype=dtype, device=device)
        r = verify.call(name, getattr(mt(W), name), wavelet_arg(w, wav, dtype, device), mk(n), **kw)
        q = boundary('Q', n, dtype, T.mkdev(device))
        check_matrix('the boundary matrix', r, transposed(q) if synth else q)
        if calls == [method]:
            C.record('orthogonalised once with the requested method', 'discharged', backend='type', time=0)
        else:
            malformed('orthogonalised once with the requested method', repr(calls))
        frame_obligation('the wavelet')
    return f'{name}[{method},wavelet={wav},{dtype},{device}{",defaults" if defaults else ""}]', body, c16_case('zero', 1, 0, 1, method)


# ------------------------------------------------------------------ C19: histories
def other_layout(rank, axis, device, pre):
    lay = Layout(rank, [axis], device)
    lay.lead = [V(f'{pre}{k}') for k in range(rank) if k not in lay.axes]
    for b in lay.lead:
        core.C.assume(le(ONE, b))
    return lay


def fresh_state(what, o, f):
    """Every attribute of the reused object equals that of a fresh object after the same call."""
    C = core.C
    a, b = o.__dict__, f.__dict__
    if set(a) != set(b):
        C.record(f'{what}: same attributes as a fresh object', 'unknown', backend='type', time=0, detail=f'{sorted(set(a) ^ set(b))}')
        return
    for k in sorted(a):
        ok, why = vc.values_equal(a[k], b[k])
        if not ok and isinstance(a[k], (bool, core.SymBool)) and isinstance(b[k], (bool, core.SymBool)):
            ok = vc.same_value(a[k], b[k])
        C.record(f'{what}: attribute {k} as in a fresh object', 'discharged' if ok else 'unknown', backend='z3', time=0, **({} if ok else dict(detail=str(why)[:300])))


def dec_history_spec(W, same, level='sym', dt=(F64, F64), dv=('cpu', 'cpu'), ranks=(2, 2), mode='zero', method='qr'):
    """Two calls with two arbitrary inputs (the padded lengths equal or not): the second result and the state afterwards are those of a fresh object."""
    cls = mt(W).MatrixWavedec

    def body():
        C = core.C
        lay = Layout(ranks[1], [-1], dv[1])
        w = begin(lay, dtype=dt[1])
        setup_builders(w)
        lay1 = other_layout(ranks[0], -1, dv[0], 'C')
        L = w.L
        C.assume(le(K(2), L))
        n0 = scale(V('u'), 2)
        C.assume(le(ONE, V('u')))
        N = n0 if C.decide(eq(V('e'), ZERO)) else sub(n0, ONE)
        J = V('J')
        if level == 'sym':
            C.assume(le(ONE, J))
        Js = [J if level == 'sym' else fakes.maxlevel(n0, L)] * 2
        if same:
            n1, N1 = n0, n0 if C.decide(eq(V('e1'), ZERO)) else sub(n0, ONE)
        else:
            n1 = scale(V('u1'), 2)
            C.assume(band(le(ONE, V('u1')), bnot(eq(V('u1'), V('u')))))
            N1 = n1 if C.decide(eq(V('e1'), ZERO)) else sub(n1, ONE)
            if level is None:
                Js[0] = fakes.maxlevel(n1, L)
        if mode == 'reflect':
            C.assume(band(le(K(2), N), le(K(2), N1)))
        x1 = lay1.tensor([N1], lambda b, t: e_atom('Y', b + t), dt[0], name='data')
        x2 = lay.tensor([N], lambda b, t: e_atom('X', b + t), dt[1], name='data')
        s1 = Levels(lay1, w, mode, Js[0], N1, lambda b, t: e_atom('Y', b + t), dt[0], x1.device, method, name='Z', n0=n1)
        s2 = Levels(lay, w, mode, Js[1], N, lambda b, t: e_atom('X', b + t), dt[1], x2.device, method, name='A', n0=n0, share=s1 if same else None)
        mkobj = lambda: cls(w, *([mk(J)] if level == 'sym' else []), orthogonalization=method, odd_coeff_padding_mode=mode)  # noqa: E731
        o = verify.call('MatrixWavedec', mkobj)
        verify.call('MatrixWavedec.__call__', o, x1)
        r = verify.call('MatrixWavedec.__call__ of a used object', o, x2)
        f = verify.call('MatrixWavedec', mkobj)
        verify.call('MatrixWavedec.__call__', f, x2)
        fresh_state('after the second call', o, f)
        analysis_result(s2, r)
    return f'MatrixWavedec history[{"equal" if same else "different"} padded length,level={level},{dt},{dv},ranks={ranks},{mode},{method}]', body, c19_case(level, dt, ranks, mode)


def rec_history_spec(W, same, fail=None, dt=(F64, F64), dv=('cpu', 'cpu'), ranks=(2, 2), method='qr'):
    """Two calls of one inverse object (levels and lengths equal or not; the first one may fail because of a wrong approximation length)."""
    cls = mt(W).MatrixWaverec

    def body():
        C = core.C
        lay = Layout(ranks[1], [-1], dv[1])
        w = begin(lay, dtype=dt[1])
        setup_builders(w)
        lay1 = other_layout(ranks[0], -1, dv[0], 'C')
        d1, d2 = [T.mkdev(x) for x in dv]
        J = V('J')
        C.assume(ge0(J))
        if C.decide(eq(J, ZERO)):
            J = ZERO
        if same:
            J1 = J
        else:
            J1 = V('J1')
            C.assume(ge0(J1))
            if C.decide(eq(J1, ZERO)):
                J1 = ZERO
        s1 = Rebuild(lay1, w, J1, dt[0], d1, method, name='Z')
        s2 = Rebuild(lay, w, J, dt[1], d2, method, share=s1 if same else None)
        if not same:
            last = lambda s, j: s.M0 if j == ZERO else s.m(sub(j, ONE))  # noqa: E731
            C.assume(bor(bnot(eq(J, J1)), bnot(eq(last(s1, J1), last(s2, J)))))
        mkobj = lambda: cls(w, orthogonalization=method)  # noqa: E731
        o = verify.call('MatrixWaverec', mkobj)
        if fail == 'shape':
            M = V('MW')
            C.assume(band(le(ONE, M), bnot(eq(M, s1.M0)), le(ONE, J1)))
            verify.raises('MatrixWaverec.__call__ with an approximation of another length than the detail', lambda: o(s1.coefficients(first=M)), ValueError)
        else:
            verify.call('MatrixWaverec.__call__', o, s1.coefficients())
        r = verify.call('MatrixWaverec.__call__ of a used object', o, s2.coefficients())
        f = verify.call('MatrixWaverec', mkobj)
        verify.call('MatrixWaverec.__call__', f, s2.coefficients())
        fresh_state('after the second call', o, f)
        expect_type('the result is a tensor', r, SymTensor)
        verify.oblige_eq('the result is the iterated synthesis R(J)', r, lay.tensor([s2.m(J)], lambda b, t: e_atom(s2.R, [J] + b + t), dt[1], d2))
        frame_obligation('the coefficients')
    return f'MatrixWaverec history[{"equal" if same else "different"} sizes,{fail or "ok"},{dt},{dv},ranks={ranks},{method}]', body, c19_case('sym', dt, ranks, 'zero', synth=True)
