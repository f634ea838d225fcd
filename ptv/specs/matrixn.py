"""C17, C18: separable boundary-wavelet transforms in two and three dimensions."""
from specs.matrix import *  # noqa: F401,F403
from specs import matrix
from specs.matrix import setup_builders, builder_contract, boundary, boundary_name, padded_before, lemma, transposed, tap, DTN

# the separable 2-D transform returns (high along -1, high along -2, both): the other order is known finding C17-separable-order
BANDS = {2: ('ad', 'da', 'dd'), 3: WORDS[3]}


def entry2(W, d):
    m = W.load(f'matmul_transform_{d}')
    return getattr(m, f'MatrixWavedec{d}'), getattr(m, f'MatrixWaverec{d}')


def case_nd(d, mode, rank, axes, level, method, synth=False, separable=True):
    def f(m):
        J = m.get('J', 1) if level == 'sym' else level
        ax = [a % rank for a in axes]
        ns = [m.get(f'M{q}' if synth else f'N{q}', 2 * m.get('h', 1)) for q in range(d)]
        if synth:
            ns = [n * 2 ** min(20, max(0, m.get('J', 1))) for n in ns]
        shape = [ns[ax.index(k)] if k in ax else min(3, max(1, m.get(f'B{k}', 1))) for k in range(rank)]
        tot = 1
        for x in shape:
            tot *= x
        if tap(m) is None or tot > 1e5 or any(n < 1 for n in ns) or (J is not None and not 1 <= J <= 12):
            return None
        return dict(kind=f'm{d}', w=tap(m), shape=shape, level=J, mode=mode, meth=method, axes=list(axes), sep=separable, seed=1)
    return f


class LevelsN:
    """Sizes, number of levels and values of the separable matrix analysis of one input: A(i+1) = all lower halves of the
    boundary matrices applied along every transformed axis of A(i), each axis first extended by one sample if its length is odd."""

    def __init__(self, lay, w, mode, J, N, x, dtype, device, method, name='A', separable=True):
        C = core.C
        L = w.L
        self.lay, self.w, self.mode, self.J, self.name, self.d = lay, w, mode, J, name, lay.d
        self.separable = separable
        self.BA = boundary_name(method, dtype)
        self.BB = full_name(method, dtype)
        eqprove.FILTERS.add(self.BA)
        eqprove.FILTERS.add(self.BB)
        self.dtype, self.device = dtype, device
        KK = V(f'K{name}')
        C.assume(band(ge0(KK), le(KK, J)))
        if C.decide(eq(KK, ZERO)):
            KK = ZERO
        self.K = KK
        half = lambda m: ir.div(add(m, ONE), K(2))  # noqa: E731
        self.n = []
        for q, n0 in enumerate(N):
            def dom(p, m, n0=n0):
                return [bor(bnot(ge0(p)), le(ONE, m)), bor(bnot(band(ge0(p), lt(p, KK))), le(L, m)), bor(bnot(eq(p, ZERO)), eq(m, n0))]
            C.assume(band(*dom(ZERO, n0)))
            lemma('sizes are positive', n0, half, lambda m: le(ONE, m), TRUE)
            self.n.append(size_seq(f'n{name}{q}', n0, half, dom))
        C.assume(bor(eq(KK, J), *[lt(f(KK), L) for f in self.n]))
        self.pad = any_odd_before(f'pad{name}', self.n)
        nl = len(lay.lead)

        def unfold(ix):
            i, b, t = ix[0], list(ix[1:1 + nl]), list(ix[1 + nl:])
            if i.const() == 0:
                return x(b, t)
            if i.t.get((), 0) >= 1:
                return self.band('a' * self.d, sub(i, ONE), b, t)
            return None
        eqprove.UNFOLD[name] = unfold
        C.ghosts[name] = vc.Ghost(name, lay.lead, self.n, dtype, device)
        st = C.store
        for q in range(self.d):
            st['elem_templates'] += [
                lambda i, q=q: mk(self.size(i, q)),
                lambda i, q=q: core.mkb(eq(ir.mod(self.n[q](i), K(2)), ONE)),
                lambda i, q=q: boundary(self.BA, self.size(i, q), dtype, device),
            ]
        if not separable:
            st.setdefault('canonical', {}).update({f'n{name}{q}': (lambda p, q=q: self.size(p, q)) for q in range(2)})
            st['elem_templates'].append(lambda i: full_boundary(self.BB, self.size(i, 0), self.size(i, 1), dtype, device))
        st['elem_templates'] += [lambda i, wd=wd: self.folded(wd, i) for wd in BANDS[self.d]]
        st['loop_facts'].append(lambda i: le(i, KK))

    def size(self, i, q):
        return scale(self.n[q](add(i, ONE)), 2)

    def padded(self, entry, c, n):
        """entry at c of the signal with sizes n, every odd axis extended"""
        if not c:
            return entry([])
        odd = eq(ir.mod(n[0], K(2)), ONE)
        rest = lambda q: self.padded(lambda r: entry([q] + r), c[1:], n[1:])  # noqa: E731
        return e_add(e_guard(rest(c[0]), bnot(odd)), e_guard(extend(rest, c[0], n[0], self.mode), odd))

    def entry(self, i, b, r):
        """row r (one number per axis; one number in all if not separable) of the matrices of level i applied to the extended A(i)"""
        ns = [self.size(i, q) for q in range(self.d)]
        now = [f(i) for f in self.n]
        if not self.separable:
            return sum_nd(ns, lambda c: e_mul(e_atom(self.BB, ns + list(r) + [c[1], c[0]]),
                                              self.padded(lambda q: e_atom(self.name, [i] + list(b) + list(q)), list(c), now)))
        return sum_nd(ns, lambda c: e_mul(product([e_atom(self.BA, [n, rr, cc]) for n, rr, cc in zip(ns, r, c)]),
                                          self.padded(lambda q: e_atom(self.name, [i] + list(b) + list(q)), list(c), now)))

    def band(self, word, i, b, t):
        if not self.separable:  # the four parts in the order of the words aa, da, ad, dd
            return self.entry(i, b, [K(['aa', 'da', 'ad', 'dd'].index(word)), t[1], t[0]])
        return self.entry(i, b, [add(self.n[q](add(i, ONE)), x) if ch == 'd' else x for q, (ch, x) in enumerate(zip(word, t))])

    def folded(self, word, i):
        """the band with all other axes folded into one in front"""
        groups = [tuple(self.lay.lead)] + [(f(add(i, ONE)),) for f in self.n]
        keep = [f != ONE for g in groups for f in g]
        nl = len(self.lay.lead)

        def el(flat):
            it = iter(flat)
            full = [next(it) if k else ZERO for k in keep]
            return self.band(word, i, full[:nl], full[nl:])
        return SymTensor(groups, el, self.dtype, self.device)

    def band_t(self, word, i):
        return self.lay.tensor([f(add(i, ONE)) for f in self.n], lambda b, t: self.band(word, i, b, t), self.dtype, self.device)


def any_odd_before(nm, sizes):
    """nm(i): whether some size of the levels 0..i-1 is odd"""
    def fold(args):
        p = args[0]
        if p.const() == 0:
            return ZERO
        if p.t.get((), 0) >= 1:
            q = sub(p, ONE)
            return ite(bor(*[eq(ir.mod(f(q), K(2)), ONE) for f in sizes]), ONE, ir.mkuf(nm, (q,)))
        return None

    def axiom(p):
        a = ir.atom(('uf', nm, (p,)))
        return [band(ge0(a), le(a, ONE))]
    ir.UF_FOLD[nm] = fold
    ir.UFAXIOMS[nm] = axiom

    def cond(i):
        return eq(ir.mkuf(nm, (i,)), ONE)

    def template(v0, v1):
        t = vc.BoolFn(cond, f'{nm}(i)')
        if t.holds(v0, ZERO, None) and t.holds(v1, ONE, None):
            yield t
    core.C.store['extra_templates'].append(template)
    return cond


def wavedecn_spec(W, d, mode, rank=None, axes=None, level='sym', wav='obj', dtype=F64, device=None, method='qr', defaults=False, separable=True):
    cls, _ = entry2(W, d)
    rank = rank or d + 1
    axes = axes or tuple(range(-d, 0))

    def body():
        C = core.C
        lay = Layout(rank, axes, device)
        w = begin(lay, dtype=dtype)
        (setup_builders if separable else setup_full)(w)
        L = w.L
        N = [V(f'N{q}') for q in range(d)]
        C.assume(band(*[le(ONE, n) for n in N]))
        if level == 'sym':
            J = V('J')
            C.assume(le(ONE, J))
        else:
            C.assume(le(K(2), L))
            J = fakes.maxlevel(N[0], L)
            for x in N[1:]:
                m = fakes.maxlevel(x, L)
                J = ite(le(J, m), J, m)
        data = lay.tensor(N, lambda b, t: e_atom('X', b + t), dtype, name='data')
        sp = LevelsN(lay, w, mode, J, N, lambda b, t: e_atom('X', b + t), dtype, data.device, method, separable=separable)
        kw = {} if defaults else dict(axes=tuple(axes), orthogonalization=method, odd_coeff_padding_mode=mode)
        if not separable:
            kw['separable'] = False
        o = verify.call(cls.__name__, cls, wavelet_arg(w, wav, dtype, device), *([] if level is None else [mk(J)]), **kw)
        r = verify.call(f'{cls.__name__}.__call__', o, data)
        analysis_result(W, sp, r)
    return (f'MatrixWavedec{d}[{mode},rank={rank},axes={axes},level={level},wavelet={wav},{method},{dtype}{dev(device)}{",defaults" if defaults else ""}{"" if separable else ",non-separable"}]', body,
            case_nd(d, mode, rank, axes, level, method, separable=separable))


def analysis_result(W, sp, r):
    C = core.C
    lay, d = sp.lay, sp.d
    expect_type('the result is a tuple', r, (tuple, core.STuple))
    if not verify.oblige_eq('the number of entries is one more than the number of levels that fit', core.sym_len(r), mk(add(sp.K, ONE))):
        return
    verify.oblige_eq('the approximation is A(K)', r[0], lay.tensor([f(sp.K) for f in sp.n], lambda b, t: e_atom(sp.name, [sp.K] + b + t), sp.dtype, sp.device))
    frame_obligation()
    t = C.fint('t')
    C.assume(band(le(ONE, t), le(t, sp.K)))
    if not C.feasible():
        return
    i = sub(sp.K, t)
    v = r[mk(t)]
    bs = bands_of('conv', d, v)
    if bs is None:
        known(v)
        malformed('detail entries have the documented structure', repr(v)[:200])
        return
    if d == 2:
        bs = dict(zip(BANDS[2] if sp.separable else WORDS[2], v))
    for word, x in bs.items():
        verify.oblige_eq(f'band {word} is that part of the matrices applied along the axes of the extended A(i)', x, sp.band_t(word, i))


# ------------------------------------------------------------------ synthesis
class RebuildN:
    """Coefficients of J levels as the analysis produces them (finest last): per axis sizes m(0), m(0), m(1), .. m(J-1) with
    m(p+1) = 2 m(p) or 2 m(p) - 1, no level shorter than the filter; R(p+1) = transposed matrices of sizes 2 m(p) along every axis
    applied to the block tensor of R(p) and the details p, cropped to m(p+1)."""

    def __init__(self, W, lay, w, J, dtype, device, method, name='', separable=True):
        C = core.C
        L = w.L
        d = self.d = lay.d
        self.W, self.lay, self.w, self.J, self.dtype, self.device, self.name = W, lay, w, J, dtype, device, name
        self.separable = separable
        self.BA = boundary_name(method, dtype)
        self.BB = full_name(method, dtype)
        eqprove.FILTERS.add(self.BA)
        eqprove.FILTERS.add(self.BB)
        self.words = [''.join(p) for p in itertools.product('ad', repeat=d)][1:]
        self.M0, self.m, self.s = [], [], []
        for q in range(d):
            self.axis(q, name, J, L)
        self.pad = any_odd_before(f'padR{name}', [lambda q, f=f: f(sub(J, q)) for f in self.m])
        R = self.R = f'R{name}'
        nl = len(lay.lead)

        def unfold(ix):
            i, b, t = ix[0], list(ix[1:1 + nl]), list(ix[1 + nl:])
            if i.const() == 0:
                return e_atom(f'CA{name}', b + t)
            if i.t.get((), 0) >= 1:
                return self.step(sub(i, ONE), b, t)
            return None
        eqprove.UNFOLD[R] = unfold
        # the 3-D inverse crops when the next level starts
        C.ghosts[R] = vc.Ghost(R, lay.lead, self.s if d == 3 else self.m, dtype, device)
        st = C.store
        for q in range(d):
            size = lambda i, q=q: scale(self.m[q](sub(sub(J, ONE), i)), 2)  # noqa: E731
            st['elem_templates'] += [lambda i, size=size: mk(size(i)), lambda i, size=size: transposed(boundary(self.BA, size(i), dtype, device))]
        if not separable:
            st.setdefault('canonical', {}).update({f'm{name}{q}': (lambda p, q=q: scale(self.m[q](sub(p, ONE)), 2)) for q in range(2)})
            st['elem_templates'].append(lambda i: full_boundary(self.BB, *[scale(f(sub(sub(J, ONE), i)), 2) for f in self.m], dtype, device, transpose=True))
        st['extra_templates'].append(self.templates)

    def axis(self, q, name, J, L):
        C = core.C
        mname, odd, sname = f'm{name}{q}', f'odd{name}{q}', f's{name}{q}'
        M0 = V(f'M{name}{q}')
        self.M0.append(M0)
        C.assume(le(ONE, M0))

        def oax(p):
            a = ir.atom(('uf', odd, (p,)))
            return [ge0(a), le(a, ONE), bor(bnot(eq(add(p, ONE), J)), eq(a, ZERO))]
        ir.UFAXIOMS[odd] = oax

        def fold(args):
            p = args[0]
            if p.const() == 0:
                return M0
            if p.t.get((), 0) >= 1:
                r = sub(p, ONE)
                return sub(scale(ir.mkuf(mname, (r,)), 2), ir.mkuf(odd, (r,)))
            return None

        def ax(p):
            a = ir.atom(('uf', mname, (p,)))
            out = [bor(bnot(band(ge0(p), le(p, J))), le(ONE, a)), bor(bnot(band(le(ONE, p), le(p, J))), le(L, a)), bor(bnot(eq(p, ZERO)), eq(a, M0))]
            if p.t.get((), 0) >= -core.C.store.get('depth', 1):
                r = sub(p, ONE)
                out.append(bor(bnot(le(ONE, p)), eq(a, sub(scale(ir.mkuf(mname, (r,)), 2), ir.mkuf(odd, (r,))))))
            return out
        ir.UF_FOLD[mname] = fold
        ir.UFAXIOMS[mname] = ax
        m = lambda p: ir.mkuf(mname, (p,))  # noqa: E731
        self.m.append(m)
        C.assume(bor(le(J, ZERO), le(L, m(ONE))))
        if self.d == 3:
            def sfold(args):
                p = args[0]
                if p.const() == 0:
                    return M0
                if p.t.get((), 0) >= 1:
                    return scale(m(sub(p, ONE)), 2)
                return None

            def sax(p):
                a = ir.atom(('uf', sname, (p,)))
                return [bor(bnot(ge0(p)), band(le(m(p), a), le(a, add(m(p), ONE)))), bor(bnot(eq(p, ZERO)), eq(a, M0)), bor(bnot(eq(p, J)), eq(a, m(p)))]
            ir.UF_FOLD[sname] = sfold
            ir.UFAXIOMS[sname] = sax
            self.s.append(lambda p: ir.mkuf(sname, (p,)))

    def templates(self, v0, v1):
        if core.isint(v0) and core.isint(v1) and not isinstance(v0, (bool, core.SymBool)):
            for q, f in enumerate(self.m):
                t = vc.IntFn(lambda i, f=f: f(sub(self.J, i)), f'm{self.name}{q}(J-i)')
                if t.holds(v0, ZERO, None) and t.holds(v1, ONE, None):
                    yield t

    def block(self, i, b, c):
        """entry at c of the block tensor of the approximation R(i) and the details i"""
        hs = [f(i) for f in self.m]
        out = []
        for word in ['a' * self.d] + self.words:
            g = band(*[lt(x, h) if ch == 'a' else le(h, x) for ch, x, h in zip(word, c, hs)])
            ix = [x if ch == 'a' else sub(x, h) for ch, x, h in zip(word, c, hs)]
            out.append(e_guard(e_atom(self.R if word == 'a' * self.d else f'CD{self.name}{word}', [i] + list(b) + ix), g))
        return e_add(*out)

    def step(self, i, b, t):
        ns = [scale(f(i), 2) for f in self.m]
        if not self.separable:
            return e_add(*[sum_nd([f(i) for f in self.m], lambda c, part=part, word=word: e_mul(
                e_atom(self.BB, ns + [K(part), c[1], c[0], t[1], t[0]]),
                e_atom(self.R if word == 'aa' else f'CD{self.name}{word}', [i] + list(b) + list(c))))
                for part, word in enumerate(['aa', 'da', 'ad', 'dd'])])
        return sum_nd(ns, lambda c: e_mul(product([e_atom(self.BA, [n, cc, tt]) for n, cc, tt in zip(ns, c, t)]), self.block(i, b, c)))

    def coefficients(self, container='tuple', first=None, order=None):
        ten = lambda name, sizes, f, what: self.lay.tensor(sizes, f, self.dtype, self.device, what)  # noqa: E731

        def details(p):
            ts = {wd: ten(wd, [f(p) for f in self.m], lambda b, t, wd=wd: e_atom(f'CD{self.name}{wd}', [p] + b + t), 'a detail') for wd in self.words}
            if self.d == 2:
                return self.W.load('constants').WaveletDetailTuple2d(*[ts[wd] for wd in (BANDS[2] if self.separable else WORDS[2])])
            return FrozenDict({k: ts[k] for k in order or self.words})
        segs = [core.El(ten('a', first or self.M0, lambda b, t: e_atom(f'CA{self.name}', b + t), 'coeffs[0]')), core.Seg(self.J, details)]
        if container == 'list':
            arg = core.TList.of(segs)
            arg.frozen = 'the coefficient list'
            return arg
        return core.mk_tuple(segs)


def waverecn_spec(W, d, rank=None, axes=None, wav='obj', dtype=F64, device=None, method='qr', defaults=False, container='tuple', order=None, separable=True):
    _, cls = entry2(W, d)
    rank = rank or d + 1
    axes = axes or tuple(range(-d, 0))

    def body():
        C = core.C
        lay = Layout(rank, axes, device)
        w = begin(lay, dtype=dtype)
        (setup_builders if separable else setup_full)(w)
        J = V('J')
        C.assume(ge0(J))
        if C.decide(eq(J, ZERO)):
            J = ZERO
        dv = T.mkdev(device or 'cpu')
        sp = RebuildN(W, lay, w, J, dtype, dv, method, separable=separable)
        kw = {} if defaults else dict(axes=tuple(axes), orthogonalization=method)
        if not separable:
            kw['separable'] = False
        o = verify.call(cls.__name__, cls, wavelet_arg(w, wav, dtype, device), **kw)
        r = verify.call(f'{cls.__name__}.__call__', o, sp.coefficients(container, order=order))
        expect_type('the result is a tensor', r, SymTensor)
        verify.oblige_eq('the result is the iterated synthesis R(J)', r, lay.tensor([f(J) for f in sp.m], lambda b, t: e_atom(sp.R, [J] + b + t), dtype, dv))
        frame_obligation('the coefficients')
    return (f'MatrixWaverec{d}[rank={rank},axes={axes},wavelet={wav},{method},{dtype}{dev(device)},{container}{order or ""}{",defaults" if defaults else ""}{"" if separable else ",non-separable"}]', body,
            case_nd(d, 'zero', rank, axes, 'sym', method, synth=True, separable=separable))


# ------------------------------------------------------------------ non-separable 2-D
def full_boundary(name, n1, n2, dtype, device, transpose=False):
    """The orthogonal matrix of the images of n1 rows and n2 columns, flattened column by column; its rows are the four parts (words aa, da,
    ad, dd), each flattened column by column: entries name(n1, n2, part, row of the part (column, row), input column, input row)."""
    rows = (K(4), ir.div(n2, K(2)), ir.div(n1, K(2)))
    cols = (n2, n1)
    if transpose:
        return coo_tensor([cols, rows], lambda ix: e_atom(name, [n1, n2] + list(ix[2:]) + list(ix[:2])), dtype, device)
    return coo_tensor([rows, cols], lambda ix: e_atom(name, [n1, n2] + list(ix)), dtype, device)


def canonical(n):
    """the size as the contract writes it (no case distinction on its parity)"""
    for m in n.t:
        for x in m:
            if x[0] == 'uf' and x[1] in core.C.store['canonical']:
                c = core.C.store['canonical'][x[1]](x[2][0])
                if core.C.proved(eq(c, n)):
                    return c
    return n


def full_name(method, dtype):
    return 'BB' + boundary_name(method, dtype)[2:]


def full_contract(fname, wav, transpose):
    """Precondition: the wavelet of the object, even sizes of at least the filter length.
    Postcondition: the orthogonalised two-dimensional analysis matrix of these sizes (its transpose for the synthesis)."""
    def f(fn, a, k):
        C = core.C
        C.nargs = None
        v = dict(zip(['wavelet', 'height', 'width', 'device', 'orthogonalization', 'dtype'], a), **k)
        if 'boundary' in v:
            v['orthogonalization'] = v.pop('boundary')
        n1, n2 = canonical(top(v['height'])), canonical(top(v['width']))
        w = matrix.resolve(v['wavelet'])
        if w is not wav and not matrix.same_wavelet(w, wav):
            raise Unsupported('a boundary matrix of another wavelet')
        C.oblige(f'precondition of {fname}: even sizes of at least the filter length',
                 band(*[x for n in (n1, n2) for x in (eq(ir.mod(n, K(2)), ZERO), le(wav.L, n))]))
        dt = v.get('dtype', F64)
        return full_boundary(full_name(v.get('orthogonalization', 'qr'), dt), n1, n2, dt, T.mkdev(v.get('device', 'cpu')), transpose)
    return f


def setup_full(w):
    setup_builders(w)
    cs = core.C.store['contracts']
    cs['matmul_transform_2.construct_boundary_a2'] = full_contract('construct_boundary_a2', w, False)
    cs['matmul_transform_2.construct_boundary_s2'] = full_contract('construct_boundary_s2', w, True)


def strided2_post(entry, n, L, s, mode, dtype, device):
    """n = [rows, columns]; flattened column by column: index (column, row)."""
    off = ONE if mode == 'sameshift' else ZERO
    st = [mats.out_start(mode, L[q]) for q in (0, 1)]
    cnt = [ir.div(add(sub(mats.out_size(mode, n[q], L[q]), off), sub(s, ONE)), s) for q in (0, 1)]

    def el(ix):
        c, r, ic, iq = ix
        p = [sub(add(add(off, mul(s, r)), st[0]), iq), sub(add(add(off, mul(s, c)), st[1]), ic)]
        return e_guard(entry(p), band(*[band(ge0(p[j]), lt(p[j], L[j])) for j in (0, 1)]))
    return coo_tensor([(cnt[1], cnt[0]), (n[1], n[0])], el, dtype, device)


def strided2_contract(f, a, k):
    C = core.C
    v = dict(zip(['filter', 'input_rows', 'input_columns', 'stride', 'mode'], a), **k)
    flt, n, mode, s = v['filter'], [top(v['input_rows']), top(v['input_columns'])], v.get('mode', 'full'), top(v.get('stride', 2))
    if len(flt.groups) != 2 or mode not in mats.CM:
        raise Unsupported('construct_strided_conv2d_matrix outside its contract')
    L = [prod(g) for g in flt.groups]
    C.oblige('precondition of construct_strided_conv2d_matrix: at least one row, column and tap and a positive stride, the filter fits in mode valid',
             band(le(ONE, s), *[band(le(ONE, p), le(ONE, q), le(q, p) if mode == 'valid' else TRUE) for p, q in zip(n, L)]))
    flt = flt._snap()
    return strided2_post(lambda p: flt.at(p), n, L, s, mode, flt._dtype, flt._device)


def raw2_post(w, n, mode, dtype, device, synth):
    """The strided convolution matrices of the four products of the filters, stacked in the order aa, da, ad, dd (first letter: along the
    rows index); the synthesis uses the reversed reconstruction filters and is transposed."""
    L = w.L
    kind = 'rec' if synth else 'dec'
    tap = lambda c, p: e_atom(filt_name(kind, c), [sub(sub(L, ONE), p) if synth else p])  # noqa: E731
    parts = [strided2_post(lambda p, wd=wd: e_mul(tap(wd[0], p[0]), tap(wd[1], p[1])), n, [L, L], K(2), mode, dtype, device) for wd in ('aa', 'da', 'ad', 'dd')]
    m = coo_tensor([(K(4),) + tuple(parts[0].groups[0]), parts[0].groups[1]],
                   lambda ix: e_add(*[e_guard(x.E(list(ix[1:])), eq(ix[0], K(q))) for q, x in enumerate(parts)]), dtype, device)
    return m.transpose(0, 1) if synth else m


def raw2_spec(W, synth, mode=None, wav='obj', dtype=F64, device='cpu'):
    name = '_construct_s_2' if synth else '_construct_a_2'

    def body():
        C = core.C
        lay = Layout(2, [0, 1], device)
        w = begin(lay, dtype=dtype)
        cs = C.store['contracts'] = dict(vc.CONTRACTS)
        cs['sparse_math.construct_strided_conv2d_matrix'] = strided2_contract
        n = [V('n0'), V('n1')]
        C.assume(band(*[le(K(2), x) for x in n]))
        if mode == 'valid':
            C.assume(band(*[le(w.L, x) for x in n]))
        r = verify.call(name, getattr(W.load('matmul_transform_2'), name), wavelet_arg(w, wav, dtype, device), mk(n[0]), mk(n[1]), dtype=dtype, device=device,
                        **({} if mode is None else {'mode': mode}))
        check_matrix('the matrix', r, raw2_post(w, n, mode or 'sameshift', dtype, T.mkdev(device), synth))
        frame_obligation('the wavelet')
    return f'{name}[{mode or "default"},wavelet={wav},{dtype},{device}]', body, lambda m: None


def boundary2_spec(W, synth, method='qr', wav='obj', dtype=F64, device='cpu', defaults=False):
    """The four stacked matrices are orthogonalised with the squared filter length and the method; the synthesis matrix is the transpose."""
    name = 'construct_boundary_s2' if synth else 'construct_boundary_a2'

    def body():
        C = core.C
        lay = Layout(2, [0, 1], device)
        w = begin(lay, dtype=dtype)
        n = [V('n0'), V('n1')]
        C.assume(band(*[band(eq(ir.mod(x, K(2)), ZERO), le(w.L, x)) for x in n]))
        cs = C.store['contracts'] = dict(vc.CONTRACTS)
        calls = []
        dv = T.mkdev(device)

        def raw(sy):
            def f(fn, a, k):
                v = dict(zip(['wavelet', 'height', 'width', 'device', 'dtype', 'mode'], a), **k)
                if not matrix.same_wavelet(matrix.resolve(v['wavelet']), w) and matrix.resolve(v['wavelet']) is not w:
                    raise Unsupported('another wavelet')
                s = [top(v['height']), top(v['width'])]
                C.oblige('precondition of the raw matrix: at least two rows and columns', band(*[le(K(2), x) for x in s]))
                return raw2_post(w, s, v.get('mode', 'sameshift'), v.get('dtype', F64), T.mkdev(v.get('device', 'cpu')), sy)
            return f
        cs['matmul_transform_2._construct_a_2'] = raw(False)
        cs['matmul_transform_2._construct_s_2'] = raw(True)

        def orth(fn, a, k):
            v = dict(zip(['matrix', 'filt_len', 'method'], a), **k)
            m = raw2_post(w, n, 'sameshift', dtype, dv, synth)
            check_matrix('the orthogonalised matrix', v['matrix'], m.transpose(0, 1) if synth else m)
            verify.oblige_eq('rows with fewer entries than the squared filter length are orthogonalised', v['filt_len'], mk(ir.mul(w.L, w.L)))
            calls.append(v.get('method', 'qr'))
            return full_boundary('Q', n[0], n[1], v['matrix']._dtype, v['matrix']._device)
        cs['matmul_transform.orthogonalize'] = cs['matmul_transform_2.orthogonalize'] = orth
        kw = {} if defaults else dict(orthogonalization=method, dtype=dtype)
        r = verify.call(name, getattr(W.load('matmul_transform_2'), name), wavelet_arg(w, wav, dtype, device), mk(n[0]), mk(n[1]), device, **kw)
        check_matrix('the boundary matrix', r, full_boundary('Q', n[0], n[1], dtype, dv, transpose=synth))
        if calls == [method]:
            C.record('orthogonalised once with the requested method', 'discharged', backend='type', time=0)
        else:
            malformed('orthogonalised once with the requested method', repr(calls))
        frame_obligation('the wavelet')
    return f'{name}[{"defaults" if defaults else method},wavelet={wav},{dtype},{device}]', body, lambda m: None


def orthogonal2_spec(W, dtype=F64, device='cpu'):
    """For an orthogonal wavelet (reconstruction filters = reversed decomposition filters) both directions orthogonalise the same matrix."""
    def body():
        C = core.C
        w = begin(Layout(2, [0, 1], device), dtype=dtype)
        n = [V('n0'), V('n1')]
        C.assume(band(*[le(K(2), x) for x in n]))
        for c in 'ad':
            eqprove.UNFOLD[filt_name('rec', c)] = lambda ix, c=c: e_atom(filt_name('dec', c), [sub(sub(w.L, ONE), ix[0])])
        m = [raw2_post(w, n, 'sameshift', dtype, T.mkdev(device), sy) for sy in (True, False)]
        verify.oblige_eq('lemma: for an orthogonal wavelet the transposed 2-D synthesis matrix is the analysis matrix', m[0].transpose(0, 1), m[1])
    return f'orthogonal wavelet, 2-D[{dtype},{device}]', body, lambda m: None
