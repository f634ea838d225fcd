"""C01-C10: padded convolution transforms in 1, 2 and 3 dimensions (tensor-product and separable)."""
import itertools

from specs.common import *  # noqa: F401,F403
import verify
from specs import symm
from fakes import SymWavelet, WName
from tensor import Device
from core import Unsupported

WORDS = {1: ['d'], 2: ['da', 'ad', 'dd'], 3: ['aad', 'ada', 'add', 'daa', 'dad', 'dda', 'ddd']}
# conv_transform_2: (horizontal, vertical, diagonal) = (high along -2, high along -1, both)


def entry_points(W, fam, d):
    if fam == 'sep':
        m = W.load('separable_conv_transform')
        return (m.fswavedec2, m.fswaverec2) if d == 2 else (m.fswavedec3, m.fswaverec3)
    m = W.load(['conv_transform', 'conv_transform_2', 'conv_transform_3'][d - 1])
    s = ['', '2', '3'][d - 1]
    return getattr(m, 'wavedec' + s), getattr(m, 'waverec' + s)


def dev(d):
    return f',device={d}' if d else ''


class Layout:
    """Tensors of a given rank whose transformed axes have given sizes; the other axes are symbolic."""

    def __init__(self, rank, axes, device=None):
        self.rank, self.d = rank, len(axes)
        self.device = device and Device(device)
        self.axes = [a % rank for a in axes]
        self.lead = [V(f'B{k}') for k in range(rank) if k not in self.axes]

    def split(self, flat):
        """index list -> (lead indices, transformed indices in the order of axes)"""
        lead = [flat[k] for k in range(self.rank) if k not in self.axes]
        return lead, [flat[a] for a in self.axes]

    def join(self, lead, ts):
        it = iter(lead)
        return [ts[self.axes.index(k)] if k in self.axes else next(it) for k in range(self.rank)]

    def tensor(self, sizes, entry, dtype, device=None, name=None):
        """entry(lead, ts) -> entry"""
        groups = [(s,) for s in self.join(self.lead, sizes)]
        keep = [g[0] != ONE for g in groups]

        def el(flat):
            it = iter(flat)
            full = [next(it) if k else ZERO for k in keep]
            return entry(*self.split(full))
        return SymTensor(groups, el, dtype, device or self.device, Storage(name) if name else None)


def ext_nd(entry, q, n, mode):
    """entry at the extended position q (a list) of a signal with sizes n"""
    if not q:
        return entry([])
    return extend(lambda t: ext_nd(lambda r: entry([t] + r), q[1:], n[1:], mode), q[0], n[0], mode)


def filt_name(kind, c):
    return f'{kind}_lo' if c == 'a' else f'{kind}_hi'


def sum_nd(sizes, fn):
    if not sizes:
        return fn([])
    return e_sum(sizes[0], lambda k: sum_nd(sizes[1:], lambda r: fn([k] + r)))


def product(es):
    r = e_const(1)
    for e in es:
        r = e_mul(r, e)
    return r


def analysis_entry(word, L, entry, n, ts, mode, pre=''):
    """sum_k prod_q f_q[k_q] ext(entry)(2 t_q + 1 - k_q)"""
    d = len(word)
    return sum_nd([L] * d, lambda ks: e_mul(product([e_atom(pre + filt_name('dec', c), [k]) for c, k in zip(word, ks)]),
                                            ext_nd(entry, [sub(add(scale(t, 2), ONE), k) for t, k in zip(ts, ks)], n, mode)))


def synthesis_entry(L, bands, m, js, pre=''):
    """sum_w sum_t prod_q rec_w[j_q + L - 2 - 2 t_q] C_w(t), 0 <= t_q < m_q"""
    d = len(m)
    out = []
    for word, entry in bands.items():
        def term(ts, word=word, entry=entry):
            fs = []
            for c, t, j in zip(word, ts, js):
                k = sub(add(j, sub(L, K(2))), scale(t, 2))
                fs.append(e_guard(e_atom(pre + filt_name('rec', c), [k]), band(ge0(k), lt(k, L))))
            return e_mul(product(fs), entry(ts))
        out.append(sum_nd(m, term))
    return e_add(*out)


def size_dom(mode, L, J):
    def dom(p, m):
        inside = band(ge0(p), lt(p, J))
        out = [bor(bnot(ge0(p)), le(ONE, m))]
        if mode == 'reflect':
            out.append(bor(bnot(inside), le(L, m)))
        if mode == 'periodic':
            out.append(bor(bnot(inside), le(add(sub(L, K(2)), ir.mod(m, K(2))), m)))
        return out
    return dom


def wavelet_arg(w, wav, dtype, device=None):
    if wav == 'name':
        n = WName('sym')
        n.wav = w
        return n
    names = ('dec_lo', 'dec_hi', 'rec_lo', 'rec_hi')
    if wav == 'tuple':  # tensors like the data
        return tuple(SymTensor([(w.L,)], lambda flat, n=n: e_atom(w.pre + n, flat), dtype, device and Device(device), Storage('the wavelet')) for n in names)
    if wav == 'foreign':  # double-precision tensors on the CPU
        return tuple(SymTensor([(w.L,)], lambda flat, n=n: e_atom(T.tag(F64) + n, flat), F64, None, Storage('the wavelet')) for n in names)
    return w


def begin(lay, pre='', dtype=F64):
    C = core.C
    w = SymWavelet(pre=pre)
    setup_filters(w, dtype)
    if dtype is F64:  # a narrower intermediate type loses precision
        T.ROUNDED.update(['X', 'A', 'R', 'CA', 'CD'] + ['CD' + wd for d in WORDS for wd in WORDS[d]])
    symm.setup()
    C.assume(le(ONE, V('h')))
    for b in lay.lead:
        C.assume(le(ONE, b))
    return w


class Analysis:
    """The specification of the multi-level analysis of one input (ghost sequence A)."""

    def __init__(self, lay, w, mode, J, sizes, x, dtype, device=None, name='A'):
        """x(lead, ts): entries of the input; sizes: its transformed sizes"""
        self.lay, self.w, self.mode, self.J, self.name = lay, w, mode, J, name
        L = w.L
        C = core.C
        dom = size_dom(mode, L, J)
        self.n = []
        for q, N in enumerate(sizes):
            C.assume(band(*dom(ZERO, N)))
            self.n.append(size_seq(f'n{name}{q}', N, lambda m: ir.div(add(m, sub(L, ONE)), K(2)), dom))
        nl = len(lay.lead)

        def unfold(ix):
            i, b, t = ix[0], ix[1:1 + nl], ix[1 + nl:]
            if i.const() == 0:
                return x(list(b), list(t))
            if i.t.get((), 0) >= 1:
                return self.band('a' * lay.d, sub(i, ONE), b, t)
            return None
        eqprove.UNFOLD[name] = unfold
        C.ghosts[name] = vc.Ghost(name, lay.lead, self.n, dtype, device)

    def approx(self, i, b, t):
        return e_atom(self.name, [i] + list(b) + list(t))

    def sizes(self, i):
        return [f(i) for f in self.n]

    def band(self, word, i, b, ts):
        """band of the level computed from A(i)"""
        return analysis_entry(word, self.w.L, lambda t: self.approx(i, b, t), self.sizes(i), ts, self.mode, self.w.pre)


def frame_obligation(what='the input'):
    C = core.C
    if C.frozen_hits:
        C.record(f'{what} is not modified', 'refuted', backend='frame', time=0, detail=str(C.frozen_hits))
    else:
        C.record(f'{what} is not modified', 'discharged', backend='frame', time=0)


def known(v, depth=0):
    """Nothing in v was left open by a loop invariant that could not be established."""
    if isinstance(v, (core.Poison, vc.PoisonList)):
        raise Unsupported('the result depends on a value not described by the loop invariant')
    if depth < 5:
        if isinstance(v, (tuple, list)):
            for x in v:
                known(x, depth + 1)
        elif isinstance(v, dict):
            for x in v.values():
                known(x, depth + 1)
        elif isinstance(v, (core.TList, core.STuple)):
            for x in v.s:
                if isinstance(x, core.El):
                    known(x.v, depth + 1)


def malformed(name, detail):
    C = core.C
    st = C.check(TRUE)
    C.record(name, {'sat': 'refuted', 'unsat': 'discharged'}.get(st, 'unknown'), backend='type', time=0, detail=detail, model=C.model_dict() if st == 'sat' else None)


def expect_type(name, v, cls):
    known(v)
    if not isinstance(v, cls):
        malformed(name, f'{type(v).__name__} returned')
        raise core.PathEnd()


def bands_of(fam, d, v):
    """detail container -> {word: tensor}, None if malformed"""
    if d == 1:
        return {'d': v} if isinstance(v, SymTensor) else None
    if fam == 'conv' and d == 2:
        if not isinstance(v, tuple) or len(v) != 3:
            return None
        if type(v).__name__ != 'WaveletDetailTuple2d' or (v.horizontal is not v[0] or v.vertical is not v[1] or v.diagonal is not v[2]):
            return None
        return dict(zip(WORDS[2], v))
    if not isinstance(v, dict) or set(v) != {''.join(p) for p in itertools.product('ad', repeat=d)} - {'a' * d}:
        return None
    return dict(v)


def analysis_spec(W, fam, d, mode, rank, axes, level='sym', wav='obj', dtype=F64, defax=False, device=None):
    dec, _ = entry_points(W, fam, d)

    def body():
        C = core.C
        lay = Layout(rank, axes, device)
        w = begin(lay, dtype=dtype)
        L = w.L
        N = [V(f'N{q}') for q in range(d)]
        C.assume(band(*[le(ONE, x) for x in N]))
        if level == 'sym':
            J = V('J')
            C.assume(ge0(J))
        elif level is None:
            J = fakes.maxlevel(N[0], L)
            for x in N[1:]:
                m = fakes.maxlevel(x, L)
                J = ite(le(J, m), J, m)
            if C.decide(eq(J, ZERO)):
                J = ZERO
        else:
            J = K(level)
        data = lay.tensor(N, lambda b, t: e_atom('X', b + t), dtype, name='data')
        sp = Analysis(lay, w, mode, J, N, lambda b, t: e_atom('X', b + t), dtype, data.device)
        kw = dict(mode=mode)
        if level == 'sym':
            kw['level'] = mk(J)
        elif level is not None:
            kw['level'] = level
        if not defax:
            kw.update({'axis': axes[0]} if d == 1 else {'axes': tuple(axes)})
        f = dec.__name__
        r = verify.call(f, dec, data, wavelet_arg(w, wav, dtype, device), **kw)
        if d == 1:
            expect_type('the result is a list', r, core.TList)
        else:
            expect_type('the result is a tuple', r, (tuple, core.STuple))
        if not verify.oblige_eq('the number of entries is level + 1', core.sym_len(r), mk(add(J, ONE))):
            return
        verify.oblige_eq('the approximation is A(level)', r[0], lay.tensor(sp.sizes(J), lambda b, t: sp.approx(J, b, t), dtype, data.device))
        frame_obligation()
        t = C.fint('t')
        C.assume(band(le(ONE, t), le(t, J)))
        if not C.feasible():
            return
        i = sub(J, t)
        bs = bands_of(fam, d, r[mk(t)])
        if bs is None:
            known(r[mk(t)])
            malformed('detail entries have the documented structure', repr(r[mk(t)])[:200])
            return
        for word, x in bs.items():
            verify.oblige_eq(f'band {word} is the filtered extension of A(level - t)', x,
                             lay.tensor(sp.sizes(add(i, ONE)), lambda b, ts, word=word: sp.band(word, i, b, ts), dtype, data.device))
    return f'{dec.__name__}[{mode},rank={rank},axes={"default" if defax else tuple(axes)},level={level},wavelet={wav},{dtype}{dev(device)}]', body, replay_case(fam, d, mode, rank, axes, wav, dtype, level, False)


def replay_case(fam, d, mode, rank, axes, wav, dtype, level, synth):
    """The verifier's counter-model as a case of the run-time contract (rt/contracts.py)."""
    def f(m):
        L = 2 * max(1, m.get('h', 1))
        J = m.get('J', 1) if level in ('sym', None) else level
        if L > 140 or not 0 <= J <= 12:
            return None
        sizes = []
        for q in range(d):
            if synth:
                n = m.get(f'M{q}', 1)
                for _ in range(J):
                    n = max(1, 2 * n - L + 2)
            else:
                n = m.get(f'N{q}', 1)
            sizes.append(n)
        ax = [a % rank for a in axes]
        shape = [sizes[ax.index(k)] if k in ax else min(3, m.get(f'B{k}', 1)) for k in range(rank)]
        tot = 1
        for x in shape:
            tot *= x
        if tot > 2e6 or any(x < 1 for x in shape):
            return None
        return dict(kind=('c' if fam == 'conv' else 's') + str(d), w=f'rand:{L}:1', mode=mode or 'zero', shape=shape, level=J, axes=list(axes), seed=1,
                    dt='f4' if dtype is F32 else 'f8', layout=0)
    return f


# ------------------------------------------------------------------ synthesis
def _hit(name):
    def f(self, *a, **k):
        core.C.frozen_hits.append(f'a detail dictionary ({name})')
        return getattr(dict, name)(self, *a, **k)
    return f


class FrozenDict(dict):
    """A dictionary of the caller."""
    caller_owned = True


for _n in ('__setitem__', '__delitem__', 'pop', 'popitem', 'clear', 'update', 'setdefault', '__ior__'):
    setattr(FrozenDict, _n, _hit(_n))


def detail_container(W, fam, d, tensors, order=None):
    if d == 1:
        return tensors['d']
    if fam == 'conv' and d == 2:
        return W.load('constants').WaveletDetailTuple2d(*[tensors[w] for w in WORDS[2]])
    ks = order or WORDS[d]
    return FrozenDict({k: tensors[k] for k in ks})


class Coeffs:
    """An arbitrary consistent coefficient list: position t = 0..J-1 holds the details of size m(t)."""

    def __init__(self, W, fam, lay, w, J, dtype, name='', order=None, device=None):
        C = core.C
        d = lay.d
        self.lay, self.w, self.J, self.dtype, self.name = lay, w, J, dtype, name
        L = w.L
        self.m, self.s = [], []
        words = WORDS[d]
        for q in range(d):
            odd = f'odd{name}{q}'
            ir.UFAXIOMS[odd] = lambda p, odd=odd: [ge0(ir.atom(('uf', odd, (p,)))), le(ir.atom(('uf', odd, (p,))), ONE),
                                                   bor(bnot(eq(p, J)), eq(ir.atom(('uf', odd, (p,))), ZERO))]
            mname = f'm{name}{q}'
            M0 = V(f'M{name}{q}')
            C.assume(le(ONE, M0))

            def fold(args, mname=mname, odd=odd, M0=M0):
                p = args[0]
                if p.const() == 0:
                    return M0
                if p.t.get((), 0) >= 1:
                    prev = ir.mkuf(mname, (sub(p, ONE),))
                    return sub(sub(scale(prev, 2), sub(L, K(2))), ir.mkuf(odd, (p,)))
                return None

            def ax(p, mname=mname):
                a = ir.atom(('uf', mname, (p,)))
                # sizes along the list are positive, and so are the sizes they lead to
                nxt = sub(sub(scale(a, 2), sub(L, K(2))), ir.mkuf(f'odd{name}{int(mname[-1])}', (add(p, ONE),)))
                return [bor(bnot(eq(p, ZERO)), eq(a, V('M' + mname[1:]))), bor(bnot(band(ge0(p), le(p, J))), le(ONE, a)), bor(bnot(band(ge0(p), lt(p, J))), le(ONE, nxt))]
            ir.UF_FOLD[mname] = fold
            ir.UFAXIOMS[mname] = ax
            C.assume(bor(eq(J, ZERO), le(ONE, sub(sub(scale(M0, 2), sub(L, K(2))), ir.mkuf(odd, (ONE,))))))
            self.m.append(lambda p, mname=mname: ir.mkuf(mname, (p,)))
            if fam == 'sep':
                # separable synthesis crops an odd sample only when the next level starts
                sname = f's{name}{q}'

                def sfold(args, M0=M0, mname=mname):
                    p = args[0]
                    if p.const() == 0:
                        return M0
                    if p.t.get((), 0) >= 1:
                        return sub(scale(ir.mkuf(mname, (sub(p, ONE),)), 2), sub(L, K(2)))
                    return None

                def sax(p, sname=sname, odd=odd, mname=mname):
                    return [eq(ir.atom(('uf', sname, (p,))), add(ir.mkuf(mname, (p,)), ite(eq(p, ZERO), ZERO, ir.mkuf(odd, (p,)))))]
                ir.UF_FOLD[sname] = sfold
                ir.UFAXIOMS[sname] = sax
                self.s.append(lambda p, sname=sname: ir.mkuf(sname, (p,)))
            else:
                self.s.append(self.m[-1])
        nl = len(lay.lead)
        R = f'R{name}'

        def unfold(ix):
            i, b, t = ix[0], list(ix[1:1 + nl]), list(ix[1 + nl:])
            if i.const() == 0:
                return e_atom(f'CA{name}', b + t)
            if i.t.get((), 0) >= 1:
                return self.step(sub(i, ONE), b, t)
            return None
        eqprove.UNFOLD[R] = unfold
        self.R = R
        self.words = words
        self.approx = lay.tensor(self.sizes(ZERO), lambda b, t: e_atom(f'CA{name}', b + t), dtype, device, 'coeffs[0]')

        def seg(p):
            return detail_container(W, fam, d, {wd: lay.tensor(self.sizes(p), lambda b, t, wd=wd: self.detail(wd, p, b, t), dtype, device, 'a detail') for wd in words}, order)
        self.seg = seg
        C.ghosts[R] = vc.Ghost(R, lay.lead, self.s, dtype, device or lay.device)

    def detail(self, wd, p, b, t):
        return e_atom(f'CD{self.name}{wd}', [p] + list(b) + list(t))

    def sizes(self, p):
        return [f(p) for f in self.m]

    def step(self, i, b, js):
        """entries of R(i+1)"""
        bands = {'a' * self.lay.d: lambda ts: e_atom(self.R, [i] + list(b) + list(ts))}
        for wd in self.words:
            bands[wd] = lambda ts, wd=wd: self.detail(wd, i, b, ts)
        return synthesis_entry(self.w.L, bands, self.sizes(i), js, self.w.pre)

    def result(self):
        J = ZERO if core.C.decide(eq(self.J, ZERO)) else self.J
        return self.lay.tensor([f(J) for f in self.s], lambda b, t: e_atom(self.R, [J] + b + t), self.dtype)


def synthesis_spec(W, fam, d, rank, axes, wav='obj', dtype=F64, container=None, order=None, defax=False, J='sym', device=None):
    _, rec = entry_points(W, fam, d)

    def body():
        C = core.C
        lay = Layout(rank, axes, device)
        w = begin(lay, dtype=dtype)
        if J == 'sym':
            JJ = V('J')
            C.assume(ge0(JJ))
        else:
            JJ = K(J)
        co = Coeffs(W, fam, lay, w, JJ, dtype, order=order)
        segs = [core.El(co.approx), core.Seg(JJ, co.seg)]
        if (container or ('list' if d == 1 else 'tuple')) == 'list':
            arg = core.TList.of(segs)
            arg.frozen = 'the coefficient list'
        else:
            arg = core.mk_tuple(segs)
        kw = {}
        if not defax:
            kw = {'axis': axes[0]} if d == 1 else {'axes': tuple(axes)}
        r = verify.call(rec.__name__, rec, arg, wavelet_arg(w, wav, dtype, device), **kw)
        expect_type('the result is a tensor', r, SymTensor)
        verify.oblige_eq('the result is the iterated synthesis R(J)', r, co.result())
        frame_obligation('the coefficients')
    return f'{rec.__name__}[rank={rank},axes={"default" if defax else tuple(axes)},wavelet={wav},{dtype},{container or ""}{order or ""}J={J}{dev(device)}]', body, replay_case(fam, d, None, rank, axes, wav, dtype, J, True)
